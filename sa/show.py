import json,sys
def ld(n='lib'): return json.load(open('/verif/.build/facts/facts-%s.json'%n))
def op(f,o):
    if 'c' in o: return pl(o['c'])
    if 'm' in o: return 'move '+pl(o['m'])
    if 'k' in o: return cst(f,o['k'])
    return str(o)
def cst(f,k):
    n=k.get('name','')
    if k['k']=='int': return k['v']+(('«%s»'%n.split('::')[-1]) if n else '')
    if k['k'] in('str','bytes'): return repr(bytes(k['v']))
    if k['k']=='fn': return 'fn '+k.get('r',k['p'])+('!' if k.get('rl') else '')
    if k['k']=='agg': return 'agg#%s(%s)'%(k['var'],','.join(cst(f,x) for x in k['f']))
    if k['k']=='refto': return '&'+cst(f,k['v'])
    if k['k']=='promoted': return 'prom%d'%k['i']
    if k['k']=='static': return 'static '+k['p']
    return k['k']+':'+f['types'][k['t']]['s']+'«%s»'%n
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s+='@%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def rv(f,r):
    k=r[0]
    if k=='use': return op(f,r[1])
    if k=='ref': return '&%s %s'%(r[1],pl(r[2]))
    if k=='cast': return '%s as %s (%s)'%(op(f,r[2]),f['types'][r[3]]['s'][:60],r[1][:30])
    if k=='bin': return '%s(%s,%s)'%(r[1],op(f,r[2]),op(f,r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(f,r[2]))
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='agg': return '%s(%s)'%([x for x in r[1][:3]],', '.join(op(f,o) for o in r[2]))
    return str(r)[:200]
def show(f,name,cleanup=False):
    b=f['bodies'][name]
    print(name,b['kind'],'argc',b['argc'],'up',b['up'])
    for i,l in enumerate(b['locals']): print('  let _%d: %s %s'%(i,f['types'][l[0]]['s'][:110],l[1] or ''))
    for i,bb in enumerate(b['blocks']):
        if bb['cl']: continue
        print(' bb%d:'%i)
        for s in bb['s']:
            if s[0]=='=': print('   %s = %s   #%s %s'%(pl(s[1]),rv(f,s[2]),s[3][1],'/'.join(s[3][2])))
            elif s[0]=='sd': print('   setdiscr',pl(s[1]),s[2])
        t=bb['t']; k=t['k']
        if k=='call': print('   %s = %s(%s) -> %s  #%s %s'%(pl(t['d']),op(f,t['f']),', '.join(op(f,a) for a in t['a']),t['t'],t['sp'][1],'/'.join(t['sp'][2])))
        elif k=='switch': print('   switch %s %s else %s'%(op(f,t['d']),t['vs'],t['o']))
        elif k=='drop': print('   drop %s -> %s'%(pl(t['p']),t['t']))
        elif k=='assert': print('   assert %s==%s %s -> %s'%(op(f,t['c']),t['e'],t['msg'],t['t']))
        elif k=='yield': print('   yield -> %s'%t['t'])
        else: print('   ',k,t.get('t',''))
if __name__=='__main__':
    f=ld(sys.argv[1])
    if len(sys.argv)<3:
        for n in f['bodies']:
            if 'CALLSITE' not in n: print(n,f['bodies'][n]['kind'],len(f['bodies'][n]['blocks']))
    else:
        for n in sys.argv[2:]: show(f,n)
