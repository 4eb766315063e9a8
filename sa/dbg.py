import sys, time
from engine import *
import facts as F
def world():
    l,b,m=F.extract()
    return World([('lib',l),('bin',b),('models',m)])
def show_graph(g, limit=200):
    n=0
    for nd in g.nodes:
        for evs,m,lab in nd.out:
            if evs or lab or nd.head:
                top=nd.ctx.stack[-1]
                print(nd.id, g.e.frames[top[0]][1].path.split('::')[-1][:30], 'b%s'%top[1], 'HEAD' if nd.head else '', '->', m.id if m else lab)
                for e in evs: print('     ', ' '.join(show(x) if isinstance(x,(Term,tuple)) else str(x) for x in e)[:400])
                n+=1
                if n>limit: return
    for p,inc in g.phi.items():
        print('PHI', show(p)[:100]); 
        for k,s in inc: print('   ',k,show(s)[:300])

def run(w, path, opts=None, quiet=False, cor=None):
    import models
    e=Engine(w,models.MODELS,opts or {})
    t=time.time()
    b=w.bodies[path] if path else None
    if cor is not None: r=models.root_cor(e,cor)
    elif b.kind=='coroutine':
        n=len(b.j.get('up') or [])
        r=models.root_cor(e,A(('cor',path),0,*[mk('Y','up%d'%i) for i in range(n)]))
    else: r=models.root(e,b)
    g=e.explore(r)
    print(path or cor,'nodes',len(g.nodes),'%.2fs'%(time.time()-t))
    if not quiet: show_graph(g)
    print('unmodelled',{k:v for k,v in e.unmodelled.items()})
    return e,g
if __name__=='__main__':
    w=world()
    for path in sys.argv[1:]: run(w,path)
