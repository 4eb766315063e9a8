#!/usr/bin/env python3
"""prun.py [C## ...] [-c] [-s] [NAME...]: refactorings (or -s seeds) on snapshots, in parallel. -c includes clean tree"""
import sys,re,subprocess,os,glob,shutil,json
from concurrent.futures import ThreadPoolExecutor
import threading,queue
args=sys.argv[1:]
only=[a for a in args if re.match(r'C\d+$',a)]
seeds='-s' in args
names=[a for a in args if a not in only and a[0]!='-']
if not names:
    names=sorted(os.listdir('/verif/seeded')) if seeds else sorted(os.path.basename(f)[:-4] for f in glob.glob('/tmp/mut/*.mut'))
if '-c' in args: names=['@clean']+names
NW=int(os.environ.get('NW','7'))
def sh(c,cwd='/',**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def prep(i):
    d=os.environ.get('PW','/tmp/wm')+'/%d'%i
    os.makedirs(d,exist_ok=True)
    sh('rsync -a --delete --exclude=.git --exclude=seeded --exclude=evidence --exclude=.build/target --exclude=.build/facts /verif/ %s/verif/ 2>/dev/null || (mkdir -p %s/verif; cp -a /verif/*.py /verif/sa /verif/models /verif/driver /verif/known-findings.txt %s/verif/ ; mkdir -p %s/verif/.build; cp -a /verif/.build/driver /verif/.build/models %s/verif/.build/)'%(d,d,d,d,d))
    if not os.path.isdir(d+'/verif/.build/target'): sh('cp -a /verif/.build/target %s/verif/.build/target'%d)
    sh('rm -rf %s/repo; mkdir -p %s/repo; cp -a /repo/src /repo/Cargo.* %s/repo/; for x in samples build.rs .cargo; do [ -e /repo/$x ] && cp -a /repo/$x %s/repo/; done'%(d,d,d,d))
    return d
ids=re.findall(r"^check\('(C\d+)'",open('/verif/sa/registry.py').read(),re.M)
q=queue.Queue()
for n in names: q.put(n)
lock=threading.Lock()
def work(i):
    d=prep(i)
    while 1:
        try: n=q.get_nowait()
        except queue.Empty: return
        sh('rm -rf %s/repo/src; cp -a /repo/src %s/repo/src'%(d,d))
        bad=None
        chk=only or ids
        tgt=re.findall(r'C\d+',open('/tmp/mut/%s.mut'%n).readline())[:1] if n[0]!='@' else []
        if not only and '-a' not in args: chk=tgt
        if n=='@clean': pass
        elif seeds:
            p=sh('patch -p1 -s < /verif/seeded/%s/patch.diff'%n,d+'/repo')
            if p.returncode: bad='patch: '+p.stdout
            if not only: chk=[json.load(open('/verif/seeded/%s/meta.json'%n))['property']]
        else:
            src=open('/tmp/mut/%s.mut'%n).read()
            for m in re.finditer(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>',src,re.S|re.M):
                f=d+'/repo/'+m.group(1); t=open(f).read()
                if m.group(2) not in t: bad='no match: '+m.group(2); break
                open(f,'w').write(t.replace(m.group(2),m.group(3),1))
        out=[]
        env=dict(os.environ,VERIF_REPO=d+'/repo')
        if not bad:
            p=subprocess.run(['python3','sa/facts.py'],cwd=d+'/verif',env=env,capture_output=True,text=True)
            if p.returncode: bad='facts: '+(p.stdout+p.stderr)[-1200:]
        if not bad:
            for c in chk:
                p=subprocess.run(['python3','check.py',c],cwd=d+'/verif',env=env,capture_output=True,text=True)
                if p.returncode: out.append('%s rc=%d %s'%(c,p.returncode,(p.stdout+p.stderr[-200:])[:350]))
        with lock:
            if bad: print(n,bad)
            elif seeds: print(n,'caught' if out else '*** MISSED', '|'.join(o.replace('\n',' ')[:150] for o in out))
            else: print(n,'*** MISSED' if not out else 'caught: '+' | '.join(o[:110].replace('\n',' ') for o in out))
            sys.stdout.flush()
with ThreadPoolExecutor(NW) as ex: list(ex.map(work,range(NW)))
