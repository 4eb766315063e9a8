#!/usr/bin/env python3
"""run.py NAME... : apply /tmp/ref/NAME.txt (edit format) to /repo, cargo test compile, run all checks, undo"""
import sys,re,subprocess,os,glob
only=[a for a in sys.argv[1:] if re.match(r'C\d+$',a)]
names=[a for a in sys.argv[1:] if a not in only] or sorted(os.path.basename(f)[:-4] for f in glob.glob('/tmp/ref/*.txt'))
sys.path.insert(0,'/verif/sa')
def sh(c,cwd='/repo'): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True)
assert not sh('git status --porcelain').stdout
for n in names:
    src=open('/tmp/ref/%s.txt'%n).read(); bad=None
    for m in re.finditer(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>',src,re.S|re.M):
        f='/repo/'+m.group(1); t=open(f).read()
        if m.group(2) not in t: bad='no match: '+m.group(2); break
        open(f,'w').write(t.replace(m.group(2),m.group(3),1))
    if not bad:
        p=sh('cargo check --offline --target-dir /tmp/ref/target 2>&1 | grep -A9 "^error"')
        if p.stdout: bad='compile: '+p.stdout[:1500]
    if bad: print(n,bad); sh('git checkout -q -- .'); continue
    out=[]
    ids=only or re.findall(r"^check\('(C\d+)'",open('/verif/sa/registry.py').read(),re.M)
    from concurrent.futures import ThreadPoolExecutor
    subprocess.run('python3 sa/facts.py',shell=True,cwd='/verif',capture_output=True)
    with ThreadPoolExecutor(8) as ex:
        rs=list(ex.map(lambda i:(i,subprocess.run(['python3','check.py',i],cwd='/verif',capture_output=True,text=True)),ids))
    for i,p in rs:
        if p.returncode: out.append('%s rc=%d %s'%(i,p.returncode,(p.stdout+p.stderr[-200:])[:350]))
    sh('git checkout -q -- .')
    print(n,'QUIET' if not out else 'ALARM\n  '+'\n  '.join(out))
