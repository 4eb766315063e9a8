import sys,re,subprocess
for n in sys.argv[1:]:
    src=open('/tmp/ref/%s.txt'%n).read()
    for m in re.finditer(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>',src,re.S|re.M):
        f='/repo/'+m.group(1); t=open(f).read(); assert m.group(2) in t, m.group(2)
        open(f,'w').write(t.replace(m.group(2),m.group(3),1))
