import re,sys,os
for f in sys.argv[1:]:
    for part in re.split(r'^## ',open(f).read(),flags=re.M)[1:]:
        h,b=part.split('\n',1)
        n=h.split()[0]
        open('/tmp/mut/%s.mut'%n,'w').write(h+'\n'+b)
