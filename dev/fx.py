import subprocess,re,sys
def rd(p): return open('/repo/src/'+p).read()
def wr(p,s): open('/repo/src/'+p,'w').write(s)
def commit(msg): subprocess.check_call(['git','-C','/repo','commit','-qam',msg])
def sub(p,a,b,cnt=1):
    s=rd(p); assert s.count(a)==cnt,(p,a,s.count(a)); wr(p,s.replace(a,b))
