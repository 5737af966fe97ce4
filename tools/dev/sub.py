import subprocess
def sub(p,a,b,n=1):
    p='/repo/'+p; s=open(p).read(); assert s.count(a)==n,(p,s.count(a)); open(p,'w').write(s.replace(a,b))
def commit(m): subprocess.check_call(['git','-C','/repo','commit','-qam',m])
