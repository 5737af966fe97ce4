import subprocess,re
kf=open('/verif/known-findings.txt').read()
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','b57c52f..HEAD'],text=True).strip().split('\n')
miss=[l for l in reversed(log) if l.split()[0] not in kf]
import sys
for l in miss:
    h,s=l.split(' ',1); print('fixed: property=%s %s %s'%(sys.argv[1],h,s.replace('fix: ','')))
