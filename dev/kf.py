import json,subprocess,sys
p='/verif/known_findings.json'; k=json.load(open(p))
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()]
def add(prop,frag):
    m=[(h,s) for h,s in log if frag in s]; assert len(m)==1,(frag,m)
    e="fixed: property=%s %s %s"%(prop,m[0][0],m[0][1].replace('fix: ',''))
    if e not in k['fixed']: k['fixed'].append(e)
for i in range(1,len(sys.argv),2): add(sys.argv[i],sys.argv[i+1])
json.dump(k,open(p,'w'),indent=1)
