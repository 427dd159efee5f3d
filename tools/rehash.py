"""After rewriting /repo history: refresh the hashes in known_findings.json (by subject)."""
import json, subprocess
p='/verif/known_findings.json'
d=json.load(open(p))
log=dict((s[5:],h) for h,s in (l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()) if s.startswith('fix: '))
out=[]
for l in d['fixed']:
    a,prop,h,what=l.split(' ',3)
    if what in log: out.append(' '.join([a,prop,log[what],what]))
    else: print('dropped',l)
assert len(out)==len(log),(len(out),len(log))
d['fixed']=out
json.dump(d,open(p,'w'),indent=1)
