import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
pid,key,scn,what=sys.argv[1:5]
e=dict(property=pid,key=key,what=what)
if scn!='-': e['scenario']=scn
d['findings'].append(e); json.dump(d,open(p,'w'),indent=1)
