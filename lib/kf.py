import json,sys
p='/verif/known_findings.json'
d=json.load(open(p))
status,prop,key,commit,what=sys.argv[1:6]
n=len(d['findings'])+1
e=dict(id=f'KF-F{n}',property=prop,key=key,status=status)
if commit!='-': e['commit']=commit
e['what']=(f'fixed: property={prop} {commit} ' if status=='fixed' else '')+what
d['findings'].append(e)
open(p,'w').write('{"findings": [\n '+',\n '.join(json.dumps(x) for x in d['findings'])+'\n]}\n')
