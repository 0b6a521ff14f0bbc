"""usage: addfinding.py PROP SUBJECT_PREFIX WHAT SHORT"""
import json,subprocess,sys
prop,subj,what,short=sys.argv[1:]
h=[l.split(' ',1)[0] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines() if l.split(' ',1)[1].startswith(subj)][0]
p='/verif/known_findings.json'
k=open(p).read().rstrip()[:-1].rstrip()
e=json.dumps({"property":prop,"status":"fixed","commit":h,"what":what,"line":f"fixed: property={prop} {h} {short}"})
k+=',\n '+e+'\n]\n'
json.loads(k)
open(p,'w').write(k)
