#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks (run by hand after editing)."""
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
reg={}
for f in glob.glob(root+'/checks/c*.go'):
    s=open(f).read()
    m=re.search(r'ID: "(C\d\d)", Level: "(\w+)",\s*Rule:\s*"((?:[^"\\]|\\.)*)",\s*Bounds:\s*"((?:[^"\\]|\\.)*)"',s)
    if m: reg[m[1]]=(m[2],m[4].replace('\\"','"'))
tech={
'exploration':'model checking by bounded exhaustive exploration: every input of a stated finite domain is run on the real code and judged by an independent reference model',
'fault_enumeration':'model checking by exhaustive fault enumeration on the real code: every fault position and kind, every read chunking, judged by a reference model',
'model_checking':'explicit-state / stateless model checking of the real code: every history or interleaving within bounds is executed and compared with a reference model',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in reg:
        lv,b=reg[i]
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',technique=tech[lv],level=lv,level_note='Within these bounds: '+b))
    else: na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na)
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); print(len(checks),len(na))
