#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from its head and tail, the registered checks, properties and known findings (run by hand)."""
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=lambda f: open(root+'/tools/'+f).read()
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
reg={}
for f in glob.glob(root+'/checks/c*.go'):
    s=open(f).read()
    m=re.search(r'ID: "(C\d\d)", Level: "(\w+)",\s*Rule:\s*"((?:[^"\\]|\\.)*)",\s*Bounds:\s*"((?:[^"\\]|\\.)*)"',s)
    if m: reg[m[1]]=(m[2],m[3].replace('\\"','"'),m[4].replace('\\"','"'))
cost=json.load(open(root+'/tools/cost.json')) if os.path.exists(root+'/tools/cost.json') else {}
out=t('design_head.md')
for p in props:
    lv,rule,b=reg[p['id']]
    out+='### %s %s\n\n*Method* (%s): %s\n\n*Bounds*: %s\n\n*Beyond the tests*: %s\n\n'%(p['id'],p['title'],lv.replace('_',' '),rule[0].upper()+rule[1:],b,p['why_tests_cant'])
    c=cost.get(p['id'])
    if c: out+='*Cost*: %s\n\n'%c
out+=t('design_tail.md')
for l in open(root+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: out+='* %s, `%s`: %s\n'%(m[1],m[2],m[3])
out+='\n## 5. Planted bugs and what catches them\n\nEach row is a folder of `seeded/`: the change, what it needs in order to show, and the property whose quick\ncheck reports it. All of them are caught.\n\n| change | caught by | needs | breaks |\n|---|---|---|---|\n'
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d))
    out+='| %s | %s | %s | %s |\n'%(os.path.basename(os.path.dirname(d)),m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'))
out+='\n'+t('design_seeds.md')
open(root+'/DESIGN.md','w').write(out); print(len(out))
