# writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,note,claimed=True,reason=""):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]),_note=note,_claimed=claimed,_reason=reason))
exec(open('props_table.py').read())
with open('properties.jsonl','w') as f:
    for p in P:
        f.write(json.dumps({k:v for k,v in p.items() if not k.startswith('_')},ensure_ascii=False)+'\n')
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[])
for p in P:
    if p['_claimed']:
        m['checks'].append(dict(property=p['id'],quick_cmd=f"bash check.sh {p['id']} quick",thorough_cmd=f"bash check.sh {p['id']} thorough",
          technique="contract-based deductive verification: contracts on the functions of /repo, verification conditions generated from their SSA form on every run, discharged by z3/cvc5",
          level="proof",level_note=p['_note']))
    else:
        m['not_applicable'].append(dict(property=p['id'],reason=p['_reason']))
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write('\n')
