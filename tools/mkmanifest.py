import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
PENDING={}
exec(open('/verif/tools/pending.py').read())
NOTE=open('/verif/tools/notes.json').read()
NOTE=json.loads(NOTE)
TECH="explicit-state model checking of the real program code (exhaustive BFS over instruction histories on a native runtime, each transition compared with a reference model)"
ENUM="; complete enumeration of bounded inputs on the real library code"
checks=[]
for p in props:
    i=p['id']
    if i in PENDING: continue
    n=NOTE.get(i,{})
    checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
      technique=TECH+(ENUM if n.get('enum') else ''),level="model_checking",
      level_note=n.get('note','')+" Exhaustive within the stated bounds: small sets of keys, sizes and values, all sequences over the alphabet. Trusts the native runtime (account model, CPI, rent), the independent decoder and reference model."))
hook=subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep=^hook:'],text=True).split()
m=dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="cfg vp_verif",enable="RUSTFLAGS=--cfg vp_verif (env.sh)",source_commits=hook),
  checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in PENDING.items()],
  notes="See DESIGN.md. known-findings.txt lists the defects repaired by fix: commits.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
