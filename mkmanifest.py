"""writes MANIFEST.json (run by hand after a change of claims)"""
import json
props=[json.loads(l) for l in open('properties.jsonl')]
LEVEL={}
NOTE={}
try:
    exec(open('levels.py').read())
except FileNotFoundError: pass
checks=[]
for p in props:
    i=p['id']
    checks.append({"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,
      "technique":"contracts on the real functions: obligations generated from the current source and discharged by z3, plus the same contracts checked at run time on generated inputs",
      "level":LEVEL.get(i,"exploration"),"level_note":NOTE.get(i,"bounded: run-time contract checking only")})
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":[]},open('MANIFEST.json','w'),indent=1)
