#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the contracts and tools/notes.json."""
import json,re,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes=json.load(open('/verif/tools/notes.json'))
claimed=set()
for f in glob.glob('/verif/contracts/*.spec'):
    claimed|=set(re.findall(r'^property (C\d\d)',open(f).read(),re.M))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed and not notes.get(i,{}).get('skip'):
        n=notes.get(i,{})
        checks.append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":n.get('technique',"contracts on the real Go code, verification conditions discharged by z3/cvc5"),
          "level":"proof","level_note":n.get('note',"every obligation of the functions under contract is discharged for all inputs; trusted base in the evidence")})
    else:
        na.append({"property":i,"reason":notes.get(i,{}).get('na',"not yet under contract")})
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
