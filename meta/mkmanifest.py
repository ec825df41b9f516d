#!/usr/bin/env python3
# Regenerates MANIFEST.json from the claimed set below and properties.jsonl.
import json, os
here=os.path.dirname(os.path.abspath(__file__))
root=os.path.dirname(here)
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
exec(open(here+'/claims.py').read())   # CLAIMS: id -> level_note ; NA: id -> reason
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        c=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f'VERIF_TIER=quick ./run_check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./run_check.sh {i}',
          evidence_file=f'evidence/{i}.json',
          technique=c.get('technique','contract-based deductive verification of the Go source (own verification-condition generator over go/types, SMT back end); failed obligations replayed by a concrete harness'),
          level=c.get('level','proof'),level_note=c['note'],theorems=[]))
        if not checks[-1]['theorems']: del checks[-1]['theorems']
    else:
        na.append(dict(property=i,reason=NA.get(i,'no check built yet')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='Every check rebuilds the verifier from /verif/tool, regenerates all proof obligations from /repo and discharges them with z3/cvc5; see DESIGN.md.'),open(root+'/MANIFEST.json','w'),indent=1)
