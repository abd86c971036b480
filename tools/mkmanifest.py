"""MANIFEST.json from props.py (the properties that have a check) and NA below"""
import sys,json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[R]
from props import PROPS
try: from props import NA
except ImportError: NA={}
TECH="contract-based deductive verification: requires/ensures/modifies and loop invariants on the real functions, VCs generated from the LLVM IR compiled from /repo's current sources, discharged by z3"
BTECH="bounded stand-in for contract verification: the contract's postconditions evaluated on the real code over generated inputs"
PNOTE="Every contract obligation of the listed functions is discharged for all inputs on each run; arithmetic is over reals and mathematical integers. Functions outside the verifier's reach are listed in the evidence as bounded and only exercised by the harness."
BNOTE="Bounded, not proved: the functions use containers, pointer lists or text the deductive verifier does not model; the postconditions are evaluated on the real functions for generated inputs, under address and undefined-behaviour sanitizers."
ids=[json.loads(l)['id'] for l in open(R+'/properties.jsonl')]
checks=[];na=[]
for i in ids:
    if i in PROPS:
        p=PROPS[i]
        checks.append(dict(property=i,quick_cmd=f"VERIF_TIER=quick python3-vt check.py {i}",thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {i}",
            technique=TECH if p['mods'] else BTECH, level=p.get('level') or ('proof' if p['mods'] else 'exploration'), level_note=(p.get('note') or (PNOTE if p['mods'] else BNOTE))))
    else: na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
json.dump(dict(version=1,setup_cmd="python3-vt -c 'import z3; print(z3.get_version_string())'",hooks=dict(guard="ZMDP_VERIF",enable="no hooks are needed: the checks compile the unmodified sources",source_commits=[]),checks=checks,not_applicable=na,
  notes="zv/: verification-condition generator over LLVM IR; specs/: contracts; harness/: replay of failed obligations on the real code and labelled bounded stand-ins; see DESIGN.md"),open(R+'/MANIFEST.json','w'),indent=1)
