#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties and the reasons for the others."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = set(re.findall(r'^property (C\d\d)', "\n".join(open(V + '/contracts/' + f).read() for f in sorted(os.listdir(V + '/contracts')) if f.endswith('.gocv')), re.M))
off = {}
notes = {}
if os.path.exists(V + '/tools/notes.json'):
    d = json.load(open(V + '/tools/notes.json'))
    off, notes = d.get('not_applicable', {}), d.get('notes', {})
claimed -= set(off)
checks, na = [], []
base = ("Proof for all inputs over the SSA form of /repo's current source; every obligation is discharged by z3 or cvc5 on every run. "
        "int is a mathematical integer; functions outside /repo have assumed contracts, listed in the evidence. ")
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": "contract-based deductive verification (gocv: contracts on the Go code, verification conditions from go/ssa, z3/cvc5)",
                       "level": "proof", "level_note": base + notes.get(i, "")})
    else:
        na.append({"property": i, "reason": off.get(i, "not claimed yet: the contracts for this property are not finished")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: contracts are kept in /verif/contracts, keyed by function; /repo is verified as it is"},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), "claimed", len(na), "not")
