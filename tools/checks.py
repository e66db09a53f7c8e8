#!/usr/bin/env python3
"""Writes checks.json (what the engine runs) and MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
TECH = "solver-based symbolic execution of the compiled Go SSA of the real code (bit-vector/uninterpreted-function SMT with z3); counterexamples replayed natively"
BASE = ["SHA-256 is an injective uninterpreted function per input length (collision resistance)",
        "the engine's models of runtime and library functions (evidence: functions_modelled) are faithful; sampled paths are re-executed natively and compared"]
C = {}
NA = {}

def check(id, note, harness, assumptions=(), level="model_checking"):
    C[id] = dict(level=level, technique=TECH, note=note, assumptions=list(assumptions) + BASE, harness=harness)

def H(pkg, fn, bounds, quick=None, thorough=None, expect=(), **kw):
    q = dict(kw.pop('q', {})); t = dict(kw.pop('t', {}))
    if quick is not None: q['params'] = quick
    if thorough is not None: t['params'] = thorough
    d = dict(pkg=pkg, fn=fn, bounds=bounds, quick=q, thorough=t, expect=list(expect))
    d.update(kw)
    return d

exec(open(here + '/tools/checks_list.py').read())

json.dump(C, open(here + '/checks.json', 'w'), indent=1, sort_keys=True)
man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
           hooks=dict(guard="none", enable="no hooks: harness files enter the packages through go build -overlay / go/packages overlays", source_commits=[]))
for p in props:
    i = p['id']
    if i in C:
        man['checks'].append(dict(property=i, quick_cmd="./run.sh check %s --tier quick" % i, thorough_cmd="./run.sh check %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH, level=C[i]['level'],
            level_note=C[i]['note'] + " Assumes: " + "; ".join(C[i]['assumptions']) + "."))
    else:
        man['not_applicable'].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(man, open(here + '/MANIFEST.json', 'w'), indent=1)
