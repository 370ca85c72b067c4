"""Regenerate MANIFEST.json from check.REGISTRY and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

NOTES = {}
NA = {}
notes_file = os.path.join(HERE, 'tools', 'manifest_notes.json')
if os.path.exists(notes_file):
    d = json.load(open(notes_file))
    NOTES, NA = d.get('notes', {}), d.get('na', {})
DEF = ('Every obligation generated from the functions of /repo named in the evidence is discharged for arbitrary array lengths and values '
       '(no bound); callees outside the unit are used through the contract their own property verifies. Assumes real arithmetic for floats, the '
       'stated contracts on numpy/scipy/hmf/halomod functions, and the correctness of the in-house VC generator (onv/) and z3.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in check.REGISTRY:
        c = f'/opt/venv/bin/python /verif/check.py {i}'
        checks.append(dict(property=i, quick_cmd=c + ' --tier quick', thorough_cmd=c + ' --tier thorough',
                           technique='contract-based deductive verification (symbolic execution of the real functions, VCs discharged by normalisation and z3)',
                           level='proof', level_note=NOTES.get(i, DEF)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path[:0]=[\'/verif\',\'/repo/src\']; import onv.core, onepower"',
         checks=checks, not_applicable=na, notes='See DESIGN.md. No hooks in /repo; repairs of defects are the fix: commits listed in known_findings.json.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
