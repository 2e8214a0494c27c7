#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json, harness/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
TRUST = ('Bounded: decided by an SMT solver for every value of the symbolic inputs within the bounds stated in the harness and repeated in the evidence. '
         'Trusted: the seed compiler front end (source to FLINT), the executor flsym and its model of the primitive operations, z3; '
         'passing witnesses are replayed natively on every run, counterexamples are reported only after native replay.')
def prop(id, title, statement, over, text, why, files, mech, units=(), cunits=(), technique='symbolic execution of the FLINT code compiled from /repo + SMT (z3) per path and assertion', level='model_checking', note=TRUST, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    if na: NA.append(dict(property=id, reason=na)); return
    P[-1]['_c'] = dict(units=list(units), cunits=list(cunits), technique=technique, level=level, note=note)
exec(open(os.path.join(V, 'tools', 'props_spec.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P: o.write(json.dumps({k: v for k, v in p.items() if k != '_c'}) + '\n')
checks = [dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
    technique=p['_c']['technique'], level=p['_c']['level'], level_note=p['_c']['note']) for p in P if '_c' in p]
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=NA,
    notes='No hooks are needed in /repo: the harnesses reach the code through its public interfaces. See DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
json.dump({p['id']: dict(units=p['_c']['units'], cunits=p['_c']['cunits'], level=p['_c']['level'], assumptions=[p['_c']['note']]) for p in P if '_c' in p},
    open(os.path.join(V, 'harness', 'props.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'claimed')
