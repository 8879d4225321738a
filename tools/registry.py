#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the records below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts and loop invariants over the LLVM IR compiled from /repo on every run, obligations discharged by z3/cvc5'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None, na=None):
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                           anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)), note=note, na=na))


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['rec']['title']) <= 80, p['rec']['title']
        f.write(json.dumps(p['rec']) + '\n')
checks = [dict(property=p['rec']['id'], quick_cmd='python3-vt check.py %s quick' % p['rec']['id'], thorough_cmd='python3-vt check.py %s thorough' % p['rec']['id'],
               evidence_file='evidence/%s.json' % p['rec']['id'], technique=TECH, level='proof', level_note=p['note']) for p in P if not p['na']]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks,
         not_applicable=[dict(property=p['rec']['id'], reason=p['na']) for p in P if p['na']],
         notes='No hooks are compiled into /repo; contracts live in /verif/props and are attached to the functions of the compiled sources by name. Genuine defects repaired in /repo are listed in known_findings.txt.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'claimed')
