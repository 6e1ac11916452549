"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []


def prop(id, title, statement, over, why, files, mech, note, technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, note=note, technique=technique))


NA = []


def na(id, title, statement, over, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, reason=reason))


exec(open(os.path.join(HERE, 'vc', 'meta_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': None
                            if isinstance(p['over'], tuple) else p['over'],
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': p['mech']}}) + '\n')
T = 'contract-based deductive verification: weakest-precondition style symbolic execution of the LLVM IR of the real functions against pre/postconditions and loop invariants, obligations discharged by z3 (QF_BV / integer arithmetic / arrays) and cvc5'
man = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': []}
for p in PROPS:
    if 'reason' in p:
        man['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
        continue
    man['checks'].append({'property': p['id'], 'quick_cmd': 'bash /verif/check.sh %s quick' % p['id'],
                          'thorough_cmd': 'bash /verif/check.sh %s thorough' % p['id'], 'technique': p['technique'] or T,
                          'level': 'proof', 'level_note': p['note']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
