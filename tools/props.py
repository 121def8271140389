#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run to regenerate both."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
CHECKS = {}


def prop(id, title, statement, over, quant, why, files, mech, observe, tech=None, note=None, level='model_checking', na=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': m[0], 'where': m[1]} for m in mech],
                          'observe_at': observe, 'hook_needed': None}})
    if na or not os.path.exists(os.path.join(HERE, 'checks', id.lower() + '.py')):
        NA[id] = na or 'no check built yet'
    else:
        CHECKS[id] = {'property': id,
                      'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + id,
                      'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + id,
                      'technique': tech or 'TLA+ specification, TLC; trace validation of the real code',
                      'level': level,
                      'level_note': note or 'exhaustive on the small instance of the specification; the code is bound to it by validating the traces of generated histories, so its verdict covers the histories driven'}


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())


def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p['title']) <= 80, p['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py std',
         'checks': [CHECKS[i] for i in ids if i in CHECKS],
         'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
         'notes': 'TLA+ specifications in specs/, drivers of the real code in drivers/, one check per property in checks/; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print('%d properties, %d checks' % (len(P), len(CHECKS)))


main()
