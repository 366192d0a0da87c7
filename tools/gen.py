#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real sources with z3 (symx)'
NOTE = ('Every assertion is discharged by z3 over all symbolic inputs within the bounds listed in the evidence; '
        'trusts the symx environment model (struct, io, uuid, datetime, codecs), which is cross-checked by replaying '
        'path witnesses on the real interpreter. Counterexamples are reported only after they reproduce there.')


def P(id, title, statement, over, text, why, files, mech, state=None, tech=TECH, note=NOTE, na=None, weight=1):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    return {'p': {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why, 'anchors': a},
            'tech': tech, 'note': note, 'na': na}


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in PROPS:
            f.write(json.dumps(x['p']) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/selfcheck.py',
         'checks': [], 'not_applicable': [],
         'notes': 'run.py PROP --tier quick|thorough; see DESIGN.md'}
    for x in PROPS:
        i = x['p']['id']
        if x['na']:
            m['not_applicable'].append({'property': i, 'reason': x['na']})
        else:
            m['checks'].append({'property': i, 'quick_cmd': 'python3-vt run.py %s --tier quick' % i,
                                'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
                                'technique': x['tech'], 'level': 'model_checking', 'level_note': x['note'],
                                'evidence_file': 'evidence/%s.json' % i})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
