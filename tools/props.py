"""Writes properties.jsonl and MANIFEST.json from the list below (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the translated source, assertions decided by z3 (bounded), counterexamples replayed on the real code'
NOTE = ('The relevant functions of the working tree are executed symbolically on every run; z3 decides each assertion for all values within the bounds stated '
        'per harness in the evidence file. Floating-point numbers are modelled as exact reals; what lies outside the bounds is not covered. ')

P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, note='', claimed=True, reason=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files, mechanism=mechanism, note=note,
                  claimed=claimed, reason=reason, observe=observe))


exec(open(os.path.join(HERE, 'tools', 'properties_list.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quantifier']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                     'technique': TECH, 'level': 'other', 'level_note': NOTE + p['note']} for p in P if p['claimed']],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claimed']]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
