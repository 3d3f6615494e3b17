"""Writes DESIGN.md from design_notes.py, the property list and the harnesses (python3 tools/design.py)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props
import design_notes as N
from vf import api


def harnesses(pid):
    del api.REGISTRY[:]
    importlib.import_module('checks.' + pid.lower())
    seen, out = set(), []
    for h in api.REGISTRY:
        if h.fn.__name__ in seen:
            continue
        seen.add(h.fn.__name__)
        n = sum(1 for g in api.REGISTRY if g.fn.__name__ == h.fn.__name__)
        out.append('* `%s`%s: %s\n  Bounds: %s.' % (h.fn.__name__, ' (%d instances)' % n if n > 1 else '', h.doc, h.bounds.rstrip('.')) + (' Thorough tier only.' if h.tier != 'quick' else ''))
    assumed = []
    for h in api.REGISTRY:
        for a in h.assumptions:
            if a not in assumed:
                assumed.append(a)
    return out, assumed


def main():
    t = [N.INTRO.strip(), '', '## Properties', '']
    for p in props.P:
        t.append('### %s %s' % (p['id'], p['title']))
        if not p['claimed']:
            t += ['Not applicable: ' + p['reason'], '']
            continue
        h, assumed = harnesses(p['id'])
        t += [N.NOTES[p['id']].strip(), ''] + h
        if assumed:
            t.append('\nAssumed: ' + '; '.join(assumed) + '.')
        t.append('')
    t.append(N.REST.strip())
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(t) + '\n')


if __name__ == '__main__':
    main()
