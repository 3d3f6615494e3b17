#!/usr/bin/env python3
"""Small changes made at random to the files a property is anchored in, to find what its check misses (a development aid).

python3 tools/mutate.py PXX COUNT [SEED]: works on copies under /tmp/mut; prints survivors."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ranges(text):
    """(qualified name, first, last) of functions, by indentation."""
    out, stack = [], []
    lines = text.split('\n')
    for n, l in enumerate(lines):
        s = l.expandtabs().rstrip()
        if not s.strip() or s.strip().startswith('#'):
            continue
        ind = len(s) - len(s.lstrip())
        while stack and ind <= stack[-1][0] and not s.strip().startswith(')'):
            i, name, start = stack.pop()
            out.append((name, start, n - 1))
        m = re.match(r'\s*(?:cpdef|cdef|def|class)\s+(\w+)', s)
        if m:
            name = '.'.join([x[1].split('.')[-1] for x in stack] + [m.group(1)])
            stack.append((ind, name, n))
    while stack:
        i, name, start = stack.pop()
        out.append((name, start, len(lines) - 1))
    return out


def code_lines(text):
    """Lines with code, documentation strings left out."""
    quoted, out = None, []
    for n, l in enumerate(text.split('\n')):
        s = l.strip()
        if quoted:
            if quoted in s:
                quoted = None
            continue
        m = re.match(r'[ru]?("""|\'\'\')', s)
        if m:
            if s.count(m.group(1)) == 1:
                quoted = m.group(1)
            continue
        if not s or s.startswith('#') or re.match(r'(import|from|print|raise|def|class|cdef|@|except|return NotImplemented|sys\.std|self\.log)', s):
            continue
        out.append(n)
    return out


OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
       (r'\+= ', '-= '), (r'-= ', '+= '), (r'\+=', '='), (r' and ', ' or '), (r' or ', ' and '), (r'\bnot ', ''), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\b0\b(?!\.)', '1'),
       (r'(?<![\w.])1\b(?!\.)', '2'), (r'(?<![\w.])(\d+)\b(?!\.)', None), (r'(?<![\w.])(\d+\.\d+)\b', None), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bany\b', 'all'), (r'\ball\b', 'any'), (r'\bsin\b', 'cos'),
       (r'is None', 'is not None'), (r'is not None', 'is None'), (r'axis=0', 'axis=1'), (r'axis=1', 'axis=0'), (r'\*\*2', '**3'), (r'\.T\b', ''), (r'\blatitude\b', 'longitude'), (r'\[:-1\]', '[:]'),
       (r'\[1:\]', '[:]'), (r' & ', ' | '), (r' \| ', ' & '), (r'\bsqrt\b', 'abs'), (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'), (r'\.append\(', '.count('), (r' % ', ' // '), (r'\babs\(', '('),
       (r'-(?=[a-z1-9])', ''), (r'\(a, b\)', '(b, a)')]


def mutants(path, text, wanted):
    lines = text.split('\n')
    rs = ranges(text)
    code = set(code_lines(text))
    out = []
    for n in sorted(code):
        inside = [(a, b, name) for name, a, b in rs if a < n <= b]
        if not inside:
            continue
        name = max(inside)[2]
        if wanted is not None and path + ':' + name not in wanted:
            continue
        l = lines[n]
        body = l.split('#')[0]
        for pat, to in OPS:
            for m in re.finditer(pat, body):
                before = body[:m.start()]
                if before.count("'") % 2 or before.count('"') % 2:
                    continue
                t = to if to is not None else (str(int(m.group(1)) + 1) if '.' not in m.group(1) else str(float(m.group(1)) * 1.5 + 0.25))
                out.append((n, l, body[:m.start()] + t + body[m.end():] + l[len(body):], name))
        s = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if (re.match(r'[\w.\[\], :]+ [-+*/|&]?= ', s) or re.match(r'[\w.]+\(.*\)$', s)) and s.count('(') == s.count(')') and s.count('[') == s.count(']') and not s.endswith('\\'):
            out.append((n, l, ind + 'pass', name))
        if re.match(r'if .*:$', s):
            out.append((n, l, ind + 'if True:', name))
            out.append((n, l, ind + 'if False:', name))
        a = re.search(r'\((\w+), (\w+)\)', body)
        if a and a.group(1) != a.group(2):
            out.append((n, l, body.replace(a.group(0), '(%s, %s)' % (a.group(2), a.group(1)), 1), name))
    return out


def main():
    pid, count = sys.argv[1], int(sys.argv[2])
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    props = {p['id']: p for p in map(json.loads, open(os.path.join(HERE, 'properties.jsonl')))}
    files = sorted(set(a.split(':')[0] for a in json.dumps(props[pid]).replace('"', ' ').replace(',', ' ').split() if a.startswith('src/')))
    only = os.environ.get('MUT_FILES')
    if only:
        files = [f for f in files if re.search(only, f)]
    base = '/tmp/mut/' + pid
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    verif, repo = base + '/verif', base + '/repo'
    shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns('.git', 'seeded', '.cache'))
    subprocess.check_call(['cp', '-a', '/repo', repo])
    env = dict(os.environ, VF_REPO=repo, VF_CACHE='/tmp/mut/cache', VF_FIRST='1')
    if not os.path.exists(os.path.join(HERE, 'evidence', pid + '.json')):
        sys.exit('run the check first')
    wanted = set(json.load(open(os.path.join(HERE, 'evidence', pid + '.json')))['coverage']['functions_encoded'])
    pool = []
    for f in files:
        p = os.path.join(repo, f)
        if not os.path.isfile(p) or not f.endswith(('.py', '.pyx')):
            continue
        text = open(p, newline='', encoding='latin-1').read()
        ms = mutants(f, text, wanted)
        pool.append([(f,) + m for m in ms])
    chosen = []
    for ms in pool:
        rnd.shuffle(ms)
    while len(chosen) < count and any(pool):
        # draw a file in proportion to the root of its mutants
        k = rnd.choices(range(len(pool)), [len(m)**0.5 for m in pool])[0]
        m = pool[k].pop()
        if sum(c[0] == m[0] and c[1] == m[1] for c in chosen) < 1:
            chosen.append(m)
    print(pid, sum(map(len, pool)) + len(chosen), 'mutants possible', len(chosen), 'run', flush=True)
    tally = {}
    for f, n, old, new, name in chosen:
        p = os.path.join(repo, f)
        text = open(p, newline='', encoding='latin-1').read()
        lines = text.split('\n')
        assert lines[n] == old
        lines[n] = new + ('\r' if old.endswith('\r') and not new.endswith('\r') else '')
        with open(p, 'w', newline='', encoding='latin-1') as o:
            o.write('\n'.join(lines))
        t = time.time()
        try:
            r = subprocess.run([sys.executable, verif + '/run.py', pid], env=env, capture_output=True, text=True, timeout=600)
            code = r.returncode
        except subprocess.TimeoutExpired:
            code, r = 'timeout', None
        with open(p, 'w', newline='', encoding='latin-1') as o:
            o.write(text)
        tally[code] = tally.get(code, 0) + 1
        if code != 1:
            inc = '' if r is None else ' '.join(re.findall(r'INCONCLUSIVE (\S+)', r.stdout))
            print('SURVIVED(%s) %s:%d %s\n    - %s\n    + %s\n    %s' % (code, f, n + 1, name, old.strip(), new.strip(), ('inconclusive: ' + inc[:200]) if inc else ''), flush=True)
    print(pid, tally, flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
