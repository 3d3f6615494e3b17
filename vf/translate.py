"""Python 3 text of /repo's Python 2 and Cython sources, regenerated from the working tree.

The rules for .py files are those of the sandbox's own build (/opt/vp/py3/translate.py is imported, not copied)."""

import hashlib
import importlib.util
import os
import re
import sys

REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
TOOL_PATH = '/opt/vp/py3/translate.py'
CACHE = os.environ.get('VF_CACHE', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.cache'))

_tool = None


def tool():
    global _tool
    if _tool is None:
        old = sys.argv
        sys.argv = ['translate', REPO, '/nonexistent']
        try:
            spec = importlib.util.spec_from_file_location('vf_build_translate', TOOL_PATH)
            _tool = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(_tool)
        finally:
            sys.argv = old
    return _tool


def _key(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def _cached(key, make):
    path = os.path.join(CACHE, key[:2], key)
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        pass
    text = make()
    try:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = '%s.%d' % (path, os.getpid())
        with open(tmp, 'w') as f:
            f.write(text)
        os.replace(tmp, path)
    except OSError:
        pass
    return text


def _beside(path):
    d = os.path.dirname(path)
    return repr(sorted(n for n in os.listdir(d) if n.endswith(('.py', '.pyx', '.c')) or os.path.exists(os.path.join(d, n, '__init__.py'))))


def python_text(path):
    with open(path, 'rb') as f:
        data = f.read()
    with open(TOOL_PATH, 'rb') as f:
        rules = f.read()
    return _cached(_key('py', rules, path, _beside(path), data),
                   lambda: tool().translate_python(data.decode('utf-8').replace('\r\n', '\n'), path))


# -- Cython ----------------------------------------------------------------------------------------------------------
CTYPES = r'(?:unsigned\s+|long\s+|const\s+)*[A-Za-z_][\w.]*(?:\s*\[[^\]]*\])?(?:\s*\*)?'


def _strip_args(args):
    out = []
    depth, cur = 0, ''
    for ch in args:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    res = []
    for a in out:
        m = re.match(r'^(\s*)' + CTYPES + r'\s+([A-Za-z_]\w*\s*(?:=.*)?)$', a, re.S)
        m2 = re.match(r'^(\s*)' + CTYPES + r'(?<=\])\s*([A-Za-z_]\w*\s*(?:=.*)?)$', a, re.S)
        m = m or m2
        res.append(m[1] + m[2] if m else a)
    return ','.join(res)


def _split_top(text):
    out, depth, cur = [], 0, ''
    for ch in text:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def strip_cython(text):
    """The Python a .pyx file denotes, C types dropped (values are modelled mathematically)."""
    text = re.sub(r'(?m)^[ \t]+', lambda m: m.group().expandtabs(8), text)
    # def/cpdef/cdef functions: types of the arguments
    out, i = [], 0
    pat = re.compile(r'(?m)^(\s*)(?:c?p?def)\s+(?:inline\s+)?(?:' + CTYPES + r'\s+)??([A-Za-z_]\w*)\s*\(')
    while True:
        m = pat.search(text, i)
        if not m:
            out.append(text[i:])
            break
        out.append(text[i:m.start()])
        depth, k = 1, m.end()
        while depth:
            depth += {'(': 1, ')': -1}.get(text[k], 0)
            k += 1
        rest = re.match(r'[^:\n]*:', text[k:])
        out.append('%sdef %s(%s)' % (m[1], m[2], _strip_args(text[m.end():k - 1])))
        out.append(':')
        i = k + (rest.end() if rest else 0)
    text = ''.join(out)
    lines = []
    for line in text.split('\n'):
        ind = re.match(r'\s*', line).group()
        s = line.strip()
        if re.match(r'(from\s+[\w.]+\s+)?cimport\b', s) or s.startswith(('ctypedef ', '@cython.')) or s == 'import cython':
            lines.append(ind + 'pass' if not s.startswith('@') else '')
            continue
        if s.startswith('with nogil') or s.startswith('with cython'):
            lines.append(ind + 'if True:')
            continue
        m = re.match(r'cdef\s+(.*)$', s)
        if m:
            body = m[1].split('#')[0].strip()
            m2 = re.match(CTYPES + r'\s+(.*)$', body) or re.match(CTYPES + r'(?<=\])\s*(.*)$', body)
            decls = m2[1] if m2 else ''
            assigns = [d.strip() for d in _split_top(decls) if re.search(r'(?<![=!<>])=(?!=)', d)]
            lines.append(ind + ('; '.join(assigns) if assigns else 'pass'))
            continue
        lines.append(line)
    text = '\n'.join(lines)
    # casts such as <double> x
    return re.sub(r'<\s*(?:int|double|float|long|[\w.]+_t|\w*type|c[ID]TYPE)\s*>\s*', '', text)


def cython_text(path):
    with open(path, 'rb') as f:
        data = f.read()

    def make():
        text = tool().siblings_relative(data.decode('utf-8').replace('\r\n', '\n'), path)
        text = strip_cython(text)
        text = tool().renamed(tool().old_division(text))
        compile(text, path, 'exec', dont_inherit=True)
        return text
    with open(os.path.abspath(__file__), 'rb') as f:
        me = f.read()
    return _cached(_key('pyx', me, path, _beside(path), data), make)
