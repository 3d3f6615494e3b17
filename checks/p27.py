"""P27: searching for the files of a data set lists each file once, with the time and tags in its name."""
from vf.api import harness
from vf import symtext

NAMES = 'eumopps.catalogue.namepatterns'
STORAGE = 'eumopps.catalogue.storage'
DATASET = 'eumopps.catalogue.dataset'
SEARCH = 'eumopps.catalogue.search'
CAT = 'eumopps.catalogue.catalogue'
BUILD = 'eumopps.catalogue.build'

RE = {'re': symtext.RE}
STUB = ['the regular expressions that patterns are turned into are matched by a stand-in for the re module that backtracks in the same order']


def refused(r):
    if r.raised and not isinstance(r.error, ValueError):
        raise r.error
    return r.raised


def isdigits(S, text):
    return S.and_(*[S.and_(S.code(c) >= 48, S.code(c) <= 57) for c in text])


def value(S, text):
    v = 0
    for c in text:
        v = v * 10 + (S.code(c) - 48)
    return v


def same(S, a, b):
    return len(a) == len(b) and S.and_(*([S.code(x) == S.code(y) for x, y in zip(a, b)] or [True]))


def days(S, y, m):
    leap = S.and_(y % 4 == 0, S.or_(y % 100 != 0, y % 400 == 0))
    return S.ite(m == 2, S.ite(leap, 29, 28), S.ite(S.or_(m == 4, m == 6, m == 9, m == 11), 30, 31))


def listed(S, subset):
    return [e.name for e in subset.matches]


def one_of(S, what, where, label):
    """Where what is listed; it is listed once."""
    at = [k for k, x in enumerate(where) if x is what or len(x) == len(what) and bool(same(S, x, what))]
    S.check(len(at) == 1, label)
    return at[0] if len(at) == 1 else None


# directory and file part, each a list of literals and fields (field letter, width)
SHAPES = {
    'nested': (['%Y/%m/', 'f_%Y%m%d.nc'], [('Y', 4), '/', ('m', 2), '/f_', ('Y', 4), ('m', 2), ('d', 2), '.nc']),
    'times': (['t%H%M%S_%Y%m%d'], ['t', ('H', 2), ('M', 2), ('S', 2), '_', ('Y', 4), ('m', 2), ('d', 2)]),
    'month': (['%m-%Y.bin'], [('m', 2), '-', ('Y', 4), '.bin']),
    'year': (['d/', 'y%Y'], ['d/y', ('Y', 4)]),
}


@harness(params=sorted(SHAPES), dates=True, overrides=RE, assumptions=STUB, max_paths=4000,
         bounds='patterns with year, month and day in directory and name, with times of day, with the month or the year only; a file of that shape whose date characters are any of 0-9, x and -, besides a file of another shape')
def dates(S, shape):
    """A file is matched if its date characters are digits and agree wherever a field is repeated; it is then listed once with that time, or as an error if there is no such day; a file that does not match is in neither list."""
    m, st, ds = S.module(NAMES), S.module(STORAGE), S.module(DATASET)
    patterns, parts = SHAPES[shape]
    name, fields = S.name_text(''), {}
    for k, p in enumerate(parts):
        if isinstance(p, str):
            name = name + p
        else:
            t = S.chars('%s%d' % (p[0], k), p[1], '0123456789x-')
            fields.setdefault(p[0], []).append(t)
            name = name + t
    other = 'zz/readme.txt'
    first = S.fork_bool('first')
    files = [m.NameCandidate(name), m.NameCandidate(other)]
    subset = ds.CatalogueDataSubset(layout=st.DataStorageFiles(patterns))
    subset.search('/base', files if first else files[::-1])
    good = S.and_(*[isdigits(S, t) for ts in fields.values() for t in ts])
    good = S.and_(good, *[same(S, ts[0], t) for ts in fields.values() for t in ts[1:]])
    S.check(not files[1].is_matched(), 'a file of another shape is not matched')
    matched = bool(files[0].is_matched())
    S.check(good if matched else S.not_(good), 'matched if and only if the name fits the pattern')
    S.check(len(subset.matches) + len(subset.value_errors) == int(matched), 'listed once if matched, else not')
    S.check(len(subset.archive_unused) == 0, 'no files in archives')
    if not matched:
        return
    v = {f: value(S, ts[0]) for f, ts in fields.items()}
    y, mo, d = v['Y'], v.get('m', 1), v.get('d', 1)
    H, M, s = v.get('H', 0), v.get('M', 0), v.get('S', 0)
    valid = S.and_(y >= 1, mo >= 1, mo <= 12, d >= 1, d <= days(S, y, mo), H <= 23, M <= 59, s <= 59)
    if subset.matches:
        e = subset.matches[0]
        S.check(valid, 'only existing days are listed')
        S.check(same(S, e.name, name), 'the name of the file')
        S.eq([e.time.year, e.time.month, e.time.day, e.time.hour, e.time.minute, e.time.second], [y, mo, d, H, M, s], 'the time in the name')
        S.check(list(e.tags) == [] and e.checksum is None and e.size is None, 'nothing else is known of it')
    else:
        S.check(S.not_(valid), 'only what is no date is an error')
        S.check(same(S, subset.value_errors[0], name), 'the name of the file in error')


@harness(overrides=RE, assumptions=STUB, params=['12_21', '21_22', '11_12', '22_22', '12_12'], max_paths=4000,
         bounds='two files below directories of two tags of 1 or 2 letters each, any letters of A, B, C, b; a third tag and the tag in lower case in the name of the file')
def tags(S, lengths):
    """Every file is listed with the tags of its own path, the second use of a tag has the same letters and the lower case form is that of its own tag."""
    m, st, ds = S.module(NAMES), S.module(STORAGE), S.module(DATASET)
    names, own, low = [], [], []
    for k, (a, b) in enumerate([int(c) for c in x] for x in lengths.split('_')):
        A, B = S.chars('A%d' % k, a, 'ABCb'), S.chars('B%d' % k, b, 'ABCb')
        C, L = S.chars('C%d' % k, 1, 'ABCb'), S.chars('L%d' % k, a, 'abc')
        names.append(S.name_text('p/') + A + '_' + B + '/' + L + '-' + C + '-' + B + '.x')
        own.append([A, B, C])
        low.append(L)
    files = [m.NameCandidate(n) for n in names]
    S.assume(S.not_(same(S, names[0], names[1])))
    subset = ds.CatalogueDataSubset(layout=st.DataStorageFiles(['p/%A_%B/', '%a-%C-%B.x']))
    subset.search('/base', files)
    down = lambda t: [S.ite(S.and_(S.code(c) >= 65, S.code(c) <= 90), S.code(c) + 32, S.code(c)) for c in t]
    found = listed(S, subset)
    S.check(len(subset.value_errors) == 0, 'no errors')
    S.check(len(found) == sum(bool(f.is_matched()) for f in files), 'as many entries as files matched')
    for k in (0, 1):
        fits = S.and_(*[S.code(x) == y for x, y in zip(low[k], down(own[k][0]))])
        matched = bool(files[k].is_matched())
        S.check(fits if matched else S.not_(fits), 'matched if and only if the name fits the pattern')
        if not matched:
            continue
        at = one_of(S, names[k], found, 'a matching file is listed once')
        e = subset.matches[at]
        S.check(e.time is None, 'no time without a date')
        S.check(len(e.tags) == 3, 'three tags')
        S.check(S.and_(*[same(S, x, y) for x, y in zip(e.tags, own[k])]), 'the tags of its own path')


@harness(overrides=RE, assumptions=STUB, bounds='pattern "a?.b" and any name of 4 characters of a, b, dot, or 3 characters')
def literal(S):
    """Dots stand for themselves and question marks for any one character."""
    m, st, ds = S.module(NAMES), S.module(STORAGE), S.module(DATASET)
    n = S.choice('n', [3, 4])
    name = S.chars('c', n, 'ab.')
    files = [m.NameCandidate(name)]
    subset = ds.CatalogueDataSubset(layout=st.DataStorageFiles(['a?.b']))
    subset.search('', files)
    fits = n == 4 and S.and_(S.code(name[0]) == 97, S.code(name[2]) == 46, S.code(name[3]) == 98)
    matched = bool(files[0].is_matched())
    S.check(fits if matched else S.not_(fits), 'matched if and only if the name fits the pattern')
    S.check(len(subset.matches) == int(matched), 'listed if matched')


@harness(overrides=RE, assumptions=STUB, bounds='any two of 6 texts with characters that mean something in regular expressions, as tag of the directory and in the name of the file')
def special(S):
    """A tag used again in the name of the file stands for its own characters, whatever these are."""
    m, st, ds = S.module(NAMES), S.module(STORAGE), S.module(DATASET)
    texts = ['a.b', 'axb', 'a+b', 'aab', 'a(b', 'b']
    one, two = S.choice('one', texts), S.choice('two', texts)
    files = [m.NameCandidate('p/%s/f_%s_2000.x' % (one, two))]
    subset = ds.CatalogueDataSubset(layout=st.DataStorageFiles(['p/%A/', 'f_%A_%Y.x']))
    subset.search('', files)
    S.check(bool(files[0].is_matched()) == (one == two), 'matched if and only if the name fits the pattern')
    S.check([list(e.tags) for e in subset.matches] == [[one]] * int(one == two), 'the tag of the directory')


@harness(bounds='lists of none, 1, 2 and 3 patterns')
def pattern_count(S):
    """Only one pattern or two nested ones are searched for: anything else is refused."""
    m = S.module(NAMES)
    n = S.choice('n', [0, 1, 2, 3])
    r = S.attempt(m.nested_search_patterns, ['a/', 'b', 'c'][:n], [m.NameCandidate('a/bc')])
    S.check(refused(r) == (n in (0, 3)), 'refused')


@harness(overrides=RE, dates=True, assumptions=STUB + ['the contents of an archive are given by a stand-in for get_archive_internals'], params=['DataStorageTar', 'DataStorageTarGZip'],
         bounds='two archives of which each may fit the pattern or not; in each one file of any 4 characters of digits and x as a year, and one other; dates of the inner files')
def archives(S, which):
    """The files in archives are listed as those of their own archive; what does not fit is listed as unused, as text."""
    m, st, ds = S.module(NAMES), S.module(STORAGE), S.module(DATASET)
    years = {n: S.chars('y' + n, 4, '0129x') for n in ('one', 'two')}
    layout = getattr(st, which)('%A.tar', '%Y.dat')
    asked = []

    def internals(path):
        asked.append(path)
        n = 'one' if 'one' in path else 'two'
        return [S.name_text('') + years[n] + '.dat', 'junk' + n]
    layout.get_archive_internals = internals
    use = {n: S.fork_bool(n) for n in ('one', 'two')}
    files = [m.NameCandidate(n + ('.tar' if use[n] else '.zip')) for n in ('one', 'two')]
    subset = ds.CatalogueDataSubset(layout=layout)
    if S.fork_bool('searched before'):
        subset.search('/base', files)
        del asked[:]
        files = [m.NameCandidate(f.get_name()) for f in files]
    subset.search('/base', files)
    S.check(sorted(asked) == sorted('/base/%s.tar' % n for n in use if use[n]), 'exactly the archives that fit are opened, below the path of the data set')
    S.check([bool(f.is_matched()) for f in files] == [use['one'], use['two']], 'archives that fit are matched')
    unused = list(subset.archive_unused)
    S.check(all(isinstance(u, str) for u in unused), 'unused files are texts')
    expected, left, wrong = [], [], []
    for n in ('one', 'two'):
        if not use[n]:
            continue
        inner = S.name_text(n + '.tar:') + years[n] + '.dat'
        left.append(n + '.tar:junk' + n)
        if not bool(isdigits(S, years[n])):
            left.append(inner)
        elif bool(value(S, years[n]) >= 1):
            expected.append((inner, value(S, years[n])))
        else:
            wrong.append(inner)
    S.check(len(subset.matches) == len(expected), 'number of files listed')
    S.check(len(subset.value_errors) == len(wrong), 'number of files without a date')
    S.check(len(unused) == len(left), 'number of files unused')
    for inner, y in expected:
        e = subset.matches[one_of(S, inner, listed(S, subset), 'listed once with the name of the archive')]
        S.eq([e.time.year, e.time.month, e.time.day], [y, 1, 1], 'the time in the name of the inner file')
    for t in left:
        one_of(S, t, unused, 'unused files are listed once with the name of the archive')


@harness(overrides=RE, dates=True, assumptions=STUB, bounds='any selection of 5 files in nested directories, 2 subsets with different patterns, searched once or twice')
def whole_search(S):
    """Every file below the path of a data set is listed once in each subset it fits, and as not matching if it fits none."""
    m, st, ds, se = S.module(NAMES), S.module(STORAGE), S.module(DATASET), S.module(SEARCH)
    tree = {'a/2000.nc': 0, 'a/b/1999.nc': 1, '2001.nc': None, 'a/b/x2001.nc': None, 'a/2002.nc': 0}
    here = {n: S.fork_bool('has ' + n) for n in tree}

    def walk(base):
        for d, subs in (('', ['a']), ('a', ['b']), ('a/b', [])):
            yield ('/base/' + d).rstrip('/'), subs, [n[len(d) and len(d) + 1:] for n in sorted(tree) if here[n] and '/'.join(n.split('/')[:-1]) == d]
    keep = se.os.walk
    se.os.walk = walk
    try:
        data = ds.CatalogueDataSet('name', '/base', subsets=[ds.CatalogueDataSubset(st.DataStorageFiles(['a/', '%Y.nc'])), ds.CatalogueDataSubset(st.DataStorageFiles(['a/b/%Y.nc']))])
        data.search()
        if S.fork_bool('twice'):
            data.search()
    finally:
        se.os.walk = keep
    for k in (0, 1):
        S.check(sorted(listed(S, data.subset(k))) == sorted(n for n in tree if here[n] and tree[n] == k), 'files of the subset')
        S.check(all(e.time.year == int(e.name[-7:-3]) for e in data.subset(k).matches), 'their times')
    S.check(sorted(data.non_matching) == sorted(n for n in tree if here[n] and tree[n] is None), 'files that fit no subset')
    S.check(data.subset(2) is None and data.subset(-1) is None, 'no other subsets')


@harness(overrides=RE, assumptions=STUB, bounds='a directory of any one letter, a tag of 0 to 3 letters at the end of the name or before its extension, any letters of a, b')
def last_tag(S):
    """A tag is all the characters in its place, also at the end of a name."""
    m, st, ds = S.module(NAMES), S.module(STORAGE), S.module(DATASET)
    one, tag = S.chars('d', 1, 'ab'), S.chars('t', S.choice('n', [0, 1, 3]), 'ab')
    end, nested = S.choice('end', ['', '.x']), S.fork_bool('nested')
    name = S.name_text('p/') + one + '/f' + tag + end
    subset = ds.CatalogueDataSubset(layout=st.DataStorageFiles(['p/?/', 'f%A' + end] if nested else ['p/?/f%A' + end]))
    subset.search('', [m.NameCandidate(name)])
    S.check(len(subset.matches) == 1, 'listed once')
    S.check(len(subset.matches[0].tags) == 1, 'one tag')
    S.check(same(S, subset.matches[0].tags[0], tag), 'all of the tag')


@harness(bounds='0 to 7 files in each of 2 subsets, any one of which may fail; checksums and sizes any numbers',
         assumptions=['the checksum of a file is given by a stand-in for the cksum program', 'threads are run one after the other: they share no data but the list of entries, each with its own range'])
def checksums(S):
    """Every file gets the checksum and size of its own path, whatever fails for another."""
    ds = S.module(DATASET)
    n, ds.CHECKSUM_NUM_THREADS = S.choice('n', [0, 1, 2, 5, 7]), S.choice('threads', [64, 2, 3])
    bad = S.choice('bad', [-1, 0, 2])
    sizes = {}

    class Sum(object):
        def __init__(self, path):
            if path not in sizes:
                sizes[path] = S.int('size ' + path, 0, 2**40)
            if path == '/base/d0/f0_%d' % bad:
                raise ValueError('no such file')
            self.checksum, self.size = 'sum of ' + path, sizes[path]

    def start(self):
        self.run()
    entries = [[ds.CatalogueFileEntry('d%d/f%d_%d' % (k % 2, s, k)) for k in range(n)] for s in (0, 1)]
    data = ds.CatalogueDataSet('name', '/base', subsets=[ds.CatalogueDataSubset(matches=e) for e in entries])
    keep = ds.Checksum, ds.ChecksumThread.start
    ds.Checksum, ds.ChecksumThread.start = Sum, start
    try:
        data.checksum()
    finally:
        ds.Checksum, ds.ChecksumThread.start = keep
    for s in (0, 1):
        for e in entries[s]:
            path = '/base/' + e.name
            if s == 0 and e.name == 'd0/f0_%d' % bad:
                S.check(e.checksum is None and e.size is None, 'a file that cannot be read has no checksum')
            else:
                S.check(e.checksum == 'sum of ' + path and e.size is not None, 'the checksum of its own path')
                S.eq(e.size, sizes[path], 'the size of its own path')


@harness(bounds='a description of 3 data sets, restricted to any one, to an unknown one or not; added to an existing catalogue of one data set or not; with checksums or without')
def build(S):
    """Building a catalogue searches exactly the data sets asked for, keeps what an updated catalogue had, resolves the new operations against the whole and gives it a new identity."""
    b, cat = S.module(BUILD), S.module(CAT)
    wanted = S.choice('filter', [None, 'one', 'two', 'three', 'four'])
    update, nosum = S.fork_bool('update'), S.fork_bool('nochecksum')
    done = []

    class Set(object):
        def __init__(self, name):
            self.name, self.toolchain = name, None

        def search(self):
            done.append(('search', self.name))

        def checksum(self):
            done.append(('checksum', self.name))

    class Op(object):
        name, runmodule = 'op', None

        def __init__(self, k):
            self.k = k

        def resolve_operation_references(self, catalogue, pathdefault):
            done.append(('resolve', self.k, [d.name for d in catalogue.datasets], pathdefault, catalogue))
    ops = [Op(0), Op(1)]
    given = cat.Catalogue(datasets=[Set(n) for n in ('one', 'two', 'three')], operations=list(ops), identifier='given')
    old = cat.Catalogue(datasets=[Set('old')], operations=[Op('old')], identifier='old')
    saved = []

    class Reader(object):
        def load(self, path):
            done.append(('load', path))
            return old

    class Writer(object):
        def save(self, path, catalogue):
            saved.append((path, catalogue))
    keep = b.CatalogueReaderNetCDF, b.CatalogueWriterNetCDF, b.toolchain.versionlist
    b.CatalogueReaderNetCDF, b.CatalogueWriterNetCDF, b.toolchain.versionlist = Reader, Writer, lambda: ['v1']
    try:
        r = S.attempt(b.build, given, '/c.nc', update, wanted, '/default', nosum)
    finally:
        b.CatalogueReaderNetCDF, b.CatalogueWriterNetCDF, b.toolchain.versionlist = keep
    S.check(refused(r) == (wanted == 'four'), 'an unknown data set is refused')
    if r.raised:
        S.check(saved == [], 'nothing is saved when refused')
        return
    names = ['one', 'two', 'three'] if wanted is None else [wanted]
    S.check([x[1] for x in done if x[0] == 'search'] == names, 'the data sets asked for are searched once each')
    S.check([x[1] for x in done if x[0] == 'checksum'] == ([] if nosum else names), 'checksums if asked for')
    S.check(len(saved) == 1 and saved[0][0] == '/c.nc', 'saved once')
    c = saved[0][1]
    S.check([d.name for d in c.datasets] == (['old'] if update else []) + names, 'the data sets of the catalogue')
    S.check([o.k for o in c.operations] == (['old'] if update else []) + [0, 1], 'the operations of the catalogue')
    S.check(all(d.toolchain == ['v1'] for d in c.datasets if d.name != 'old'), 'the versions used')
    resolved = [x for x in done if x[0] == 'resolve']
    S.check([x[1] for x in resolved] == [0, 1], 'the new operations are resolved once each')
    S.check(all(x[4] is c and x[3] == '/default' for x in resolved), 'against the catalogue saved, with the default path')
    S.check(c.identifier not in ('given', 'old') and c.identifier, 'a new identity')
