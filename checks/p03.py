"""P03: work split into batches, months or threads covers every item exactly once."""
from vf.api import harness

RUN = 'eumopps.catalogue.commandrun'
MULTI = 'eumopps.catalogue.multiplecommandsrun'
FORMAT = 'eumopps.catalogue.fileio.formatnetcdf'
BATCHES = 'eumopps.catalogue.jinja.batches'
CYLC = 'eumopps.catalogue.jinja.eumopps_cylc'
COUNT = 'eustace.postprocess.operation_count'
DATASET = 'eumopps.catalogue.dataset'

STUBS = ('the catalogue file is replaced by a stand-in holding the operation count', )


class Recorder(object):
    """Stands in for an operation loaded from a catalogue: records what it is asked to resolve and run."""

    def __init__(self, count, toolchain=('a', ), runtime=('a', )):
        self.count, self.match = count, toolchain == runtime
        self.toolchain, self.runtime = list(toolchain), list(runtime)
        self.resolved, self.ran = [], []

    def current_runtime_toolchain(self):
        return self.runtime

    def resolve_single_operation(self, cataloguepathname, operationindex, timestamp):
        if operationindex >= self.count:
            raise IndexError('list index out of range')
        self.resolved.append(operationindex)

    def run(self):
        self.ran.append(self.resolved[-1])
        return self.resolved[-1]


def with_operation(S, op):
    cls = S.module(FORMAT).CatalogueReaderNetCDF
    cls.load_identifier = lambda self, pathname: 'identifier'
    cls.load_operation = lambda self, pathname, modulename: op
    return S.module(RUN).commandrun


class CountGroup(object):
    def __init__(self, n):
        self.n = n

    def getncattr(self, key):
        return {'count': self.n}[key]


class CountFile(object):
    def close(self):
        pass


def with_count(S, n):
    m = S.module(FORMAT)
    m.netcdfobjects.nc_open_for_load = lambda pathname: CountFile()
    m.CatalogueReaderNetCDF.findoperation = lambda self, ncfile, modulename: CountGroup(n)
    return m.CatalogueReaderNetCDF()


SIZES = list(range(1, 33)) + [50, 100, 365, 366, 1000]


@harness(bounds='operation counts 0..100000, batch sizes 1..32, 50, 100, 365, 366 and 1000', assumptions=STUBS)
def batches_cover(S):
    """Every operation lies in exactly one batch below the batch count, and every batch holds at least one operation."""
    size = S.choice('size', SIZES)
    n = S.int('n', 0, 100000)
    total = with_count(S, n).operationcount('c.nc', 'm', size)
    S.check(S.and_(total * size >= n, (total - 1) * size < n), 'batches are just enough to hold all operations')
    op = Recorder(n)
    run = with_operation(S, op)
    k = S.int('k', 0, 100000)
    b, i = S.int('b', 0, 100000), S.int('i', 0, 1000)
    S.assume(S.and_(k < n, i < size, b * size + i == k))
    S.check(b < total, 'the batch of an operation is below the batch count')
    S.eq(run('t', 'c.nc', 'm', i, size, b), k, 'the task of a batch runs the operation at its position')
    S.eq(len(op.ran), 1, 'one operation is run')


@harness(bounds='operation counts 1..100000, batch sizes 1..32, 50, 100, 365, 366 and 1000; any two tasks', assumptions=STUBS)
def batches_disjoint(S):
    """Two different tasks of a batched run never run the same operation."""
    size = S.choice('size', SIZES)
    op = Recorder(S.int('n', 1, 100000))
    run = with_operation(S, op)
    b1, i1, b2, i2 = S.int('b1', 0, 100000), S.int('i1', 0, 999), S.int('b2', 0, 100000), S.int('i2', 0, 999)
    S.assume(S.and_(i1 < size, i2 < size, S.or_(b1 != b2, i1 != i2)))
    r1, r2 = S.attempt(run, 't', 'c.nc', 'm', i1, size, b1), S.attempt(run, 't', 'c.nc', 'm', i2, size, b2)
    if not r1.raised and not r2.raised:
        S.check(r1.value != r2.value, 'different tasks run different operations')


@harness(bounds='operation counts 0..100000, indices up to 200000, with and without batches of 1..32, 50, 100, 365, 366 and 1000', assumptions=STUBS)
def beyond_the_end(S):
    """A task beyond the last operation runs nothing."""
    n = S.int('n', 0, 100000)
    op = Recorder(n)
    run = with_operation(S, op)
    if S.fork_bool('batched'):
        size = S.choice('size', SIZES)
        b, i = S.int('b', 0, 200000), S.int('i', 0, 999)
        S.assume(S.and_(i < size, b * size + i >= n))
        S.attempt(run, 't', 'c.nc', 'm', i, size, b)
    else:
        i = S.int('i', 0, 200000)
        S.assume(i >= n)
        S.check(S.attempt(run, 't', 'c.nc', 'm', i).raised, 'an index beyond the last operation is an error')
    S.eq(len(op.ran), 0, 'nothing is run')


@harness(bounds='operation counts 1..1000, every index; listing and permission in all combinations, toolchains of up to two versions', assumptions=STUBS)
def toolchain_gate(S):
    """An operation runs only when not merely listed and when the toolchain matches or a mismatch is explicitly allowed."""
    chains = [(), ('a', ), ('a', 'b'), ('b', 'a'), ('a', 'a')]
    op = Recorder(S.int('n', 1, 1000), S.choice('catalogue', chains), S.choice('runtime', chains))
    jo = S.module('eumopps.jsonobjects.jsonobjects')
    op.runmodule = {'a': 1}
    run = with_operation(S, op)
    i = S.int('i', 0, 999)
    S.assume(i < op.count)
    justlist, allow = S.fork_bool('justlist'), S.fork_bool('allow')
    r = S.attempt(run, 't', 'c.nc', 'm', i, None, None, justlist, allow)
    may = (not justlist) and (op.match or allow)
    S.eq(len(op.ran), 1 if may else 0, 'runs exactly when it may')
    if may:
        S.eq(r.value, i, 'runs the requested operation')
    if not justlist and not may:
        S.check(r.raised, 'a mismatch is an error')


@harness(bounds='batch given without a batch size, and batch size without a batch', assumptions=STUBS)
def batch_arguments(S):
    """A batch number without a batch size, or the reverse, is refused."""
    op = Recorder(10)
    run = with_operation(S, op)
    i = S.int('i', 0, 9)
    if S.fork_bool('which'):
        S.raises(ValueError, lambda: run('t', 'c.nc', 'm', i, None, S.int('b', 1, 9)), 'batch without batch size')
    else:
        S.raises(ValueError, lambda: run('t', 'c.nc', 'm', i, S.int('s', 1, 9), None), 'batch size without batch')
    S.eq(len(op.ran), 0, 'nothing is run')


@harness(bounds='batches of 1..6 operations, any batch number up to 1000', assumptions=STUBS)
def outer_operation(S):
    """The outer operation receives the results of all operations of its batch, each once and in order."""
    size = S.choice('size', [1, 2, 3, 4, 5, 6])
    b = S.int('b', 0, 1000)
    op = Recorder(100000)
    with_operation(S, op)
    multi = S.module(MULTI)
    got = []
    import sys
    import types
    sys.modules['vf_outer'] = types.ModuleType('vf_outer')
    sys.modules['vf_outer'].collect = got.append
    multi.multiple_commands_run('t', 'c.nc', 'vf_outer.collect', 'inner', size, b, False)
    S.eq(len(got), 1, 'the outer operation runs once')
    S.eq(len(got[0]), size, 'one result per operation of the batch')
    for j in range(size):
        S.eq(got[0][j], b * size + j, 'results in order')


@harness(bounds='two modules, counts 0..100000 each, batch sizes 1..8, 100', assumptions=STUBS)
def cycle_points(S):
    """The cycle points of a schedule are just enough for the batches of every module."""
    n = [S.int('n0', 1, 100000), S.int('n1', 1, 100000)]
    sizes = [S.choice('s0', [1, 2, 3, 7, 100]), S.choice('s1', [1, 4, 5, 8])]
    m = S.module(FORMAT)
    m.netcdfobjects.nc_open_for_load = lambda pathname: CountFile()
    m.CatalogueReaderNetCDF.findoperation = lambda self, ncfile, modulename: CountGroup(n[int(modulename[1])])
    specs = {'m0': {'catalogue': 'c.nc', 'batchsize': sizes[0]}, 'm1': {'catalogue': 'c.nc', 'batchsize': sizes[1]}}
    c = S.module(BATCHES).BatchSpecificationCollection(specs)
    need = S.max([(n[k] + sizes[k] - 1) // sizes[k] for k in (0, 1)])
    S.eq(c.cycle_points_required(), need, 'cycle points required')
    S.eq(c.final_cycle_point() - c.initial_cycle_point() + 1, need, 'first to last cycle point')
    S.eq(S.module(CYLC).eumopps_cylc(specs, 'cycle_points_required'), need, 'cycle points required by the suite')
    S.eq(c.modules['m0'].operation_count(), n[0], 'operations of a module')


@harness(bounds='0..40 files for 1, 2, 3, 5 and 8 threads, 0..150 files for 64 threads')
def threads_cover(S):
    """Checksums: the ranges given to threads cover all files, without overlap."""
    k = S.choice('threads', [1, 2, 3, 5, 8, 64])
    n = S.int('n', 0, 40 if k < 64 else 150)
    ranges = S.module(DATASET).CatalogueDataSubset.compute_checksum_thread_indices(n, k)
    hit = [j for a, b in ranges for j in range(a, b)]
    S.eq(len(hit), n, 'as many files as there are')
    for j, h in enumerate(hit):
        S.eq(h, j, 'every file in exactly one range')


@harness(dates=True, bounds='months 0..2400 from 1850-01, and months 0..1 from January, February, November and December of any year 1850..2030', params=['from1850', 'anymonth'])
def months_partition(S, which):
    """Monthly operations hold exactly the days of their month, and consecutive operations follow on without gap or overlap."""
    m = S.module(COUNT)
    y, mo = (1850, 1) if which == 'from1850' else (S.int('y', 1850, 2030), S.choice('m', [1, 2, 11, 12]))
    i = S.int('i', 0, 2400 if which == 'from1850' else 1)
    days = m.operation_dates(S.date_of(y, mo, 1), i)
    k = y * 12 + mo - 1 + i
    k1 = k + 1
    first, after = S.date_of(k // 12, k % 12 + 1, 1), S.date_of(k1 // 12, k1 % 12 + 1, 1)
    S.check(days[0] == first, 'starts at the start of the month')
    S.check(days[-1] + (days[1] - days[0]) == after, 'ends at the end of the month')
    one = days[1] - days[0]
    S.eq(one.total_seconds(), 86400.0, 'consecutive days')
    for a, b in zip(days, days[1:]):
        S.check(b - a == one, 'consecutive days')


@harness(dates=True, bounds='start and end years 1850..2100')
def months_count(S):
    """The number of monthly operations between two years is twelve a year, both years included."""
    m = S.module(COUNT)
    y0, y1 = S.int('y0', 1850, 2100), S.int('y1', 1850, 2100)
    S.assume(y0 <= y1)
    S.eq(m.operation_count(y0, y1), (y1 - y0 + 1) * 12, 'twelve operations a year')
