"""Runs the harnesses of one property: symbolic exploration, replay on the real code, evidence, verdict."""

import fractions
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEM_LIMIT = 6 << 30


# -- in a child process ------------------------------------------------------------------------------------------------
def _quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get('VF_DEBUG'):
        os.dup2(fd, 2)


def _jsonable(v):
    if isinstance(v, fractions.Fraction):
        return {'num': str(v.numerator), 'den': str(v.denominator), 'value': float(v)}
    return v


def _from_json(v):
    if isinstance(v, dict):
        return fractions.Fraction(int(v['num']), int(v['den']))
    return v


def _where(e):
    """The innermost frame of the code under test."""
    from . import translate
    best = None
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(translate.SRC):
            best = '%s:%s in %s' % (os.path.relpath(f.filename, translate.REPO), f.lineno, f.name)
    return best


def _not_there(e):
    """Whether an exception says that something the harness refers to is not there (renamed, moved), which decides nothing."""
    if isinstance(e, ImportError):
        return True
    if 'NoneType' in str(e):        # nothing where a value was due
        return False
    tb = traceback.extract_tb(e.__traceback__)
    return isinstance(e, (AttributeError, TypeError, NameError)) and bool(tb) and tb[-1].filename.startswith(os.path.join(VERIF, 'checks'))


def explore(h, budget_s, seed):
    """All feasible paths of a harness. Returns a result dictionary."""
    from . import core, api, loader, translate
    from .core import z3
    z3.set_param('smt.random_seed', seed)
    over = h.overrides() if callable(h.overrides) else h.overrides
    loader.install('symbolic', dates=h.dates, overrides=over)
    stats = core.Stats()
    res = {'name': h.name, 'verdict': None, 'violations': [], 'inconclusive': [], 'witnesses': [], 'functions': [], 'assumptions': list(h.assumptions),
           'labels': {}, 'covers': {}}
    deadline = time.time() + budget_s
    work = [[]]
    executed = set()

    def profile(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(translate.SRC):
            executed.add((frame.f_code.co_filename, frame.f_code.co_qualname))

    assumptions = set()

    def values(S, m):
        return {k: core.model_value(m, s) for k, s in S.inputs.items()}

    def on_failure(S, label, m, extra, stronger):
        """Look for a model that is robust on floats, then record it."""
        c = S.ctx
        models = [m]
        base = z3.Solver()
        base.set('timeout', 5000)
        base.add(*c.pc)
        base.add(*extra)
        nice = []
        for k, s in S.inputs.items():
            if isinstance(s, core.SymReal):
                i = z3.Int('nice!' + k)
                nice.append(s.e * 64 == z3.ToReal(i))
        for strong in list(stronger) + [None]:
            for grid in ([True, False] if nice else [False]):
                base.push()
                if strong is not None:
                    base.add(strong)
                if grid:
                    base.add(*nice)
                r = base.check()
                if r == z3.sat:
                    models.insert(0 if grid and strong is not None else len(models) - 1, base.model())
                base.pop()
                if r == z3.sat and grid:
                    break
            if len(models) > 4:
                break
        res['violations'].append({'label': label, 'inputs': [{k: _jsonable(v) for k, v in values(S, x).items()} for x in models[:5]]})

    first = True
    npaths = 0
    t0 = time.time()
    while work:
        if len(res['violations']) >= 6:
            break
        if npaths >= h.max_paths:
            res['inconclusive'].append('path budget of %d used up' % h.max_paths)
            break
        prefix = work.pop()
        c = core.Ctx(prefix, stats, h.timeout_ms, h.final_timeout_ms, deadline)
        core.CTX = c
        S = api.SymS(c, h.tol)
        S.on_failure = on_failure
        npaths += 1
        done = False
        try:
            if npaths <= 40:
                sys.setprofile(profile)
            try:
                h(S)
                done = True
            finally:
                sys.setprofile(None)
            if c.dead is not None:
                raise c.dead
        except core.PathEnd:
            pass
        except core.Unsupported as e:
            res['inconclusive'].append('unsupported: %s [%s]' % (e, _where(e)))
            if os.environ.get('VF_DEBUG'):
                traceback.print_exc()
            if len(res['inconclusive']) > 20:
                break
        except core.Budget as e:
            res['inconclusive'].append(str(e))
            break
        except RecursionError as e:
            res['inconclusive'].append('recursion limit')
        except z3.Z3Exception as e:
            if os.environ.get('VF_DEBUG'):
                traceback.print_exc()
            res['inconclusive'].append('z3: %s' % str(e)[:200])
        except Exception as e:      # the code under test raised
            if os.environ.get('VF_DEBUG'):
                traceback.print_exc()
            if c.dead is not None:
                pass
            elif _not_there(e):
                res['inconclusive'].append('the harness does not fit the code: %s: %s' % (type(e).__name__, str(e)[:150]))
                break
            else:
                label = 'exception %s: %s [%s]' % (type(e).__name__, str(e)[:150], _where(e))
                try:
                    m = c.get_model()
                    if m is None:
                        res['inconclusive'].append('no model for ' + label)
                    else:
                        res['violations'].append({'label': label, 'inputs': [{k: _jsonable(v) for k, v in values(S, m).items()}]})
                except core.PathEnd:
                    pass
                except core.Budget as b:
                    res['inconclusive'].append(str(b))
                    break
        if c.dead is not None and isinstance(c.dead, core.Budget):
            res['inconclusive'].append(str(c.dead))
            break
        assumptions |= c.assumptions
        for l, n in S.labels.items():
            res['labels'][l] = res['labels'].get(l, 0) + n
        for n in S.notes:
            kind, name = n.split(':', 1)
            res['covers'][name] = res['covers'].get(name, False) or kind == 'cover'
        if S.unknowns:
            res['inconclusive'] += ['solver unknown: ' + u for u in S.unknowns]
        if done and len(res['witnesses']) < h.witnesses and (npaths < 8 or npaths % 7 == 0):
            try:
                m = c.get_model(timeout=4000)
                if m is not None:
                    obs = []
                    for name, vals in S.observed:
                        out = []
                        for v in vals:
                            if isinstance(v, core.Sym):
                                v = core.model_value(m, v)
                            out.append(float(v) if isinstance(v, (fractions.Fraction, float)) or hasattr(v, 'dtype') else v)
                        obs.append((name, out))
                    res['witnesses'].append({'inputs': {k: _jsonable(v) for k, v in values(S, m).items()}, 'observed': obs})
            except (core.PathEnd, core.Budget, core.Unsupported):
                pass
        stats.paths += 1 if done else 0
        stats.aborted += 0 if done else 1
        work.extend(c.pending)
    core.CTX = None
    res['paths'] = npaths
    res['complete_paths'] = stats.paths
    res['queries'] = stats.queries
    res['checks'] = stats.checks
    res['solver_s'] = round(stats.solver_s, 3)
    res['wall_s'] = round(time.time() - t0, 3)
    res['assumptions'] = sorted(assumptions | set(h.assumptions))
    res['functions'] = sorted('%s:%s' % (os.path.relpath(f, translate.REPO), q) for f, q in executed if q != '<module>')
    res['ranges'] = {k: v for k, v in S.ranges.items()}
    for n, hit in res['covers'].items():
        if not hit:
            res['inconclusive'].append('vacuous: no path covers ' + n)
    if stats.checks == 0 and not res['violations'] and not res['inconclusive']:
        res['inconclusive'].append('vacuous: no check was reached')
    if stats.paths == 0 and not res['violations'] and not res['inconclusive']:
        res['inconclusive'].append('vacuous: no path completed')
    res['inconclusive'] = sorted(set(res['inconclusive']))[:12]
    return res


def replay(h, input_sets, seed):
    """Run the harness on concrete inputs and the unpatched code. Returns one outcome per input set."""
    from . import api, loader
    loader.install('real', overrides={})
    out = []
    for inputs in input_sets:
        vals = {k: _from_json(v) for k, v in inputs.items()}
        S = api.RealS(vals, h.tol)
        r = {'outcome': 'ok', 'detail': ''}
        try:
            h(S)
        except api.CheckFailed as e:
            r = {'outcome': 'failed', 'detail': str(e)}
        except api.AssumeFailed as e:
            r = {'outcome': 'outside', 'detail': str(e)}
        except Exception as e:
            if os.environ.get('VF_DEBUG'):
                traceback.print_exc()
            r = {'outcome': 'misfit' if _not_there(e) else 'exception', 'detail': '%s: %s [%s]' % (type(e).__name__, str(e)[:200], _where(e))}
        obs = []
        for name, v in S.observed:
            obs.append((name, [float(x) if isinstance(x, (float,)) or hasattr(x, 'dtype') else x for x in v]))
        r['observed'] = obs
        out.append(r)
    return out


def samples(h, n, seed):
    """Inputs within the declared bounds, for a harness the solver could not decide."""
    from . import api, core
    out = []
    rnd = random.Random(seed)

    class Sampler(api.RealS):
        def _get(self, name, conv, default=None):
            if name not in self.values:
                self.values[name] = None
            return super()._get(name, conv, default)

        def int(self, name, lo, hi):
            self.values[name] = rnd.choice([lo, hi, rnd.randint(lo, hi), rnd.randint(lo, hi)])
            return super().int(name, lo, hi)

        def real(self, name, lo=None, hi=None):
            a, b = (-8 if lo is None else lo), (8 if hi is None else hi)
            k = rnd.random()
            v = a + (b - a) * k
            v = round(v * 64) / 64.0
            self.values[name] = min(max(v, a), b)
            return super().real(name, lo, hi)

        def bool(self, name):
            self.values[name] = rnd.random() < 0.5
            return super().bool(name)
        fork_bool = bool

        def bv(self, name, bits, signed=False):
            v = rnd.getrandbits(bits)
            self.values[name] = v - (1 << bits) if signed and v >> (bits - 1) else v
            return super().bv(name, bits, signed)
    return Sampler, rnd


def fallback(h, n, seed):
    """Concrete runs for a harness without a solver verdict (recorded as such; never a pass)."""
    from . import api, loader
    loader.install('real', overrides={})
    Sampler, _ = samples(h, n, seed)
    bad = []
    ran = 0
    for _ in range(n * 4):
        if ran >= n:
            break
        S = Sampler({}, h.tol)
        try:
            h(S)
            ran += 1
        except api.AssumeFailed:
            continue
        except api.CheckFailed as e:
            ran += 1
            bad.append({'inputs': {k: _plain(v) for k, v in S.values.items()}, 'detail': str(e)})
        except Exception as e:
            if _not_there(e):
                break
            ran += 1
            bad.append({'inputs': {k: _plain(v) for k, v in S.values.items()}, 'detail': '%s: %s [%s]' % (type(e).__name__, str(e)[:200], _where(e))})
        if bad:
            break
    return {'ran': ran, 'bad': bad}


def _plain(v):
    return v.item() if hasattr(v, 'item') else v


def _child(conn, what, h, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        sys.setrecursionlimit(20000)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        _quiet()
        r = {'explore': explore, 'replay': replay, 'fallback': fallback}[what](h, *args)
        conn.send(('ok', r))
    except MemoryError:
        conn.send(('error', 'out of memory'))
    except BaseException as e:
        conn.send(('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]))
    finally:
        conn.close()
        os._exit(0)


class Job(object):
    def __init__(self, what, h, args, limit):
        self.what, self.h, self.args, self.limit = what, h, args, limit
        self.result = None

    def start(self):
        self.conn, child = multiprocessing.get_context('fork').Pipe(False)
        self.proc = multiprocessing.get_context('fork').Process(target=_child, args=(child, self.what, self.h, self.args))
        self.proc.start()
        child.close()
        self.t0 = time.time()

    def poll(self):
        if self.conn.poll(0):
            try:
                self.result = self.conn.recv()
            except EOFError:
                self.result = ('error', 'worker died (memory limit or crash)')
            self._end()
            return True
        if not self.proc.is_alive():
            if self.conn.poll(0.2):
                return self.poll()
            self.result = ('error', 'worker died (memory limit or crash)')
            self._end()
            return True
        if time.time() - self.t0 > self.limit:
            self.result = ('error', 'time limit of %d s' % self.limit)
            self._end()
            return True
        return False

    def _end(self):
        if self.proc.is_alive():
            self.proc.kill()
        self.proc.join()
        self.conn.close()


def run_jobs(jobs, parallel):
    waiting, running = list(jobs), []
    while waiting or running:
        while waiting and len(running) < parallel:
            j = waiting.pop(0)
            j.start()
            running.append(j)
        done = [j for j in running if j.poll()]
        running = [j for j in running if j not in done]
        if not done:
            time.sleep(0.01)
    return jobs


def close(a, b, tol):
    if a == b:
        return True
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if fa != fa and fb != fb:
        return True
    return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))


# -- in the parent ---------------------------------------------------------------------------------------------------------
def run_property(pid, tier, seed, only=None, verbose=True):
    from . import api
    t_start = time.time()
    api.REGISTRY[:] = []
    mod = importlib.import_module('checks.' + pid.lower())
    harnesses = [h for h in api.REGISTRY if tier == 'thorough' or h.tier == 'quick']
    if only:
        harnesses = [h for h in api.REGISTRY if only in h.name]
    total = float(os.environ.get('VF_TOTAL_S', 700 if tier == 'quick' else 3600))
    parallel = int(os.environ.get('VF_JOBS', '8'))
    scale = 1.0 if tier == 'quick' else 4.0
    worst = sum(h.time_s for h in harnesses) / parallel
    if worst > total:
        scale = min(scale, max(0.2, total / worst))
    jobs = [Job('explore', h, (h.time_s * scale, seed), h.time_s * scale + 90) for h in sorted(harnesses, key=lambda h: -h.time_s)]
    run_jobs(jobs, parallel)
    results = {}
    for j in jobs:
        kind, r = j.result
        if kind != 'ok':
            r = {'name': j.h.name, 'violations': [], 'inconclusive': ['machinery: ' + r], 'witnesses': [], 'functions': [], 'assumptions': [],
                 'paths': 0, 'complete_paths': 0, 'queries': 0, 'checks': 0, 'solver_s': 0.0, 'wall_s': 0.0, 'labels': {}, 'covers': {}}
        results[j.h.name] = r
    # replay: candidate violations and path witnesses
    jobs = []
    for h in harnesses:
        r = results[h.name]
        sets, tags = [], []
        for v in r['violations']:
            for k, i in enumerate(v['inputs']):
                sets.append(i)
                tags.append(('violation', v, k))
        for w in r['witnesses']:
            sets.append(w['inputs'])
            tags.append(('witness', w, 0))
        if sets:
            j = Job('replay', h, (sets, seed), 240)
            j.tags, j.sets = tags, sets
            jobs.append(j)
        if r['inconclusive'] and h.fallback:
            jobs.append(Job('fallback', h, (h.fallback, seed), 240))
    run_jobs(jobs, parallel)
    found, errors = [], []
    for j in jobs:
        r = results[j.h.name]
        kind, out = j.result
        if kind != 'ok':
            r['inconclusive'].append('replay: ' + out)
            errors.append('%s: %s' % (j.h.name, out))
            continue
        if j.what == 'fallback':
            r['fallback_runs'] = out['ran']
            for b in out['bad'][:1]:
                found.append((j.h, 'concrete run of an undecided harness: ' + b['detail'], b['inputs']))
            continue
        reproduced = set()
        for (tag, item, k), inputs, o in zip(j.tags, j.sets, out):
            if tag == 'violation':
                if id(item) in reproduced:
                    continue
                if o['outcome'] in ('failed', 'exception'):
                    reproduced.add(id(item))
                    found.append((j.h, '%s -> real code: %s' % (item['label'], o['detail']), inputs))
            else:
                r['witnesses_run'] = r.get('witnesses_run', 0) + 1
                if o['outcome'] == 'outside':
                    continue
                if o['outcome'] != 'ok':
                    if j.h.witness_decides:
                        found.append((j.h, 'path witness fails on the real code: ' + o['detail'], inputs))
                    else:
                        r.setdefault('witness_notes', []).append(o['detail'])
                    continue
                for (n1, a), (n2, b) in zip(item['observed'], o['observed']):
                    if len(a) != len(b) or not all(close(x, y, 1e-5) for x, y in zip(a, b)):
                        r['inconclusive'].append('engine and real code disagree on %s: %s / %s' % (n1, a[:6], b[:6]))
        for v in r['violations']:
            if id(v) not in reproduced:
                r['inconclusive'].append('counterexample not reproduced on the real code: ' + v['label'])
    known = []
    for kf in getattr(mod, 'KNOWN_FINDINGS', []):
        known.append(kf)
    status = 0
    outdir = os.path.join(VERIF, 'evidence', 'replay')
    printed = []
    known_lines = run_known(pid, mod, parallel, seed)
    for line in known_lines:
        print(line)
    for n, (h, text, inputs) in enumerate(found):
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, '%s-%s-%d.json' % (pid, h.name, n))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'harness': h.name, 'what': text, 'inputs': inputs,
                       'replay': 'python3 /verif/run.py %s --replay %s' % (pid, path)}, f, indent=1, default=str)
        if n < 5:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  harness %s: %s' % (h.name, text[:400]))
        printed.append({'harness': h.name, 'what': text, 'replay': path})
        status = 1
    decided = [h for h in harnesses if not results[h.name]['inconclusive']]
    undecided = [h for h in harnesses if results[h.name]['inconclusive']]
    for h in harnesses:
        r = results[h.name]
        v = 'INCONCLUSIVE' if r['inconclusive'] else 'held'
        if any(x[0] is h for x in found):
            v = 'VIOLATED'
        r['verdict'] = v
        if verbose:
            print('%-12s %-46s paths=%d checks=%d queries=%d solver=%.1fs wall=%.1fs' % (v, h.name, r['paths'], r['checks'], r['queries'], r['solver_s'], r['wall_s']))
            for line in r['inconclusive'][:4]:
                print('      ' + line[:600])
            for line in r.get('witness_notes', [])[:2]:
                print('      witness: ' + line[:300])
    if status == 0 and not decided:
        status = 2
        print('ERROR: no harness of %s reached a verdict' % pid)
    write_evidence(pid, tier, seed, harnesses, results, printed, known_lines, time.time() - t_start)
    return status


def run_known(pid, mod, parallel, seed):
    """Re-run the listed findings on the real code; print those that still fail."""
    lines = []
    jobs = []
    for kf_id, text, fn in getattr(mod, 'KNOWN_FINDINGS', []):
        from . import api
        h = api.Harness(fn, kf_id, '', '', 'quick', False, None, 1, 60, False, 0, 1000, 1000, 1e-6, (), 0, ())
        j = Job('replay', h, ([{}], seed), 120)
        j.text = text
        jobs.append(j)
    run_jobs(jobs, parallel)
    for j in jobs:
        kind, out = j.result
        if kind == 'ok' and out[0]['outcome'] in ('failed', 'exception'):
            lines.append('KNOWN-FINDING: property=%s %s %s' % (pid, j.h.name, j.text))
        elif kind != 'ok':
            lines.append('note: finding %s could not be re-run: %s' % (j.h.name, str(out)[:200]))
        else:
            lines.append('note: finding %s no longer fails (%s)' % (j.h.name, out[0]['outcome']))
    return lines


def write_evidence(pid, tier, seed, harnesses, results, violations, known, wall):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rs = [results[h.name] for h in harnesses]
    functions = sorted({f for r in rs for f in r['functions']})
    assumptions = sorted({a for r in rs for a in r['assumptions']})
    assumptions.append('floating-point numbers are modelled by exact reals (rounding and overflow are outside the claim; every replay runs on floats)')
    explanation = ('Symbolic execution of the translated working tree (%d functions reached) with z3 deciding every assertion for all values within the '
                   'stated bounds; path witnesses and counterexamples are run on the unpatched code.') % len(functions)
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation': explanation,
            'harnesses': [{
                'name': h.name, 'what': h.doc, 'bounds': h.bounds, 'verdict': r['verdict'], 'paths': r['paths'], 'complete_paths': r['complete_paths'],
                'checks': r['checks'], 'assertions': r['labels'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'],
                'inconclusive': r['inconclusive'], 'witnesses_run_on_real_code': r.get('witnesses_run', 0),
                'concrete_runs_of_undecided_harness': r.get('fallback_runs', 0),
            } for h, r in zip(harnesses, rs)],
            'functions_encoded': functions,
            'queries_discharged': sum(r['queries'] for r in rs),
            'solver_s': round(sum(r['solver_s'] for r in rs), 2),
            'paths': sum(r['paths'] for r in rs),
            'known_findings': known,
        },
        'wall_s': round(wall, 2),
        'assumptions': assumptions,
        'violations': len(violations),
    }
    ev['coverage']['violations_found'] = violations
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)
