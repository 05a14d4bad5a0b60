"""Explorer core: enumerates the scenarios of a property, runs the real code on
each of them, compares with an independent reference, and writes evidence.

A check module provides

* ``LEVEL``   evidence level ("model_checking" unless stated otherwise),
* ``RULE``    text: what is enumerated,
* ``scenarios(ctx)``: generator of ``(case_id, function)``.  The function is called
  as ``function(ctx)`` and uses ``ctx.check``/``ctx.close``/``ctx.same`` to compare.

The generator must be a deterministic function of the tier, so a case id
identifies a scenario and can be replayed alone.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class PropertyViolation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _short(x, n=400):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    max_violations = int(os.environ.get('MC_MAXV') or 12)
    case_limit = 100       # seconds per scenario
    total_limit = {'quick': 700, 'thorough': 4 * 3600}

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self._states = set()
        self._distinct = set()
        self.transitions = 0
        self.comparisons = 0
        self.cases = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = []
        self.capped = False
        self.case_id = None

    # ---- bookkeeping
    def state(self, *key):
        """Register a distinct (model) state reached."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=12).digest()
        new = h not in self._states
        self._states.add(h)
        return new

    def step(self, n=1):
        """Register n transitions: calls of the real code (or reference steps replayed on it)."""
        self.transitions += n

    # ---- oracle
    def fail(self, msg):
        raise PropertyViolation(_short(msg, 1500))

    def check(self, cond, msg='condition violated'):
        self.comparisons += 1
        if not bool(np.all(cond)):
            if callable(msg):
                msg = msg()
            self.fail(msg)

    def close(self, got, want, msg='', rtol=1e-8, atol=1e-9):
        self.comparisons += 1
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            try:
                np.broadcast_shapes(got.shape, want.shape)
            except ValueError:
                self.fail(f'{msg}: shape {got.shape} != expected {want.shape}')
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~ok)[:3]
            g = np.broadcast_to(got, ok.shape)
            w = np.broadcast_to(want, ok.shape)
            det = '; '.join(f'{tuple(int(j) for j in b)}: got {g[tuple(b)]!r} expected {w[tuple(b)]!r}' for b in bad)
            self.fail(f'{msg}: {int((~ok).sum())}/{ok.size} differ ({det})')

    def same(self, got, want, msg=''):
        self.comparisons += 1
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            eq = g.shape == w.shape and (np.array_equal(g, w) or
                                         (g.dtype.kind in 'fc' and w.dtype.kind in 'fc' and
                                          np.array_equal(g, w, equal_nan=True)))
        else:
            eq = got == want
        if not eq:
            self.fail(f'{msg}: got {_short(got)!s} expected {_short(want)!s}')

    def raises(self, exc, func, msg=''):
        self.comparisons += 1
        try:
            func()
        except exc:
            return
        except Exception as e:
            self.fail(f'{msg}: expected {exc}, raised {type(e).__name__}: {e}')
        self.fail(f'{msg}: expected an exception, none raised')


def _alarm(signum, frame):
    raise CaseTimeout()


def load_known(prop):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return {}
    with open(f) as fh:
        data = json.load(fh)
    return {e['case']: e for e in data.get('findings', []) if e['property'] == prop}


def explore(ctx, mod, known, rdir, claim, only=None, serial=None):
    """Run the scenarios for which ``claim(index)`` is true; violations are reported at once."""
    t0 = time.time()
    prop, tier, seed = ctx.prop, ctx.tier, ctx.seed
    signal.signal(signal.SIGALRM, _alarm)
    limit = ctx.total_limit[tier]
    case_limit = getattr(mod, 'CASE_LIMIT', ctx.case_limit)
    seen = set()
    index = -1

    def record(case, msg, tb=None):
        if case in known:
            ctx.known.append((case, msg))
            print(f'KNOWN-FINDING: property={prop} {known[case]["what"]}', flush=True)
            return
        path = os.path.join(rdir, f'{prop}_{serial() if serial else len(ctx.violations):02d}.json')
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case': case,
                       'message': msg, 'traceback': tb,
                       'replay': f'/opt/venv/bin/python /verif/run.py {prop} --tier {tier} --replay {path}'}, fh, indent=1)
        ctx.violations.append((case, msg))
        print(f'VIOLATION property={prop} replay={path}\n   case: {case}\n   {msg}', flush=True)

    gen = None
    try:
        gen = iter(mod.scenarios(ctx))
    except Exception as e:
        record('scenario-generation', f'{type(e).__name__}: {e}', traceback.format_exc())
    while gen is not None:
        signal.alarm(case_limit)
        try:
            item = next(gen, None)
        except (Exception, CaseTimeout) as e:
            signal.alarm(0)
            record('scenario-generation', f'building the scenarios raised {type(e).__name__}: {e}',
                   traceback.format_exc())
            break
        signal.alarm(0)
        if item is None:
            break
        case, func = item
        if case in seen:
            raise RuntimeError(f'duplicate case id {case}')
        seen.add(case)
        if only is not None and case != only:
            continue
        index += 1
        if not claim(index):
            continue
        ctx.case_id = case
        ctx.cases += 1
        np.random.seed((seed * 7919 + index + 1) % (2**32))
        ntr, ncmp = ctx.transitions, ctx.comparisons
        try:
            signal.alarm(case_limit)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    func(ctx)
            signal.alarm(0)
            ctx.traces += 1
            if ctx.comparisons > ncmp:
                ctx._distinct.add(case)
            if len(ctx.samples) < 5 or (index in (50, 200, 1000)):
                ctx.samples.append({'case': case, 'calls': ctx.transitions - ntr,
                                    'comparisons': ctx.comparisons - ncmp, 'index': index})
        except PropertyViolation as e:
            signal.alarm(0)
            record(case, str(e))
        except CaseTimeout:
            record(case, f'did not terminate within {case_limit} s', traceback.format_exc())
        except Exception as e:
            signal.alarm(0)
            record(case, f'unexpected {type(e).__name__}: {_short(e)}', traceback.format_exc())
        finally:
            signal.alarm(0)
        if len(ctx.violations) >= ctx.max_violations:
            ctx.capped = True
            break
        if time.time() - t0 > limit:
            ctx.capped = True
            ctx.notes.append(f'time limit {limit}s hit after {ctx.cases} scenarios')
            break


MERGE = ['transitions', 'comparisons', 'cases', 'traces', 'samples', 'violations', 'known', 'notes']


def explore_parallel(ctx, mod, known, rdir, jobs):
    """The scenarios are shared out between ``jobs`` forked processes, each takes the next one that nobody has taken."""
    import multiprocessing as mp
    from . import zoo
    fork = mp.get_context('fork')
    lock, nextcase, nviol = fork.Lock(), fork.Value('l', 0, lock=False), fork.Value('l', 0, lock=False)
    pipes, pids = [], []
    sys.stdout.flush()

    def work(send):
        zoo.worker_start()
        mine = [-1]

        def take():
            with lock:
                mine[0] = nextcase.value
                nextcase.value += 1

        def claim(i):
            if i > mine[0]:
                take()
            if i < mine[0]:
                return False
            return True

        def serial():
            with lock:
                nviol.value += 1
                return nviol.value - 1

        take()
        explore(ctx, mod, known, rdir, claim, serial=serial)
        send.send({k: getattr(ctx, k) for k in MERGE} | {'states': ctx._states, 'distinct': ctx._distinct, 'capped': ctx.capped})
        send.close()

    for _ in range(jobs):
        r, s = fork.Pipe(False)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                r.close()
                work(s)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                zoo.worker_end()
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        s.close()
        pipes.append(r)
        pids.append(pid)
    lost = 0
    for r, pid in zip(pipes, pids):
        try:
            d = r.recv()
        except EOFError:
            d = None
        os.waitpid(pid, 0)
        if d is None:
            lost += 1
            continue
        for k in MERGE:
            setattr(ctx, k, getattr(ctx, k) + d[k])
        ctx._states |= d['states']
        ctx._distinct |= d['distinct']
        ctx.capped |= d['capped']
    # scenarios cannot be built: every process reports it
    ctx.samples.sort(key=lambda x: x.get('index', 0))
    ctx.samples = ctx.samples[:5] + [x for x in ctx.samples[5:] if x.get('index') in (50, 200, 1000)]
    return lost


def run_property(prop, mod, tier, seed, replay=None):
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    known = load_known(prop)
    only = None
    if replay:
        with open(replay) as fh:
            only = json.load(fh)['case']
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    if not replay:
        for f in os.listdir(rdir):
            if f.startswith(prop + '_'):
                os.unlink(os.path.join(rdir, f))
    jobs = int(os.environ.get('MC_JOBS') or min(8, len(os.sched_getaffinity(0))))
    if only is not None or jobs <= 1:
        explore(ctx, mod, known, rdir, lambda i: True, only)
    else:
        lost = explore_parallel(ctx, mod, known, rdir, jobs)
        if lost:
            # killed (memory) or crashed: repeat everything in this process
            print(f'{lost} of {jobs} worker processes ended without a result, running again in one process', flush=True)
            ctx = Ctx(prop, tier, seed)
            explore(ctx, mod, known, rdir, lambda i: True)
    if only is not None:
        if ctx.cases == 0:
            print(f'case {only} not found')
        print('replayed:', 'VIOLATED' if ctx.violations else 'held')
        return 1 if ctx.violations else 0
    # known findings which did not fail are reported in the evidence only
    level = getattr(mod, 'LEVEL', 'model_checking')
    rule = getattr(mod, 'RULE', (mod.__doc__ or '').strip())
    cov = {'rule': rule, 'samples': ctx.samples or [{'case': 'none'}],
           'comparisons': ctx.comparisons,
           'scenarios': ctx.cases,
           'exhaustive': not ctx.capped,
           'known_findings_hit': [c for c, m in ctx.known],
           'notes': ctx.notes}
    if level == 'model_checking':
        cov['states'] = len(ctx._states)
        cov['transitions'] = ctx.transitions
        cov['traces_validated_against_impl'] = ctx.traces
    else:
        cov['evaluations'] = ctx.transitions
        cov['distinct_nontrivial'] = len(ctx._distinct)
        cov['distinct_states'] = len(ctx._states)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'violations': len(ctx.violations), 'wall_s': round(time.time() - t0, 3)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f'{prop} {tier}: scenarios={ctx.cases} states={len(ctx._states)} calls={ctx.transitions} '
          f'comparisons={ctx.comparisons} violations={len(ctx.violations)} known={len(ctx.known)} '
          f'wall={time.time()-t0:.1f}s' + (' CAPPED' if ctx.capped else ''))
    return 1 if ctx.violations else 0
