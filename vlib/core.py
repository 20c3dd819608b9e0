"""
Small runtime-monitoring framework.

A check module (checks/cXX.py) registers scenarios.  A scenario drives the
real code with one generated workload and observes it through a context
object; the context records monitor events, distinct case signatures and
violations.  Cases are seeded by (VERIF_SEED, scenario, index), are run in a
process pool and are individually replayable.
"""
import concurrent.futures as cf
import contextlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

from vlib import lines

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCENARIOS = {}


class Violated(Exception):
    def __init__(self, mech, msg, info=None):
        super().__init__(f'{mech}: {msg}')
        self.mech = mech
        self.msg = msg
        self.info = info or {}


class Inconclusive(Exception):
    """The monitor could not decide this case (not a violation)."""


class CaseTimeout(BaseException):
    pass


def scenario(quick=20, thorough=None, timeout=120, weight=1):
    def deco(f):
        SCENARIOS.setdefault(f.__module__, {})[f.__name__] = dict(
            fn=f, quick=quick,
            thorough=thorough if thorough is not None else quick*8,
            timeout=timeout, weight=weight)
        return f
    return deco


def _short(x, n=400):
    try:
        with np.printoptions(threshold=12, precision=6):
            s = repr(x)
    except Exception as e:
        s = f'<unprintable {type(e).__name__}>'
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    def __init__(self, pid, scen, idx, seed, tier, known):
        self.pid, self.scen, self.idx = pid, scen, idx
        self.seed, self.tier = seed, tier
        self.known = known
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(scen.encode()), idx])
        self.events = {}
        self.sigs = set()
        self.nontrivial = True
        self.known_hits = {}
        self.sample = None
        self._tmp = None
        self.desc = {}

    # -- workload description ------------------------------------------
    def note(self, **kw):
        """Describe the generated case (for samples and replays)."""
        for k, v in kw.items():
            self.desc[k] = v if isinstance(
                v, (int, float, str, bool, type(None))) else _short(v)

    def sig(self, *key):
        self.sigs.add(repr(key))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='verif_')
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # -- oracles --------------------------------------------------------
    def fail(self, mech, msg='', **info):
        """Report; returns only if the mechanism is a known finding."""
        if mech in self.known:
            self.known_hits[mech] = msg or mech
            return
        raise Violated(mech, msg, {k: _short(v) for k, v in info.items()})

    def expect(self, cond, mech, msg='', **info):
        self.event('assertions')
        if not cond:
            self.fail(mech, msg, **info)
            return False
        return True

    def eq(self, got, want, mech, msg='', **info):
        self.event('assertions')
        try:
            ok = bool(got == want)
        except Exception:
            ok = False
        if not ok:
            self.fail(mech, f'{msg} got {_short(got)} expected '
                      f'{_short(want)}', **info)
        return ok

    def close(self, got, want, mech, msg='', rtol=1e-6, atol=None, **info):
        """Elementwise comparison, NaN equal to NaN, relative to scale."""
        self.event('assertions')
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(float)
        except Exception as e:
            self.fail(mech, f'{msg} not an array: {e}', got=got)
            return False
        if g.shape != w.shape:
            self.fail(mech, f'{msg} shape {g.shape} expected {w.shape}',
                      **info)
            return False
        if g.size == 0:
            return True
        self.event('values_compared', g.size)
        if np.iscomplexobj(g) or np.iscomplexobj(w):
            gn = np.isnan(g.real) | np.isnan(g.imag)
            wn = np.isnan(w.real) | np.isnan(w.imag)
        else:
            g = g.astype(float)
            w = w.astype(float)
            gn, wn = np.isnan(g), np.isnan(w)
        if not np.array_equal(gn, wn):
            i = np.argwhere(gn != wn)[:5].tolist()
            self.fail(mech, f'{msg} undefined values differ at {i}',
                      got=g, want=w, **info)
            return False
        fin = ~wn
        if not fin.any():
            return True
        gi, wi = np.isinf(g[fin]), np.isinf(w[fin])
        if not np.array_equal(gi, wi):
            self.fail(mech, f'{msg} infinite values differ', got=g, want=w)
            return False
        f2 = ~wi
        scale = np.max(np.abs(w[fin][f2])) if f2.any() else 0
        tol = rtol*scale + (rtol*1e-3 if atol is None else atol)
        d = np.abs(g[fin][f2] - w[fin][f2])
        if d.size and np.max(d) > tol:
            full = np.zeros(g.shape)
            tmp = np.zeros(fin.sum())
            tmp[f2] = d
            full[fin] = tmp
            i = np.unravel_index(np.argmax(full), full.shape)
            self.fail(mech, f'{msg} max deviation {np.max(d):.3g} > '
                      f'{tol:.3g} at {tuple(int(q) for q in i)}: got '
                      f'{g[i]!r} expected {w[i]!r}', **info)
            return False
        return True

    def raises(self, exc, fn, mech, msg=''):
        self.event('assertions')
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fail(mech, f'{msg} raised {type(e).__name__}: {e} instead')
            return False
        self.fail(mech, f'{msg} no exception')
        return False


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as fh:
        d = json.load(fh)
    return {e['mechanism']: e['what'] for e in d.get('known', [])
            if e['property'] == pid}


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(pid, scen, idx, seed, tier, known, quiet=True):
    """Run one case; returns a plain dictionary."""
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    np.random.seed(zlib.crc32(f'{seed}{scen}{idx}'.encode()))
    sc = SCENARIOS[f'checks.{pid.lower()}'][scen]
    ctx = Ctx(pid, scen, idx, seed, tier, known)
    res = dict(scen=scen, idx=idx, status='ok')
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sc['timeout'])
    cwd = os.getcwd()
    t0 = time.time()
    try:
        sc['fn'](ctx)
    except Violated as e:
        res.update(status='violated', mech=e.mech, msg=e.msg, info=e.info)
    except Inconclusive as e:
        res.update(status='inconclusive', msg=str(e))
    except CaseTimeout:
        res.update(status='inconclusive', msg='case timed out')
    except MemoryError:
        res.update(status='inconclusive', msg='memory')
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        txt = f'{type(e).__name__}: {e}'
        if isinstance(e, (ImportError, ModuleNotFoundError)) or (
                isinstance(e, AttributeError) and
                "module 'seismic" in str(e)):
            res.update(status='inconclusive', msg=txt + '\n' + tb)
        else:
            mech = f'exception:{type(e).__name__}:{scen}'
            if mech in known:
                ctx.known_hits[mech] = txt
            else:
                res.update(status='violated', mech=mech, msg=txt,
                           info={'traceback': tb[-3000:]})
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        ctx.cleanup()
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
    res.update(events=ctx.events, sigs=sorted(ctx.sigs),
               nontrivial=ctx.nontrivial, known=ctx.known_hits,
               desc=ctx.desc, wall=time.time()-t0, lines=lines.take())
    return res


def _init(quiet):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    lines.start(os.path.join(REPO, 'src', 'seismic'))
    if quiet:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)


def _task(args):
    return run_case(*args)


def load_check(pid):
    return importlib.import_module(f'checks.{pid.lower()}')


def main(pid, tier, seed, replay=None, serial=False, only=None, cases=None,
         start=0):
    t0 = time.time()
    known = load_known(pid)
    mod = load_check(pid)
    if replay:
        with open(replay) as fh:
            r = json.load(fh)
        res = run_case(pid, r['scenario'], r['index'], r['seed'], r['tier'],
                       known)
        print(json.dumps(res, indent=1, default=str))
        if res['status'] == 'violated':
            print(f'VIOLATION property={pid} replay={replay}')
            return 1
        return 0 if res['status'] == 'ok' else 2
    tasks = []
    mine = SCENARIOS[mod.__name__]
    for name, sc in mine.items():
        if only and name not in only:
            continue
        n = cases or sc[tier]
        tasks += [(pid, name, i, seed, tier, known)
                  for i in range(start, start+n)]
    # interleave the scenarios, heavy ones first
    tasks.sort(key=lambda t: (-mine[t[1]]['weight'], t[2]))
    budget = 480 if tier == 'quick' else 800
    results, dropped, broken = [], 0, None
    if serial:
        for t in tasks:
            results.append(run_case(*t))
            if results[-1]['status'] != 'ok':
                print(json.dumps({k: results[-1].get(k) for k in (
                    'scen', 'idx', 'status', 'mech', 'msg', 'info', 'desc')},
                    indent=1, default=str))
    else:
        nw = int(os.environ.get('VERIF_JOBS', '8'))
        ex = cf.ProcessPoolExecutor(
            nw, mp_context=mp.get_context('fork'), initializer=_init,
            initargs=(True,))
        pending = set()
        it = iter(tasks)
        n_viol = 0
        exhausted = False
        try:
            while True:
                while not exhausted and len(pending) < 3*nw:
                    if time.time()-t0 > budget or n_viol >= 40:
                        rest = sum(1 for _ in it)
                        dropped += rest
                        exhausted = True
                        break
                    t = next(it, None)
                    if t is None:
                        exhausted = True
                        break
                    pending.add(ex.submit(_task, t))
                if not pending:
                    break
                done, pending = cf.wait(
                    pending, timeout=1, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    r = f.result()
                    n_viol += r['status'] == 'violated'
                    results.append(r)
        except cf.process.BrokenProcessPool as e:
            broken = f'worker died: {e}'
        finally:
            ex.shutdown(wait=not (broken or pending), cancel_futures=True)
    events, sigs, khits, samples = {}, set(), {}, []
    seen = {tuple(x) for r in results for x in r['lines']}
    per_scen = {}
    viol, inc = {}, []
    for r in sorted(results, key=lambda r: (r['scen'], r['idx'])):
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        if r['nontrivial'] and r['status'] == 'ok':
            if r['sigs']:
                sigs.update((r['scen'], s) for s in r['sigs'])
            else:
                sigs.add((r['scen'], r['idx']))
        khits.update(r['known'])
        per_scen.setdefault(r['scen'], [0, 0.])
        per_scen[r['scen']][0] += 1
        per_scen[r['scen']][1] += r['wall']
        if r['status'] == 'violated':
            viol.setdefault(r['mech'], r)
        elif r['status'] == 'inconclusive':
            inc.append(r)
        if r['desc'] and sum(s['scenario'] == r['scen']
                             for s in samples) < 2:
            samples.append(dict(scenario=r['scen'], index=r['idx'],
                                case=r['desc'], events=r['events']))
    if os.environ.get('VERIF_LINES'):
        # for tools/unseen.py
        with open(os.path.join(os.environ['VERIF_LINES'], pid), 'w') as fh:
            json.dump(sorted(seen), fh)
    wall = time.time()-t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(sigs),
            rule=' '.join((getattr(mod, 'RULE', '') or mod.__doc__ or ''
                           ).split()),
            samples=samples or [dict(scenario=k, cases=v[0])
                                for k, v in per_scen.items()],
            monitor_events=events,
            cases_per_scenario={k: v[0] for k, v in per_scen.items()},
            seconds_per_scenario={k: round(v[1], 2)
                                  for k, v in per_scen.items()},
            lines_executed=lines.summary(
                os.path.join(REPO, 'src', 'seismic'), seen),
            inconclusive_cases=len(inc), cases_not_run=dropped),
        wall_s=round(wall, 2), violations=len(viol),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        known_findings_seen=khits)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not only and not cases:
        with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    for m, what in known.items():
        if m in khits:
            print(f'KNOWN-FINDING: property={pid} {what}')
    rc = 0
    if viol:
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for m, r in list(viol.items())[:8]:
            safe = ''.join(c if c.isalnum() else '_' for c in m)[:60]
            path = os.path.join(rdir, f'{pid}-{safe}.json')
            with open(path, 'w') as fh:
                json.dump(dict(property=pid, scenario=r['scen'],
                               index=r['idx'], seed=seed, tier=tier,
                               mechanism=m, message=r['msg'],
                               info=r.get('info'), case=r['desc']), fh,
                          indent=1, default=str)
            print(f'  [{r["scen"]}#{r["idx"]}] {m}: '
                  f'{" ".join(str(r["msg"]).split())[:400]}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    required = getattr(mod, 'REQUIRED', {})
    missing = {k: v for k, v in required.items() if events.get(k, 0) < v}
    if broken or inc or (missing and not only and not cases) or not results:
        print(f'INCONCLUSIVE property={pid} broken={broken} '
              f'undecided={len(inc)} missing={missing}')
        for r in inc[:5]:
            print(f'  [{r["scen"]}#{r["idx"]}] {r["msg"]}')
        # isolated undecided cases do not spoil the verdict of the others
        if broken or missing or not results or len(inc) > 0.02*len(results):
            rc = 2
    top = {k: events[k] for k in sorted(events)}
    print(f'{pid} {tier} seed={seed}: {len(results)} cases, '
          f'{len(sigs)} distinct, {wall:.1f}s, events={top}')
    return rc


@contextlib.contextmanager
def patched(obj, name, new):
    old = getattr(obj, name)
    setattr(obj, name, new)
    try:
        yield old
    finally:
        setattr(obj, name, old)
