"""
Histories of correlation runs on one database (repeated, extended in time,
by stations, channels or methods, ended by a crash before a random file
access and resumed, one or several processes) are compared with an
independent model of the uninterrupted run; a monitor counts the correlation
matrices computed by a repeated run.
"""
import os
import shutil

import numpy as np

from vlib.core import scenario, Inconclusive, patched
from vlib import archive
from checks import c10

REQUIRED = {'runs': 1000, 'crashes': 100, 'killed_processes': 8,
            'reruns_without_computation': 100,
            'correlations_compared': 3000, 'stacks_compared': 100}
ASSUMPTIONS = [
    'a crash happens before a database file is opened or waveforms are read, '
    'never within the HDF5 library',
    'batches do not overlap where their stacks are compared',
    'the subdivisions are kept (delete_subdivision false) where a repeated '
    'run must not compute']


class Crash(BaseException):
    pass


class hooked:
    """Count file accesses; crash before the n-th of one kind."""
    def __init__(self, what=None, n=0):
        self.what, self.n = what, n
        self.count = dict(write=0, read=0, corr=0)

    def tick(self, what):
        if self.what == what and self.count[what] == self.n:
            raise Crash()
        self.count[what] += 1

    def __enter__(self):
        import h5py
        from obspy.clients.filesystem.sds import Client
        from seismic.correlate.correlate import Correlator
        me = self
        self.cms = []
        old = h5py.File.__init__

        def init(s, name, mode='r', *a, **k):
            if mode != 'r':
                me.tick('write')
            return old(s, name, mode, *a, **k)
        old2 = Client.get_waveforms

        def get(s, *a, **k):
            me.tick('read')
            return old2(s, *a, **k)
        hooks = [(h5py.File, '__init__', init),
                 (Client, 'get_waveforms', get)]
        if hasattr(Correlator, '_pxcorr_matrix'):
            old3 = Correlator._pxcorr_matrix

            def corr(s, *a, **k):
                me.tick('corr')
                return old3(s, *a, **k)
            hooks.append((Correlator, '_pxcorr_matrix', corr))
        for h in hooks:
            cm = patched(*h)
            cm.__enter__()
            self.cms.append(cm)
        return self

    def __exit__(self, *e):
        for cm in reversed(self.cms):
            cm.__exit__(None, None, None)
        archive.close_logs()
        return e[0] is Crash


def setup(ctx, **force):
    simple = ctx.chance(.7)
    cfg = c10.Config(ctx, small=True, simple=simple,
                     **dict(dict(delete=False, fine=False), **force))
    if not simple and cfg.recombine:
        cfg.recombine = cfg.opt['recombine'] = False
    path = ctx.tmp()
    if not cfg.write(path) or not any(r.segs for r in cfg.used):
        return None, None
    if cfg.comp == 'Z' and not any(
            r.cha[-1] == 'Z' and r.segs for r in cfg.recs):
        return None, None
    return cfg, path


def same(ctx, a, b, mech, msg='', skip=()):
    ctx.eq(sorted(a), sorted(b), mech, msg + ' entries')
    for k in a:
        ctx.expect(np.array_equal(a[k][0], b[k][0], equal_nan=True)
                   and a[k][0].dtype == b[k][0].dtype, mech,
                   f'{msg} values of {k}')
        x, y = ({q: repr(v) for q, v in d[k][1].items() if q not in skip}
                for d in (a, b))
        ctx.expect(x == y, mech, f'{msg} attributes of {k}: ' + str([
            (q, x.get(q), y.get(q)) for q in sorted(set(x) | set(y))
            if x.get(q) != y.get(q)]))


@scenario(quick=140, thorough=2500, weight=3, timeout=200)
def rerun(ctx):
    cfg, path = setup(ctx)
    if cfg is None:
        return
    corr = os.path.join(path, 'corr')
    with hooked() as h:
        cfg.run(path)
    ctx.event('runs')
    first = archive.dump_db(corr)
    c10.compare_db(ctx, cfg, first, cfg.expected())
    for i in range(2):
        kw = {}
        if i and ctx.chance(.5):
            kw['subdiv'] = True
            h.count['corr'] = 0
        with hooked() as h2:
            cfg.run(path, **kw)
        ctx.event('runs')
        same(ctx, archive.dump_db(corr), first, 'rerun_changes',
             f'rerun {i} {kw}')
        if h.count['corr']:
            ctx.expect(not h2.count['corr'], 'rerun_computes',
                       f'{h2.count["corr"]} correlation matrices computed '
                       f'again ({h.count["corr"]} in the first run)')
            ctx.event('reruns_without_computation')


@scenario(quick=200, thorough=4000, weight=4, timeout=300)
def crash(ctx):
    """Crash before random accesses, resume until one run gets through."""
    cfg, path = setup(ctx)
    if cfg is None:
        return
    corr = os.path.join(path, 'corr')
    crashed = 0
    for i in range(int(ctx.rng.integers(1, 5))):
        kind = ctx.pick(['write', 'write', 'read', 'corr'])
        done = False
        with hooked(kind, int(ctx.rng.integers(0, 9))):
            cfg.run(path)
            done = True
        ctx.event('runs')
        if done:
            break
        crashed += 1
        ctx.event('crashes')
    ctx.sig('crashes', crashed)
    cfg.run(path)
    ctx.event('runs')
    c10.compare_db(ctx, cfg, archive.dump_db(corr), cfg.expected(),
                   f'after {crashed} crashes')
    c10.check_files(ctx, cfg, corr)


@scenario(quick=260, thorough=5000, weight=4, timeout=300)
def extend(ctx):
    """Time ranges, stations, channels and methods added in any order."""
    method = ctx.pick(['betweenStations', 'allSimpleCombinations',
                       'autoComponents', 'betweenComponents', 'mixed'])
    cfg, path = setup(ctx, method='betweenComponents' if method == 'mixed'
                      else method, comp='*')
    if cfg is None:
        return
    corr = os.path.join(path, 'corr')
    rng = ctx.rng
    nb = int(np.ceil((cfg.end-cfg.start)/cfg.opt['read_inc'] - 1e-9))
    inc = cfg.opt['read_inc']
    overlap = cfg.opt['read_inc'] < cfg.opt['read_len']
    have = {r.id[:2] for r in cfg.recs if r.segs}
    want = {}
    runs = []
    cfg.wanted = cfg.args['wanted'] = cfg.opt['xcombis'] = None
    nrun = int(rng.integers(2, 5))
    for i in range(nrun):
        a, b = 0, nb
        kw, mod = {}, {}
        if i < nrun-1:
            if rng.random() < .6 and nb > 1:
                if overlap:
                    b = int(rng.integers(1, nb+1))
                else:
                    a = int(rng.integers(0, nb))
                    b = int(rng.integers(a+1, nb+1))
        if i < nrun-1 or overlap is False and rng.random() < .2:
            u = rng.random()
            stas = sorted(have)
            if u < .35 and len(stas) > 1:
                s = [stas[int(j)] for j in
                     rng.permutation(len(stas))[:max(1, len(stas)-1)]]
                kw.update(net=[q[0] for q in s], sta=[q[1] for q in s])
                mod['stas'] = set(s)
            elif u < .6:
                comp = str(ctx.pick(['Z', 'E']))
                if any(r.cha[-1] == comp and r.segs for r in cfg.recs):
                    kw['comp'] = comp
                    mod['comp'] = comp
        if overlap and mod:
            b = nb
        m = method
        if method == 'mixed':
            m = str(ctx.pick(['betweenComponents', 'autoComponents',
                              'betweenStations', 'allSimpleCombinations']))
            kw['method'] = m
        used = [r for r in cfg.recs if r.segs
                and ('stas' not in mod or r.id[:2] in mod['stas'])
                and ('comp' not in mod or r.cha[-1] == mod['comp'])]
        t0 = cfg.start + a*inc
        t1 = cfg.end if b == nb else cfg.start + b*inc
        runs.append((str(t0), str(t1), kw))
        cfg.run(path, t0, t1, **kw)
        ctx.event('runs')
        cfg.used = used
        for k, v in cfg.expected(t0, t1, method=m).items():
            want.setdefault(k, v)
        if os.path.isdir(corr):
            c10.compare_db(ctx, cfg, archive.dump_db(corr), want,
                           f'after runs {runs}')
    ctx.note(runs=runs)


@scenario(quick=60, thorough=900, weight=3, timeout=300)
def growth(ctx):
    """Stations whose data arrive after a first run are added."""
    cfg, path = setup(ctx, method=str(ctx.pick(
        ['betweenStations', 'allSimpleCombinations', 'allCombinations'])),
        nsta=3)
    if cfg is None:
        return
    corr = os.path.join(path, 'corr')
    late = ctx.pick(sorted({r.id[:2] for r in cfg.recs}))
    hide = os.path.join(path, 'hidden')
    old = cfg.used
    for root, dirs, _ in os.walk(os.path.join(path, 'mseed')):
        for d in dirs:
            if (os.path.basename(root), d) == late:
                src = os.path.join(root, d)
                os.makedirs(hide, exist_ok=True)
                shutil.move(src, os.path.join(
                    hide, os.path.basename(os.path.dirname(src)) + '_' + d
                    + '_' + os.path.basename(os.path.dirname(root))))
                ctx.moved = getattr(ctx, 'moved', []) + [
                    (os.path.join(hide, os.path.basename(
                        os.path.dirname(src)) + '_' + d + '_'
                        + os.path.basename(os.path.dirname(root))), src)]
    rest = [r for r in old if r.id[:2] != late and r.segs]
    want = {}
    if rest:
        cfg.run(path)
        ctx.event('runs')
        cfg.used = rest
        want = cfg.expected()
        if os.path.isdir(corr):
            c10.compare_db(ctx, cfg, archive.dump_db(corr), want)
    for a, b in getattr(ctx, 'moved', []):
        os.makedirs(os.path.dirname(b), exist_ok=True)
        shutil.move(a, b)
    cfg.run(path)
    ctx.event('runs')
    cfg.used = old
    for k, v in cfg.expected().items():
        want.setdefault(k, v)
    c10.compare_db(ctx, cfg, archive.dump_db(corr), want, f'late {late}')


@scenario(quick=26, thorough=300, weight=9, timeout=500)
def processes(ctx):
    """Real processes, ended without notice, resumed by one or several."""
    cfg, path = setup(ctx)
    if cfg is None:
        return
    kills = []
    for _ in range(int(ctx.rng.integers(1, 3))):
        kill = f'{ctx.pick(["write", "read"])}:{int(ctx.rng.integers(0, 7))}'
        rc, out, err = c10.launch(ctx, cfg, path, 1, kill)
        if rc == 'timeout' or 'started' not in out:
            raise Inconclusive(f'no start {rc} {err[-400:]}')
        ctx.expect(rc == 9 or rc == 0, 'failed', f'{rc} {err[-1000:]}')
        ctx.event('runs')
        if rc == 9:
            kills.append(kill)
            ctx.event('killed_processes')
    nproc = int(ctx.pick([1, 2, 4]))
    rc, out, err = c10.launch(ctx, cfg, path, nproc)
    ctx.event('runs')
    if rc == 'timeout':
        if 'started' not in out:
            raise Inconclusive('processes did not start: ' + err[-300:])
        ctx.fail('deadlock', f'{nproc} processes did not finish after '
                 f'{kills}')
        return
    if 'started' not in out and 'Traceback' not in err:
        raise Inconclusive(f'mpirun failed {rc}: {err[-500:]}')
    ctx.expect(rc == 0 and 'finished' in out, 'failed',
               f'{nproc} processes: {rc} {err[-1500:]}')
    corr = os.path.join(path, 'corr')
    c10.compare_db(ctx, cfg, archive.dump_db(corr), cfg.expected(),
                   f'{nproc} processes after {kills}')
    before = archive.dump_db(corr)
    rc, out, err = c10.launch(ctx, cfg, path, int(ctx.pick([1, 2, 3])))
    if rc == 0:
        ctx.event('runs')
        same(ctx, archive.dump_db(corr), before, 'rerun_changes')
