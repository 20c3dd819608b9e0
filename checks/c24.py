"""
Velocity-change objects with and without similarity matrix, with undefined
times and elements, single times, scatter and partial processing information
pass through random histories of save, read (by name and wildcard, next to
damaged files) and smoothing. After each step the object is compared with an
own model of it: smoothing is recomputed element by element, and files are
compared with what was written.
"""
import warnings

import numpy as np

from vlib.core import scenario
from vlib import synth
from checks.c21 import wavefield

ASSUMPTIONS = [
    'a smoothing window of n samples reaches int(n/2) samples to both sides '
    'and ends at the ends of the time axis',
    'the threshold applies to the elements of the similarity matrix',
    'lists in headers may be returned as arrays with the same elements']
REQUIRED = {'printed': 200, 'saved': 400, 'read': 400, 'wildcard': 60, 'damaged': 30,
            'smoothed': 300, 'threshold': 100, 'undefined_times': 100,
            'single_time': 30, 'negative_only': 30, 'no_matrix': 20,
            'scatter': 60, 'became_undefined': 20, 'filled': 30}


def header(ctx, m, n=41, codes=None):
    rng = ctx.rng
    t0 = synth.rand_time(rng, res=1.)
    inc = float(rng.choice([60, 600, 3600, 86400]))
    kw = {} if codes is None else dict(codes)
    b = synth.bulk(rng.standard_normal((m, n)), [t0+inc*i for i in range(m)],
                   sr=float(rng.choice([1, 5, 25])), start_lag=-2.,
                   length=inc, rng=rng, **kw)
    return b.stats


def rand_processing(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < .2:
        return {}
    out = dict(freq_min=float(rng.uniform(.01, 1)),
               freq_max=float(rng.uniform(1, 5)),
               tw_start=float(rng.integers(0, 20)),
               tw_len=float(rng.integers(5, 60)))
    if rng.random() < .6:
        out['sides'] = ctx.pick(['both', 'left', 'right', 'single'])
    if rng.random() < .5:
        out['aligned'] = [False, 0., -.0125][int(rng.integers(3))]
    return out


def make(ctx, m=None, k=None, matrix=True):
    from seismic.monitor.dv import DV
    rng = ctx.rng
    m = m or int(rng.choice([1, 2, 3, 7, 15, 30]))
    k = k or int(rng.choice([3, 11, 41]))
    if m == 1:
        ctx.event('single_time')
    second = np.linspace(-.03, .03, k)
    sim = rng.uniform(-1, 1, (m, k))
    r = rng.random()
    if r < .25:
        sim = -np.abs(sim)-1e-3
        ctx.event('negative_only')
    if rng.random() < .5:
        for i in range(m):
            if rng.random() < .3:
                sim[i] = np.nan
        ctx.event('undefined_times', int(np.isnan(sim).all(axis=1).any()))
    if rng.random() < .4:
        q = int(rng.integers(1, k))
        sim[rng.random((m, k)) < .1*q/k] = np.nan
        # ends of the grid undefined, as left by several references
        i = int(rng.integers(m))
        sim[i, -q:] = np.nan
    corr, value = best(sim, second)
    extra = {}
    if rng.random() < .3:
        nst = int(rng.integers(1, 4))
        extra = dict(stretches=rng.choice(second, (nst, m)),
                     corrs=rng.uniform(-1, 1, (nst, m)),
                     n_stat=rng.integers(0, nst+1, m))
        if rng.random() < .3:
            # only some of them are known
            for k in rng.permutation(list(extra))[:int(rng.integers(1, 3))]:
                del extra[k]
            ctx.event('partly_scatter')
        ctx.event('scatter')
    if not matrix:
        ctx.event('no_matrix')
        sim = np.array([])
    method = ctx.pick(['single_ref', 'time_shift', 'multi_ref'])
    dv = DV(corr.copy(), value.copy(), ctx.pick(['stretch', 'shift']),
            sim.copy(), second.copy(), method, header(ctx, m),
            dv_processing=rand_processing(ctx), **extra)
    ctx.note(times=m, grid=k, matrix=matrix, scatter=bool(extra))
    return dv


def best(sim, second):
    m = len(sim)
    corr, value = np.full(m, np.nan), np.full(m, np.nan)
    for i in range(m):
        for j in range(len(second)):
            if not np.isnan(sim[i, j]) and not sim[i, j] <= corr[i]:
                corr[i], value[i] = sim[i, j], second[j]
    return corr, value


def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def snapshot(dv):
    out = {k: (None if getattr(dv, k) is None else np.array(getattr(dv, k)))
           for k in ('corr', 'value', 'sim_mat', 'second_axis', 'stretches',
                     'corrs', 'n_stat', 'avail')}
    out['method'], out['value_type'] = str(dv.method), str(dv.value_type)
    out['stats'] = {k: plain(dv.stats[k]) for k in dv.stats}
    p = dv.dv_processing
    if p:
        p = {k: p[k] for k in ('freq_min', 'freq_max', 'tw_start', 'tw_len')
             if k in p} | dict(sides=p.get('sides', 'unknown'),
                               aligned=p.get('aligned', False))
    out['processing'] = p
    return out


def same(ctx, a, b, where):
    """All parts of two snapshots are equal."""
    for k in ('corr', 'value', 'sim_mat', 'second_axis', 'stretches', 'corrs',
              'n_stat', 'avail'):
        if a[k] is None or b[k] is None:
            ctx.expect(a[k] is None and b[k] is None, 'part_lost',
                       f'{where}: {k}', got=b[k], want=a[k])
            continue
        ctx.eq((a[k].shape, a[k].dtype.kind), (b[k].shape, b[k].dtype.kind),
               'shape_or_type', f'{where} {k}')
        ctx.expect(np.array_equal(a[k], b[k], equal_nan=k != 'avail'),
                   'values_changed', f'{where}: {k}', got=b[k], want=a[k])
    for k in ('method', 'value_type'):
        ctx.eq(b[k], a[k], 'metadata_changed', f'{where} {k}')
    ctx.eq(sorted(b['stats']), sorted(a['stats']), 'header_keys', where)
    for k, v in a['stats'].items():
        g = b['stats'][k]
        if k in ('corr_start', 'corr_end', 'starttime', 'endtime'):
            ctx.expect(isinstance(g, list) and len(g) == len(v) and all(
                abs(x-y) < 2e-6 for x, y in zip(g, v)), 'times_changed',
                f'{where} {k}', got=g, want=v)
        else:
            ctx.eq(g, v, 'header_changed', f'{where} {k}')
    ctx.eq(b['processing'], a['processing'], 'processing_changed', where)
    for k, v in (a['processing'] or {}).items():
        g = b['processing'][k]
        ctx.eq(type(g), type(v), 'processing_type', f'{where} {k}')
    if b['avail'] is not None:
        ctx.expect(np.array_equal(b['avail'], ~np.isnan(b['corr'])),
                   'availability', where)


def write(ctx, dv, path):
    before = snapshot(dv)
    dv.save(path)
    ctx.event('saved')
    same(ctx, before, snapshot(dv), 'object after saving')
    return before


def summary(ctx, dv, snap):
    """The printed summary states what the object holds."""
    txt = str(dv)
    ctx.event('printed')
    st = dv.stats
    code = f'{st["network"]}.{st["station"]}.'
    ctx.expect(code in txt, 'summary', 'codes', got=txt)
    if isinstance(st['channel'], str):
        ctx.expect(code + st['channel'] in txt, 'summary', 'channel', got=txt)
    lines = txt.splitlines()
    for t, what, key in ((min(st['corr_start']), 'first time', 'start'),
                         (max(st['corr_end']), 'last time', 'end')):
        ctx.expect(any(t.ctime() in x and key in x for x in lines),
                   'summary', what, got=txt, want=t)
    kind = 'Time shift' if str(dv.method) == 'time_shift' else str(
        dv.value_type)
    ctx.expect(kind in txt, 'summary', 'kind', got=txt, want=kind)


@scenario(quick=200, thorough=6000)
def stored(ctx):
    """Objects that are written and read, alone and through wildcards."""
    from seismic.monitor.dv import read_dv
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    d = ctx.tmp()
    want = {}
    for i in range(n):
        dv = make(ctx, matrix=rng.random() < .85)
        name = f'{d}/DV-XX-XX.A{i}-B.HHZ-HH{"ZNE"[i % 3]}'
        if rng.random() < .3:
            name += '.npz'
        want[name.removesuffix('.npz') + '.npz'] = write(ctx, dv, name)
        if rng.random() < .3:
            # written once more, from another object
            dv = make(ctx, matrix=rng.random() < .85)
            want[name.removesuffix('.npz') + '.npz'] = write(ctx, dv, name)
    for p, snap in want.items():
        got = read_dv(p)
        ctx.event('read')
        same(ctx, snap, snapshot(got), 'read')
        summary(ctx, got, snap)
        # second generation
        got.save(p.replace('DV-', 'copy-'))
        again = read_dv(p.replace('DV-', 'copy-'))
        same(ctx, snap, snapshot(again), 'read again')
        same(ctx, snap, snapshot(read_dv(p)), 'first file')
    if n > 1:
        if rng.random() < .5:
            with open(f'{d}/DV-damaged.npz', 'wb') as fh:
                p = sorted(want)[0]
                with open(p, 'rb') as src:
                    raw = src.read()
                fh.write(raw[:len(raw)//2])
            ctx.event('damaged')
            pat = f'{d}/DV-*.npz'
        else:
            pat = ctx.pick([f'{d}/DV-*', f'{d}/DV-XX-XX.A?-B.HHZ-HH?.npz'])
        with warnings.catch_warnings(record=True):
            got = read_dv(pat)
        ctx.event('wildcard')
        ctx.eq(len(got), n, 'wildcard_number', pat)
        left = [snapshot(g) for g in got]
        for snap in want.values():
            for j, g in enumerate(left):
                if g['corr'].shape == snap['corr'].shape and np.array_equal(
                        g['corr'], snap['corr'], equal_nan=True) and (
                        g['stats'].get('stla') == snap['stats'].get('stla')):
                    same(ctx, snap, g, 'wildcard')
                    del left[j]
                    break
            else:
                ctx.fail('wildcard_content', 'object not found')
    ctx.raises(FileNotFoundError, lambda: read_dv(f'{d}/none*.npz'),
               'missing_not_reported', 'wildcard without files')
    ctx.sig(n, tuple(s['corr'].shape[0] for s in want.values()),
            tuple(bool(s['processing']) for s in want.values()))


def smoothed(sim, win, thres):
    s = sim.copy()
    m, k = s.shape
    if thres is not None:
        for i in range(m):
            for j in range(k):
                if s[i, j] < thres:
                    s[i, j] = np.nan
    h = int(win/2)
    out = np.full(s.shape, np.nan)
    for i in range(m):
        for j in range(k):
            v = [s[q, j] for q in range(max(0, i-h), min(m, i+h+1))
                 if not np.isnan(s[q, j])]
            if v:
                out[i, j] = sum(v)/len(v)
    return out


@scenario(quick=200, thorough=5000)
def histories(ctx):
    """Smoothing, saving and reading in any order."""
    from seismic.monitor.dv import read_dv
    rng = ctx.rng
    dv = make(ctx, k=int(rng.choice([3, 9, 15])))
    second = dv.second_axis.copy()
    sim = dv.sim_mat.copy()
    hist = []
    for step in range(int(rng.integers(1, 5))):
        op = ctx.pick(['smooth', 'smooth', 'save', 'threshold'])
        if op == 'save':
            snap = write(ctx, dv, f'{ctx.tmp()}/DV{step}')
            dv = read_dv(f'{ctx.tmp()}/DV{step}.npz')
            ctx.event('read')
            same(ctx, snap, snapshot(dv), 'read')
            hist.append('save')
            continue
        win = int(rng.choice([1, 2, 3, 4, 5, 8, 21]))
        thres = None
        if op == 'threshold':
            thres = float(rng.choice([-2., -.5, 0., .3, .6, .9]))
            ctx.event('threshold')
        before = snapshot(dv)
        out = dv.smooth_sim_mat(win, thres) if thres is not None else \
            dv.smooth_sim_mat(win)
        ctx.event('smoothed')
        hist.append((win, thres))
        ctx.note(history=hist)
        ctx.expect(out is dv, 'not_in_place', 'smooth_sim_mat')
        want = smoothed(sim, win, thres)
        ctx.close(dv.sim_mat, want, 'smoothed_similarity', f'{hist}',
                  rtol=1e-10)
        sim = want
        check_best(ctx, dv, want, second, hist)
        was = np.isnan(before['corr'])
        now = np.isnan(dv.corr)
        ctx.event('became_undefined', int((now & ~was).any()))
        ctx.event('filled', int((was & ~now).any()))
        after = snapshot(dv)
        for k in ('second_axis', 'stretches', 'corrs', 'n_stat', 'stats',
                  'processing', 'method', 'value_type'):
            a, b = before[k], after[k]
            if isinstance(a, np.ndarray):
                a, b = a.tolist(), b.tolist()
            ctx.eq(b, a, 'other_parts_changed', f'{k} by smoothing')
    ctx.sig(dv.corr.size, tuple(hist))


def check_best(ctx, dv, want, second, what):
    corr, _ = best(want, second)
    ctx.close(dv.corr, corr, 'maximum', f'{what}', rtol=1e-10)
    ctx.eq(np.isnan(dv.value).tolist(), np.isnan(corr).tolist(),
           'undefined_values', f'{what} value')
    ctx.expect(np.array_equal(dv.avail, ~np.isnan(corr)), 'availability',
               f'{what}', got=dv.avail, want=~np.isnan(corr))
    for i in np.where(~np.isnan(corr))[0]:
        j = np.where(second == dv.value[i])[0]
        ctx.expect(len(j) == 1 and want[i, j[0]] >= corr[i]-1e-10,
                   'value_not_at_maximum',
                   f'{what} time {i}: value {dv.value[i]}',
                   row=want[i], second=second)


@scenario(quick=40, thorough=1500)
def measured(ctx):
    """Measurements of real correlations, smoothed before or after reading."""
    from seismic.monitor.dv import read_dv
    rng = ctx.rng
    sr, half = 5., 90
    t = np.arange(-half, half+1)/sr
    r = wavefield(rng, sr, half/sr)
    m = int(rng.choice([1, 4, 9]))
    grid = np.linspace(-.03, .03, 31)
    step = grid[1]-grid[0]
    e = int(rng.integers(-10, 11))
    A = np.array([r(t*np.exp(-e*step)) for _ in range(m)])
    A += .02*np.std(A)*rng.standard_normal(A.shape)
    bad = rng.random(m) < .25
    if bad.all():
        bad[0] = False
    A[bad] = np.nan
    t0 = synth.rand_time(rng, res=1.)
    b = synth.bulk(A, [t0+600*i for i in range(m)], sr=sr,
                   start_lag=float(t[0]), length=600., rng=rng)
    proc = rand_processing(ctx)
    dv = b.stretch(ref_trc=r(t), tw=[np.arange(5, 80)], stretch_range=.03,
                   stretch_steps=31, return_sim_mat=True, processing=proc)
    sim = np.array(dv.sim_mat)
    ctx.expect(np.array_equal(dv.avail, ~bad), 'availability', 'measured',
               got=dv.avail, want=~bad)
    for v in dv.value[~bad]:
        ctx.expect(abs(v-e*step) < 1.5*step, 'measurement', 'value', got=v,
                   want=e*step)
    path = f'{ctx.tmp()}/DV-x'
    snap = write(ctx, dv, path)
    other = read_dv(path + '.npz')
    ctx.event('read')
    same(ctx, snap, snapshot(other), 'read')
    win = int(rng.choice([1, 3, 5]))
    dv.smooth_sim_mat(win)
    other.smooth_sim_mat(win)
    ctx.event('smoothed', 2)
    same(ctx, snapshot(dv), snapshot(other), 'smoothed after reading')
    want = smoothed(sim, win, None)
    ctx.close(dv.sim_mat, want, 'smoothed_similarity', 'measured', rtol=1e-10)
    check_best(ctx, dv, want, grid, 'measured')
    for v in dv.value[dv.avail]:
        ctx.expect(abs(v-e*step) < 1.5*step, 'smoothed_measurement', 'value',
                   got=v, want=e*step)
    ctx.sig(m, e, win, bad.tolist())
