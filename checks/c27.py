"""
Coherences of random matrices (symmetric, asymmetric and one-sided lag axes,
undefined rows, several references and windows) are recomputed from their
definition; rows are rescaled, reversed, permuted and changed outside the
window and measured again. Objects are averaged, written, read and gridded;
the workflow runs on generated databases with defective parts, and each file it
writes is compared with an independent computation from the generated data.
"""
import copy
import glob
import os
import warnings

import numpy as np

from vlib.core import scenario
from vlib import synth, monproj
from checks.c21 import wavefield
from checks.c24 import plain
from checks.c26 import chooser, steps

ASSUMPTIONS = [
    'lag axes hold a sample at zero lag',
    'undefined samples of a correlation count as zero, coherences of rows '
    'without energy in the window are undefined',
    'windows of the workflow start at the sample nearest to their lapse time',
    'the result of the database workflow agrees within single precision']
REQUIRED = {'coherences': 5000, 'undefined_rows': 80, 'asymmetric': 40,
            'one_sided': 40, 'invariance': 300, 'too_long': 60,
            'stored': 150, 'wildcard': 40, 'grids': 40,
            'components': 100, 'refused': 60, 'files_compared': 100,
            'defective': 8, 'option_lists': 6, 'preprocessed': 8,
            'odd_windows': 3}


def window(n, zero, sides, tw):
    tw = np.asarray(tw)
    if sides == 'single':
        return tw
    if sides == 'left':
        return zero-tw
    if sides == 'right':
        return zero+tw
    return np.unique(np.hstack((zero-tw, zero+tw)))


def oracle(A, ref, idx):
    out = np.full(len(A), np.nan)
    r = np.where(np.isnan(ref), 0, ref)[idx]
    for i, row in enumerate(A):
        d = np.where(np.isnan(row), 0, row)[idx]
        den = np.sqrt(np.sum(d*d))*np.sqrt(np.sum(r*r))
        if den > 0:
            out[i] = np.sum(d*r)/den
    return out


@scenario(quick=400, thorough=15000)
def coherence(ctx):
    """The definition and what follows from it."""
    rng = ctx.rng
    sr = float(rng.choice([1, 5, 10, 25]))
    kind = ctx.pick(['sym', 'sym', 'sym', 'asym', 'causal'])
    a, b = int(rng.integers(30, 80)), int(rng.integers(30, 80))
    if kind == 'sym':
        a = b
    elif kind == 'causal':
        a = 0
        ctx.event('one_sided')
    if kind == 'asym':
        ctx.event('asymmetric', a != b)
    n = a+b+1
    m = int(rng.choice([1, 2, 5, 9]))
    A = rng.standard_normal((m, n))*10.**rng.integers(-15, 12, size=(m, 1))
    sides = ctx.pick(['both', 'left', 'right', 'single'])
    if kind == 'causal':
        sides = ctx.pick(['right', 'single'])
    far = {'both': min(a, b), 'left': a, 'right': b, 'single': n-1}[sides]
    tws = []
    for _ in range(int(rng.choice([1, 1, 2, 3]))):
        i = int(rng.integers(0, far-2))
        tws.append(np.arange(i, int(rng.integers(i+1, far))+1))
    nref = int(rng.choice([1, 1, 2, 3, 11]))
    R = rng.standard_normal((nref, n))
    # rows that are a scaled or reversed copy of a reference
    role = {}
    for i in range(m):
        q = rng.random()
        if q < .15:
            role[i] = int(rng.integers(nref))
            A[i] = R[role[i]]*10.**rng.integers(-3, 4)
        elif q < .3:
            role[i] = -1-int(rng.integers(nref))
            A[i] = -R[-1-role[i]]*2.5
        elif q < .4:
            A[i] = np.nan
            ctx.event('undefined_rows')
        elif q < .45:
            A[i] = 0
        elif q < .55:
            A[i, rng.random(n) < .2] = np.nan
    t0 = synth.rand_time(rng)
    cb = synth.bulk(A, [t0+600*i for i in range(m)], sr=sr,
                    start_lag=-a/sr, length=600., rng=rng)
    ref = R[0] if nref == 1 and rng.random() < .5 else R
    args = (2., 5., .1, 1.)
    ctx.note(kind=kind, sides=sides, refs=nref, rows=m, windows=len(tws))
    A0, R0 = A.copy(), np.array(ref)
    head = repr(dict(cb.stats))
    w = cb.wfc(ref, tws, sides, *args)
    ctx.expect(np.array_equal(cb.data, A0, equal_nan=True) and np.array_equal(
        ref, R0) and repr(dict(cb.stats)) == head, 'input_changed', kind)
    ctx.eq(sorted(w), sorted(f'reftr_{k}' for k in range(nref)), 'references',
           kind)
    ctx.eq(w.wfc_processing, dict(zip(('tw_start', 'tw_len', 'freq_min',
                                       'freq_max'), args)), 'processing', '')
    for k in range(nref):
        want = np.array([oracle(A, R[k], window(n, a, sides, tw))
                         for tw in tws])
        got = np.asarray(w[f'reftr_{k}'])
        ctx.event('coherences', want.size)
        ctx.close(got, want, 'coherence', f'{kind} {sides} reference {k}',
                  rtol=1e-9)
        ok = got[~np.isnan(got)]
        ctx.expect(np.all(np.abs(ok) <= 1+1e-12), 'bounds', kind, got=ok)
        for i, q in role.items():
            if q == k:
                ctx.close(got[:, i], np.ones(len(tws)), 'copy', kind)
            elif -1-q == k and q < 0:
                ctx.close(got[:, i], -np.ones(len(tws)), 'reversed', kind)
    # the same rows, permuted and rescaled, changed outside of the windows
    p = rng.permutation(m)
    B = A[p]*10.**rng.integers(-3, 4, size=(m, 1))
    out = np.setdiff1d(np.arange(n), np.hstack(
        [window(n, a, sides, tw) for tw in tws]))
    B[:, out] = rng.standard_normal((m, len(out)))*1e3
    R2 = np.array(ref)*7.5
    R2[..., out] = 1e4
    c2 = synth.bulk(B, [t0+600*i for i in range(m)], sr=sr, start_lag=-a/sr,
                    length=600., rng=rng)
    w2 = c2.wfc(R2, tws, sides, *args)
    for k in w:
        ctx.event('invariance')
        ctx.close(w2[k], np.asarray(w[k])[:, p], 'invariance',
                  f'{kind} {sides} {k}', rtol=1e-9)
    one = int(rng.integers(m))
    c3 = synth.bulk(A[one:one+1], [t0], sr=sr, start_lag=-a/sr, length=600.,
                    rng=rng)
    w3 = c3.wfc(ref, tws, sides, *args)
    for k in w:
        ctx.close(np.asarray(w3[k])[:, 0], np.asarray(w[k])[:, one],
                  'single_row', f'{kind} {sides} {k}', rtol=1e-9)
    # nothing of the result changes with the matrix
    snap = repr(dict(w.stats))
    cb.trim(-a/sr/2, b/sr/2)
    cb.data[:] = 0
    cb.stats['station'] = 'other'
    ctx.eq(repr(dict(w.stats)), snap, 'header_shared', kind)
    if kind != 'causal':
        long = [np.arange(far-1, far+1+int(rng.integers(1, 4)))]
        ctx.raises(IndexError, lambda: c2.wfc(R2, long, sides, *args),
                   'too_long', f'{kind} {sides}')
        ctx.event('too_long')
    ctx.sig(kind, sides, nref, m, tuple((int(t[0]), len(t)) for t in tws))


def make(ctx, m=None, nref=None, proc=None, t0=None, cha='HHZ-HHZ', sta='A-B'):
    from seismic.monitor.wfc import WFC
    rng = ctx.rng
    m = m or int(rng.choice([1, 2, 6, 15]))
    nref = nref or int(rng.choice([1, 2, 4]))
    d = {}
    for k in range(nref):
        v = rng.uniform(-1, 1, (1, m))
        if rng.random() < .4:
            v[:, rng.random(m) < .4] = np.nan
        if rng.random() < .05:
            v[:] = np.nan
        d[f'reftr_{k}'] = v
    t0 = t0 or synth.rand_time(rng, res=1.)
    b = synth.bulk(np.zeros((m, 5)), [t0+600*i for i in range(m)], sr=1.,
                   start_lag=-2., length=600., rng=rng, cha=cha, sta=sta)
    proc = proc or dict(
        tw_start=float(rng.integers(0, 20)), tw_len=float(rng.integers(1, 9)),
        freq_min=float(rng.uniform(.01, 1)), freq_max=float(rng.uniform(1, 5)))
    return WFC(d, b.stats, dict(proc))


def mean(x):
    x = np.asarray(x, float).ravel()
    x = x[~np.isnan(x)]
    return sum(x)/len(x) if len(x) else np.nan


def check_same(ctx, a, b, what):
    ctx.eq(sorted(b), sorted(a), 'references', what)
    for k in a:
        ctx.expect(np.array_equal(a[k], b[k], equal_nan=True),
                   'values_changed', f'{what} {k}')
    ctx.eq(sorted(b.av), sorted(a.av), 'averages', what)
    for k in a.av:
        ctx.close(b.av[k], a.av[k], 'averages', f'{what} {k}', rtol=1e-12)
    ctx.close(b.mean, a.mean, 'mean', what, rtol=1e-12)
    ctx.eq(b.wfc_processing, a.wfc_processing, 'processing', what)
    ctx.eq({k: type(v) for k, v in b.wfc_processing.items()},
           {k: type(v) for k, v in a.wfc_processing.items()},
           'processing_type', what)
    ctx.eq(sorted(b.stats), sorted(a.stats), 'header_keys', what)
    for k in a.stats:
        x, y = plain(a.stats[k]), plain(b.stats[k])
        ctx.eq(y, x, 'header_changed', f'{what} {k}')


@scenario(quick=150, thorough=4000)
def stored(ctx):
    """Averages, files, wildcards and grids."""
    from seismic.monitor.wfc import read_wfc, WFCBulk
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    ws = {}
    grid = rng.random() < .5
    pairs = [(1., 2.), (3., 5.), (6., 9.)]
    cells = [(f, t) for f in pairs for t in [(0., 4.), (4., 4.), (10., 2.)]]
    rng.shuffle(cells)
    for i in range(n):
        (f1, f2), (t1, t2) = cells[i]
        w = make(ctx, proc=dict(freq_min=float(f1), freq_max=float(f2),
                                tw_start=float(t1), tw_len=float(t2)))
        if rng.random() < .7:
            w.compute_average()
            for k in w:
                ctx.close(w.av[f'{k}_av'], mean(w[k]), 'time_average', k,
                          rtol=1e-12)
            ctx.close(w.mean, mean([mean(w[k]) for k in w]), 'mean', '',
                      rtol=1e-12)
        path = f'{ctx.tmp()}/WFC-XX-XX.A{i}-B.av'
        w.save(path)
        ctx.event('stored')
        ws[path+'.npz'] = w
    for p, w in ws.items():
        r = read_wfc(p)
        check_same(ctx, w, r, 'read')
        r.save(p.replace('WFC', 'copy'))
        check_same(ctx, w, read_wfc(p.replace('WFC', 'copy')), 'read again')
    if n > 1:
        pat = ctx.pick(['WFC-*.npz', 'WFC-XX-XX.A?-B.av.npz'])
        got = read_wfc(f'{ctx.tmp()}/{pat}')
        ctx.event('wildcard')
        ctx.eq(len(got), n, 'wildcard_number', pat)
    if grid:
        lst = list(ws.values()) if rng.random() < .5 else [
            read_wfc(p) for p in ws]
        g = WFCBulk(lst)
        ctx.event('grids')
        fc = sorted({(w.wfc_processing['freq_min'] +
                      w.wfc_processing['freq_max'])/2 for w in lst})
        lw = sorted({w.wfc_processing['tw_start'] +
                     w.wfc_processing['tw_len']/2 for w in lst})
        want = np.full((len(fc), len(lw)), np.nan)
        for w in lst:
            q = w.wfc_processing
            want[fc.index((q['freq_min']+q['freq_max'])/2),
                 lw.index(q['tw_start']+q['tw_len']/2)] = mean(
                [mean(w[k]) for k in w])
        ctx.close(g.wfc, want, 'grid', f'{n}', rtol=1e-10)
        ctx.close(g.cfreq, fc, 'grid_axes', '')
        ctx.close(g.lw, lw, 'grid_axes', '')
    ctx.sig(n, grid, tuple(len(w) for w in ws.values()))


@scenario(quick=150, thorough=4000)
def components(ctx):
    """Averages over components."""
    from seismic.monitor.monitor import average_components_wfc
    rng = ctx.rng
    m, nref = int(rng.choice([1, 3, 8])), int(rng.choice([1, 2, 3]))
    t0 = synth.rand_time(rng, res=1.)
    w0 = make(ctx, m, nref, t0=t0)
    ws = [w0] + [make(ctx, m, nref, w0.wfc_processing, t0, cha=f'HH{c}-HHZ')
                 for c in 'EN12'[:int(rng.integers(0, 5))]]
    ws = [ws[i] for i in rng.permutation(len(ws))]
    keep = copy.deepcopy(ws)
    got = average_components_wfc(ws)
    ctx.event('components')
    for a, b in zip(keep, ws):
        check_same(ctx, a, b, 'input of average')
    ctx.eq(sorted(got), sorted(w0), 'references', 'average')
    for k in got:
        want = np.array([[mean([w[k][0, i] for w in ws]) for i in range(m)]])
        ctx.close(got[k], want, 'component_mean', f'{k} of {len(ws)}',
                  rtol=1e-10)
    s = got.stats
    ctx.eq((s.network, s.station, s.channel), (
        w0.stats.network, w0.stats.station, 'av'), 'codes', 'average')
    ctx.eq(list(s.corr_start), list(w0.stats.corr_start), 'times', 'average')
    got.compute_average()
    got.save(ctx.tmp()+'/WFC-av')
    from seismic.monitor.wfc import read_wfc
    check_same(ctx, got, read_wfc(ctx.tmp()+'/WFC-av.npz'), 'average read')
    k = ctx.pick(['tw_start', 'tw_len', 'freq_min', 'freq_max', 'time'])
    proc = dict(w0.wfc_processing)
    if k == 'time':
        if m == 1 or rng.random() < .5:
            bad = make(ctx, m, nref, proc, t0+ctx.pick([600, 86400*365]))
        else:
            bad = make(ctx, m-1, nref, proc, t0)
    else:
        proc[k] += .5
        bad = make(ctx, m, nref, proc, t0)
    ws.insert(int(rng.integers(0, len(ws)+1)), bad)
    ctx.raises(ValueError, lambda: average_components_wfc(ws),
               'mixed', k)
    ctx.event('refused')
    ctx.sig(m, nref, len(ws), k)


@scenario(quick=40, thorough=1000, timeout=300, weight=5)
def workflow(ctx):
    """All combinations of a database, some of which are defective."""
    from seismic.monitor.monitor import Monitor
    from seismic.monitor.wfc import read_wfc
    rng = ctx.rng
    p = monproj.Project(ctx, wavefield)
    bad = None
    if len(p.combos) > 1 and rng.random() < .5:
        bad = ctx.pick(sorted(p.combos))
        p.combos[bad]['data'][:] = np.nan
        ctx.event('defective')
    p.write()
    if rng.random() < .4:
        with open(p.file('ZZ-ZZ', 'BAD-BAD'), 'wb') as fh:
            fh.write(b'not a database' if rng.random() < .5 else b'')
        ctx.event('defective')
    opt = p.options()
    o = opt['wfc']
    if rng.random() < .5:
        ctx.event('option_lists')
        o['freq_min'] = [f*p.sr for f in ctx.pick([
            (.02, .05), (.02, .02), (.05, .02, .08), (.03, .05, .05)])]
        o['freq_max'] = [f*p.sr for f in (.1, .2, .3)[:len(o['freq_min'])]]
        if len(set(o['freq_min'])) == 3 and rng.random() < .5:
            o['freq_max'][1:] = [.2*p.sr]*2
        o['tw_start'], o['tw_len'] = ctx.pick([
            ([1., 3.3], [5., 4.1]), ([1., 3.3], 5.), ([2., 2.], [5., 6.3]),
            ([1., 3.3], [5., 5.])])
    elif rng.random() < .3:
        # one window beyond the end or too short, next to one that is fine
        o['tw_start'] = [1.]
        o['tw_len'] = [5.]
        at = int(rng.integers(2))
        a, b = ctx.pick([(2., p.save_len), (p.save_len-1., 5.), (0., 9/p.sr)])
        o['tw_start'].insert(at, a)
        o['tw_len'].insert(at, b)
        ctx.event('odd_windows')
    if rng.random() < .3:
        o['win_len'] = 43200
    elif rng.random() < .3:
        o['date_inc'] = o['win_len'] = 10800
    if rng.random() < .2:
        o['start_date'] = str(p.t0-43200)
    if rng.random() < .2:
        o['end_date'] = str(p.t0+p.days*86400+7*3600)
    o['dt_ref']['method'] = ctx.pick(['mean', 'mean', 'median'])
    o['preprocessing'] = steps(ctx, p)
    if rng.random() < .2 and not o['preprocessing']:
        o.pop('preprocessing')
    o['save_comps'] = bool(rng.random() < .7)
    keep = repr(opt)
    m = Monitor(opt)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.compute_waveform_coherence_bulk()
    ctx.eq(repr(opt), keep, 'options_changed', 'workflow')
    fs = o['freq_min'] if isinstance(o['freq_min'], list) else [o['freq_min']]
    fe = o['freq_max'] if isinstance(o['freq_max'], list) else [o['freq_max']]
    ts = o['tw_start'] if isinstance(o['tw_start'], list) else [o['tw_start']]
    tl = o['tw_len'] if isinstance(o['tw_len'], list) else [
        o['tw_len']]*len(ts)
    from checks.c26 import axis
    starts = axis(o)
    pre = o.get('preprocessing', [])
    sel = chooser(p, pre)
    want, groups = {}, {}
    for key in p.combos:
        if not any(sel(t) for t in p.combos[key]['starts']):
            continue
        for f1, f2 in zip(fs, fe):
            for a, b in zip(ts, tl):
                if a+b > p.save_len or round(2*(a+b)*p.sr)+1 <= 20:
                    continue
                cb = p.bulk(key, starts, o['win_len'], sel)
                cb.filter((f1, f2))
                for f in pre:
                    if f['function'] not in ('select_time', 'pop_at_utcs'):
                        cb = getattr(cb, f['function'])(**f['args'])
                k0 = int(round(-cb.stats.start_lag*p.sr))
                idx = window(len(p.lag), k0, 'both', np.arange(
                    round(a*p.sr), round((a+b)*p.sr)))
                X = cb.data
                ok = ~np.isnan(X).all(axis=1)
                ref = getattr(np, o['dt_ref']['method'])(
                    X[ok], axis=0) if ok.any() else np.full(
                    X.shape[1], np.nan)
                w = oracle(X, ref, idx)
                tail = f'f{f1!r}-{f2!r}.tw{a!r}-{b!r}'
                if o['save_comps']:
                    want['WFC-%s.%s.%s.' % key + tail] = w
                groups.setdefault('WFC-%s.%s.av.' % key[:2] + tail, []
                                  ).append(w)
    for k, v in groups.items():
        want[k] = np.array([mean([w[i] for w in v])
                            for i in range(len(starts))])
    got = {os.path.basename(f)[:-4]: f for f in glob.glob(
        f'{p.root}/wfc/*.npz')}
    ctx.note(combos=len(p.combos), files=len(want), bad=str(bad))
    ctx.eq(sorted(got), sorted(want), 'files', 'workflow')
    for k, w in want.items():
        r = read_wfc(got[k])
        ctx.event('files_compared')
        ctx.eq(list(r), ['reftr_0'], 'references', k)
        ctx.close(np.asarray(r['reftr_0'])[0], w, 'coherence', k, rtol=2e-5)
        ctx.eq([t.timestamp for t in r.stats.corr_start], starts.tolist(),
               'times', k)
        if '.av.' not in k:
            ctx.close(r.mean, mean(w), 'mean', k, rtol=2e-5)
    ctx.sig(len(p.combos), len(fs), len(ts), bad is not None, p.sr)
