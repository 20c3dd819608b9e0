"""
Correlations are made by delaying an analytic reference by known times, on
symmetric, asymmetric, causal and acausal lag axes, with random amplitudes,
noise and undefined rows; the real code measures the shifts in one or several
windows. Similarities are recomputed with another spline, single, rescaled and
permuted rows are measured again, and corrected correlations are compared with
the reference and measured once more.
"""
import numpy as np
from scipy.interpolate import make_interp_spline

from vlib.core import scenario
from vlib import synth
from checks.c21 import wavefield, consistent

ASSUMPTIONS = [
    'a positive value of measure_shift is one that apply_shift with the same '
    'value produces; one of find_clock_shift is a delay in samples, as '
    'time_shift_apply produces it',
    'the sample at the end of a window may or may not take part, and the one '
    'at zero lag may count on both sides',
    'corrected samples are linearly interpolated: shifts by parts of samples '
    'are restored to the precision of that']
REQUIRED = {'shifts_recovered': 600, 'similarities_recomputed': 5000,
            'undefined_rows': 100, 'single_rows_compared': 250,
            'rescaled': 80, 'corrected': 150, 'there_and_back': 300,
            'several_windows': 150, 'no_window': 60, 'clock_shifts': 200}


TOL = 1e-6


def setup(ctx, noise=0., nrow=None, small=False, integer=None, sides=None):
    rng = ctx.rng
    sr = float(rng.choice([1, 4, 5, 10, 25, 50]))
    half = int(rng.integers(90, 120 if small else 200))
    sides = sides or ctx.pick(['both', 'single'])
    axis = ctx.pick(['symmetric', 'symmetric', 'long_right', 'long_left']
                    + ['causal', 'acausal']*(sides == 'single'))
    a, e = half, half
    if axis == 'long_right':
        e = half + int(rng.integers(1, 60))
    elif axis == 'long_left':
        a = half + int(rng.integers(1, 60))
    elif axis == 'causal':
        a, e = -int(rng.integers(0, 20)), 2*half
    elif axis == 'acausal':
        a, e = 2*half, -int(rng.integers(0, 20))
    idx = np.arange(-a, e+1)
    t = idx/sr
    r = wavefield(rng, sr, half/sr)
    m = nrow or int(rng.integers(2, 7))
    k = int(rng.integers(3, 15))    # range in samples
    srange = k/sr
    sub = int(rng.choice([1, 2, 5]))
    steps = 2*k*sub+1
    grid = np.linspace(-srange, srange, steps)
    integer = rng.random() < .6 if integer is None else integer
    if integer:
        true = rng.integers(-k+1, k, m)/sr
    else:
        true = rng.uniform(-.9, .9, m)*srange
    A = np.array([r(t+s) for s in true])
    ref = r(t)
    if noise:
        A = A + noise*rng.standard_normal(A.shape)*np.std(ref)
    amp = 10.**rng.integers(-4, 5, size=(m, 1))*rng.uniform(.5, 2, (m, 1))
    A = A*amp
    bad = np.zeros(m, bool)
    for i in range(m):
        if rng.random() < .12 and m > 2:
            A[i] = np.nan
            bad[i] = True
            ctx.event('undefined_rows')
    if bad.all():
        A[0], bad[0] = r(t+true[0]), False
    # windows that leave room for the shifts
    lo, hi = -a+k, e-k
    if sides == 'both':
        lo, hi = 0, half-k
    nw = int(rng.choice([1, 1, 2, 3]))
    tws = []
    for _ in range(nw):
        i = int(rng.integers(lo, max(lo+1, hi-50)))
        j = int(rng.integers(min(i+40, hi), hi+1))
        tws.append([i, j])
    if nw > 1:
        ctx.event('several_windows')
    t0 = synth.rand_time(rng, res=1.)
    b = synth.bulk(A, [t0+600*i for i in range(m)], sr=sr,
                   start_lag=float(t[0]), length=600., rng=rng)
    ctx.note(axis=axis, sides=sides, sr=sr, a=a, e=e, m=m, k=k, sub=sub,
             tws=tws, integer=integer)
    return dict(b=b, A=A, t=t, idx=idx, ref=ref, r=r, true=true, bad=bad,
                tws=tws, sides=sides, grid=grid, step=grid[1]-grid[0], k=k,
                axis=axis, sr=sr, amp=amp, half=half, integer=integer,
                kw=dict(tw=[[i/sr, j/sr] for i, j in tws], sides=sides,
                        shift_range=srange, shift_steps=steps))


def measure(ctx, s, b=None, **kw):
    b = (s['b'] if b is None else b).copy()
    keep = b.copy()
    ref = kw.get('ref_trc')
    rk = None if ref is None else ref.copy()
    dt = b.measure_shift(**dict(s['kw'], return_sim_mat=True, **kw))
    ctx.expect(np.array_equal(b.data, keep.data, equal_nan=True),
               'data_changed', 'measure_shift')
    if ref is not None:
        ctx.expect(np.array_equal(ref, rk), 'data_changed', 'reference')
    for key in ('npts', 'start_lag', 'corr_start', 'corr_end',
                'sampling_rate'):
        ctx.eq(b.stats[key], keep.stats[key], 'header_changed', key)
    ctx.eq(str(np.squeeze(dt.value_type)), 'shift', 'value_type', '')
    ctx.eq(list(dt.stats.corr_start), list(keep.stats.corr_start), 'times',
           'corr_start')
    ctx.eq(list(dt.stats.corr_end), list(keep.stats.corr_end), 'times',
           'corr_end')
    return dt


@scenario(quick=400, thorough=12000)
def recover(ctx):
    s = setup(ctx, noise=float(ctx.rng.choice([0, .02])))
    if ctx.rng.random() < .35 and (s['sides'] == 'single'
                                  or s['axis'] == 'symmetric'):
        s['kw']['tw'] = None
        ctx.event('no_window')
    dt = measure(ctx, s, ref_trc=s['ref'].copy())
    consistent(ctx, dt, s['grid'], s['bad'], s['axis'])
    for i in np.flatnonzero(~s['bad']):
        ctx.event('shifts_recovered')
        ctx.expect(abs(dt.value[i]-s['true'][i]) <= s['step']*1.0001,
                   'value', f'{dt.value[i]} applied {s["true"][i]} step '
                   f'{s["step"]} corr {dt.corr[i]}')
        ctx.expect(dt.corr[i] > .9, 'similarity', f'{dt.corr[i]}')
    ctx.sig(s['axis'], s['sides'], len(s['tws']), s['kw']['tw'] is None)


def oracle(s, ref):
    """Mean similarity over the windows; variants for the end samples."""
    # the part of the trace that is needed
    hi = max(j for _, j in s['tws'])+s['k']
    lo = -hi if s['sides'] == 'both' else min(i for i, _ in s['tws'])-s['k']
    c = (s['idx'] >= lo) & (s['idx'] <= hi)
    spl = make_interp_spline(s['t'][c], ref[c], k=3)
    out = []
    # end of the window excluded or included; zero lag once or twice
    for last, twice in ((0, 0), (1, 0), (0, 1), (1, 1)):
        S = np.zeros((len(s['tws']), len(s['A']), len(s['grid'])))
        for w, (i, j) in enumerate(s['tws']):
            x = np.arange(i, j+last)
            if s['sides'] == 'both':
                x = np.sort(np.hstack((-x, x)))
                if not twice:
                    x = np.unique(x)
            k = x-s['idx'][0]
            R = np.array([spl(x/s['sr']+g) for g in s['grid']])
            D = s['A'][:, k]
            with np.errstate(all='ignore'):
                S[w] = D@R.T/np.sqrt(
                    np.sum(D**2, 1)[:, None]*np.sum(R**2, 1)[None])
        out.append(S.mean(axis=0))
    return out


@scenario(quick=250, thorough=6000)
def definition(ctx):
    """Every similarity is the mean of the normalised products."""
    s = setup(ctx, noise=float(ctx.rng.choice([0, .3, 3])), small=True)
    ref = s['ref']
    if ctx.rng.random() < .4:
        ref = np.nanmean(s['A'], axis=0)
        dt = measure(ctx, s)
    else:
        dt = measure(ctx, s, ref_trc=ref.copy())
    consistent(ctx, dt, s['grid'], s['bad'], s['axis'])
    ok = ~s['bad']
    var = [v[ok] for v in oracle(s, ref)]
    ctx.event('similarities_recomputed', int(ok.sum()*len(s['grid'])))
    got = dt.sim_mat[ok]
    err = [np.abs(got-v).max() for v in var]
    ctx.expect(min(err) <= TOL, 'similarity_matrix',
               f'{err} {np.isnan(err).any()}')
    ctx.sig(s['axis'], s['sides'], len(s['tws']))


@scenario(quick=120, thorough=3000)
def independence(ctx):
    rng = ctx.rng
    s = setup(ctx, noise=float(rng.choice([.05, .5])), small=True)
    ref = s['ref']
    dt = measure(ctx, s, ref_trc=ref.copy())
    for i in np.flatnonzero(~s['bad'])[:3]:
        i = int(i)
        one = measure(ctx, s, b=s['b'][i:i+1], ref_trc=ref.copy())
        consistent(ctx, one, s['grid'], np.array([False]), 'single row')
        ctx.event('single_rows_compared')
        ctx.close(np.atleast_2d(one.sim_mat)[0], dt.sim_mat[i],
                  'depends_on_other_rows', f'row {i}', rtol=1e-9, atol=1e-9)
    b = s['b'].copy()
    b.data = b.data*rng.uniform(.1, 10, (len(s['A']), 1))*10.**rng.integers(
        -15, 12)
    sc = measure(ctx, s, b=b, ref_trc=ref*float(10.**rng.integers(-15, 12)))
    ctx.event('rescaled')
    ctx.close(sc.sim_mat, dt.sim_mat, 'depends_on_amplitude', '', rtol=1e-7,
              atol=1e-9)
    b.data = -s['b'].data
    ng = measure(ctx, s, b=b, ref_trc=ref.copy())
    ctx.close(ng.sim_mat, -dt.sim_mat, 'depends_on_polarity', '', rtol=1e-9,
              atol=1e-12)
    p = rng.permutation(len(s['A']))
    b.data = s['b'].data[p]
    pm = measure(ctx, s, b=b, ref_trc=ref.copy())
    ctx.close(pm.sim_mat, dt.sim_mat[p], 'depends_on_order', '', rtol=1e-9,
              atol=1e-9)
    # samples outside of every window
    out = np.ones(len(s['t']), bool)
    for i, j in s['tws']:
        for q in ((1, -1) if s['sides'] == 'both' else (1,)):
            lo, hi = sorted((q*i, q*j))
            out[(s['idx'] >= lo-1) & (s['idx'] <= hi+1)] = False
    b.data = s['b'].data.copy()
    good = np.flatnonzero(~s['bad'])
    for i in good:
        b.data[i, out] = rng.standard_normal(int(out.sum()))*10.**rng.integers(
            -3, 4)
    ot = measure(ctx, s, b=b, ref_trc=ref.copy())
    ctx.close(ot.sim_mat[good], dt.sim_mat[good], 'depends_on_outside', '',
              rtol=1e-9, atol=1e-12)
    # several windows are averaged
    if len(s['tws']) > 1:
        each = [measure(ctx, dict(s, kw=dict(s['kw'], tw=[w])),
                        ref_trc=ref.copy()).sim_mat for w in s['kw']['tw']]
        ctx.close(dt.sim_mat[good], np.mean(each, axis=0)[good],
                  'average_of_windows', '', rtol=1e-3, atol=2e-3)
    ctx.sig(s['axis'], s['sides'], len(s['tws']))


@scenario(quick=200, thorough=5000)
def correct(ctx):
    rng = ctx.rng
    s = setup(ctx, nrow=int(rng.integers(1, 6)))
    dt = measure(ctx, s, ref_trc=s['ref'].copy())
    c = s['b'].copy()
    out = c.correct_shift(dt)
    ctx.expect(out is c, 'returns_itself', 'correct_shift')
    ctx.expect(any('shift' in p for p in c.stats.processing_bulk),
               'record', f'{c.stats.processing_bulk}')
    k = slice(s['k']+1, -s['k']-1)
    # linear interpolation between samples
    scale = np.max(np.abs(s['ref']))
    curv = np.max(np.abs(np.diff(s['ref'], 2)))
    for i in range(len(s['A'])):
        if s['bad'][i]:
            ctx.expect(np.isnan(c.data[i]).all(), 'undefined',
                       f'row {i} after the correction')
            continue
        v = np.atleast_1d(dt.value)[i]
        if abs(v-s['true'][i]) > 1e-9:
            continue
        ctx.event('corrected')
        tol = 1e-9*scale if s['integer'] else .2*curv
        ctx.close(c.data[i][k]/s['amp'][i], s['ref'][k], 'restored',
                  f'row {i} shift {v}', rtol=0, atol=tol)
    again = measure(ctx, s, b=c, ref_trc=s['ref'].copy())
    v = np.atleast_1d(again.value)
    for i in np.flatnonzero(~s['bad']):
        ctx.expect(abs(v[i]) <= s['step']*1.0001, 'measured_again',
                   f'{v[i]} after correcting')
    ctx.sig(s['axis'], s['sides'], s['integer'])


@scenario(quick=200, thorough=5000)
def shift_and_back(ctx):
    """Plain shifting: nothing by zero, there and back."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    s = setup(ctx, noise=float(rng.choice([0, 1])))
    b = s['b']
    A = s['A']
    m = len(A)
    scale = np.nanmax(np.abs(A), axis=1)
    z = P.apply_shift(A.copy(), b.stats, np.zeros(m))
    ctx.close(z/scale[:, None], A/scale[:, None], 'shift_by_zero', '',
              rtol=0, atol=1e-12)
    n = rng.integers(-s['k'], s['k']+1, m)
    sh = n/s['sr']
    st = P.apply_shift(A.copy(), b.stats, sh)
    bk = P.apply_shift(st.copy(), b.stats, -sh)
    for i in np.flatnonzero(~s['bad']):
        ctx.event('there_and_back')
        # integer shifts move samples
        q = int(n[i])
        lo, hi = max(0, -q), len(s['t'])-max(0, q)
        ctx.close(st[i, lo:hi]/scale[i], A[i, lo+q:hi+q]/scale[i],
                  'moved_samples', f'{q} samples', rtol=0, atol=1e-9)
        e = abs(q)
        ctx.close(bk[i, e:len(s['t'])-e]/scale[i],
                  A[i, e:len(s['t'])-e]/scale[i], 'there_and_back',
                  f'{q} samples', rtol=0, atol=1e-9)
    for i in np.flatnonzero(s['bad']):
        ctx.expect(np.isnan(st[i]).all(), 'undefined', f'row {i}')
    ctx.sig(s['axis'], m)


@scenario(quick=120, thorough=3000)
def clock_shift(ctx):
    """The sample-based pair: estimate what was applied."""
    from seismic.monitor import stretch_mod as sm
    rng = ctx.rng
    half = int(rng.integers(80, 150))
    one = rng.random() < .5
    t = np.arange(0 if one else -half, half+1)
    r = wavefield(rng, 1., half)
    ref = r(t)
    k = int(rng.integers(3, 12))
    steps = 2*k+1
    m = int(rng.integers(1, 6))
    true = rng.integers(-k+1, k, m)
    A = np.tile(ref, (m, 1))*10.**rng.integers(-3, 4, size=(m, 1))
    keep = A.copy()
    S = sm.time_shift_apply(A, true.astype(float), single_sided=one)
    ctx.expect(np.array_equal(A, keep), 'data_changed', 'time_shift_apply')
    for i, q in enumerate(true):
        lo, hi = max(0, q), len(t)+min(0, q)
        ctx.close(S[i, lo:hi], A[i, lo-q:hi-q], 'moved_samples',
                  f'time_shift_apply {q}', rtol=1e-9,
                  atol=1e-9*np.abs(A[i]).max())
        ctx.expect(not np.any(S[i, :lo]) and not np.any(S[i, hi:]),
                   'filled_with_zero', f'time_shift_apply {q}')
    # a drift within the traces
    if rng.random() < .5:
        q = int(true[0])
        D = sm.time_shift_apply(A, np.full(A.shape, float(q)),
                                single_sided=one)
        O = sm.time_shift_apply(A, np.full(m, float(q)), single_sided=one)
        ctx.close(D, O, 'constant_drift', f'{q}', rtol=1e-12)
    back = sm.time_shift_apply(S, -true.astype(float), single_sided=one)
    ctx.close(back[:, k:-k], A[:, k:-k], 'there_and_back', 'clock',
              rtol=1e-9, atol=1e-9*np.abs(A).max())
    bad = np.zeros(m, bool)
    if m > 1 and rng.random() < .3:
        S[0], bad[0] = np.nan, True
        ctx.event('undefined_rows')
    # windows without the ends that were filled
    last = half-k-1
    first = int(rng.integers(k if one else 0, last-45))
    tw = [np.arange(first, int(rng.integers(first+40, last+1)))]
    kr, ks = ref.copy(), S.copy()
    d = sm.time_shift_estimate(S, ref_trc=ref, tw=tw, shift_range=k,
                               shift_steps=steps, single_sided=one)
    ctx.expect(np.array_equal(kr, ref) and np.array_equal(
        ks, S, equal_nan=True), 'data_changed', 'time_shift_estimate')
    val = np.atleast_1d(d['value'])
    cor = np.atleast_1d(d['corr'])
    for i in range(m):
        if bad[i]:
            ctx.expect(np.isnan(val[i]) and np.isnan(cor[i]), 'undefined',
                       f'{val[i]}')
            continue
        ctx.event('clock_shifts')
        ctx.expect(abs(val[i]-true[i]) < 1e-6, 'value',
                   f'clock {val[i]} applied {true[i]}')
        ctx.expect(.98 < cor[i] <= 1+1e-9, 'similarity', f'{cor[i]}')
    # the object form
    t0 = synth.rand_time(rng, res=1.)
    # longer on one side
    n = 0 if one else int(rng.choice([0, 0, 9]))
    lag = float(t[0])
    if n and rng.random() < .5:
        S, ref = np.pad(S, ((0, 0), (0, n))), np.pad(ref, (0, n))
    elif n:
        S, ref = np.pad(S, ((0, 0), (n, 0))), np.pad(ref, (n, 0))
        lag -= n
    b = synth.bulk(S, [t0+600*i for i in range(m)], sr=1.,
                   start_lag=lag, length=600., rng=rng)
    kb = b.copy()
    o = b.find_clock_shift(ref_trc=ref, tw=tw, shift_range=k,
                           shift_steps=steps, sides='right' if one else
                           'both', return_sim_mat=True)
    ctx.close(np.atleast_1d(o.value), val, 'object_form', '', rtol=1e-9)
    for key in ('npts', 'start_lag', 'corr_start'):
        ctx.eq(list(np.atleast_1d(b.stats[key])),
               list(np.atleast_1d(kb.stats[key])), 'header_changed',
               f'find_clock_shift {key}')
    ctx.eq(list(o.stats.corr_start), list(kb.stats.corr_start), 'times',
           'find_clock_shift')
    ctx.sig(one, m, bool(bad.any()))
