"""
Correlations are made by stretching an analytic reference by known factors, on
symmetric, asymmetric and one-sided lag axes, with random amplitudes, noise,
undefined, zero and constant rows; the real code measures them. Every reported
similarity is recomputed from its definition with another spline, values are
compared with the factors applied, single rows and rescaled rows are measured
again, and corrected correlations are compared with the reference and measured
once more.
"""
import numpy as np
from scipy.interpolate import make_interp_spline

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'lag axes hold a sample at zero lag',
    'similarities of rows that are zero or undefined in the window are '
    'undefined',
    'the reference is taken as zero outside of its own lag range']
REQUIRED = {'stretches_recovered': 800, 'similarities_recomputed': 20000,
            'undefined_rows': 100, 'single_rows_compared': 300,
            'rescaled': 100, 'corrected': 150, 'asymmetric': 100,
            'one_sided': 100, 'given_stats': 60, 'several_windows': 40,
            'samples_outside': 100}


def wavefield(rng, sr, tmax):
    """Analytic decaying wavefield, different for positive/negative lags."""
    k = 6
    f = rng.uniform(.04, .13, (2, k))*sr
    ph = rng.uniform(0, 2*np.pi, (2, k))
    a = rng.uniform(.5, 1, (2, k))
    dec = rng.uniform(.5, 2)*tmax

    def r(t):
        t = np.asarray(t, float)
        # continuous and smooth at zero
        w = 1/(1+np.exp(-np.clip(t*sr/2, -50, 50)))
        out = np.zeros(t.shape)
        for i, s in enumerate((w, 1-w)):
            for j in range(k):
                out += s*a[i, j]*np.cos(2*np.pi*f[i, j]*t+ph[i, j])
        return out*np.exp(-np.abs(t)/dec)
    return r


def window(n, zero, sides, ctw):
    """Sample indices that take part."""
    ctw = np.asarray(ctw)
    if sides == 'single':
        return ctw
    if sides == 'right':
        return zero+ctw
    if sides == 'left':
        return zero-ctw
    return np.unique(np.hstack((zero-ctw, zero+ctw)))


def oracle(data, t, ref, tref, stretches, sides, ctw):
    """Similarity of each row with each stretched reference."""
    zero = int(np.argmin(np.abs(t)))
    idx = window(len(t), zero, sides, ctw)
    spl = make_interp_spline(tref, ref, k=3)
    out = np.zeros((len(data), len(stretches)))
    eps = 1e-9*(tref[1]-tref[0])
    for k, s in enumerate(stretches):
        x = t[idx]*np.exp(-s)
        inside = (x >= tref[0]-eps) & (x <= tref[-1]+eps)
        r = np.where(inside, spl(x), 0.)
        for i, row in enumerate(data):
            d = row[idx]
            with np.errstate(all='ignore'):
                out[i, k] = np.sum(d*r)/np.sqrt(np.sum(d*d)*np.sum(r*r))
    return out


def setup(ctx, axis=None, noise=None, nrow=None, grid=True, small=False):
    rng = ctx.rng
    sr = float(rng.choice([1, 4, 5, 10, 25]))
    half = int(rng.integers(70, 110 if small else 160))
    axis = axis or ctx.pick(['symmetric', 'symmetric', 'long_right',
                             'long_left', 'one_sided'])
    a, e = half, half
    if axis == 'long_right':
        e = half + int(rng.integers(1, 60))
    elif axis == 'long_left':
        a = half + int(rng.integers(1, 60))
    elif axis == 'one_sided':
        a = 0
    t = np.arange(-a, e+1)/sr
    r = wavefield(rng, sr, half/sr)
    m = nrow or int(rng.integers(2, 7))
    srange = float(rng.choice([.02, .05, .1]))
    steps = int(rng.choice([21, 41, 101]))
    stretches = np.linspace(-srange, srange, steps)
    if grid:
        true = stretches[rng.integers(1, steps-1, m)]
    else:
        true = rng.uniform(-.9, .9, m)*srange
    A = np.array([r(t*np.exp(-s)) for s in true])
    ref = r(t)
    if noise:
        A = A + noise*rng.standard_normal(A.shape)*np.std(ref)
    amp = 10.**rng.integers(-4, 5, size=(m, 1))*rng.uniform(.5, 2, (m, 1))
    A = A*amp
    bad = np.zeros(m, bool)
    for i in range(m):
        if rng.random() < .12 and m > 2:
            A[i] = np.nan
            bad[i] = True
            ctx.event('undefined_rows')
    if bad.all():
        A[0] = r(t*np.exp(-true[0]))
        bad[0] = False
    if axis == 'one_sided':
        sides = 'single'
        ctx.event('one_sided')
    else:
        sides = ctx.pick(['both', 'left', 'right', 'single'])
    if axis.startswith('long'):
        ctx.event('asymmetric')
    # window well inside of the trace
    last = int(half*np.exp(-srange)) - 2
    first = int(rng.integers(0, max(1, last-50)))
    if sides == 'both' and rng.random() < .3:
        first = 0
    tw = [np.arange(first, int(rng.integers(first+45, last+1)))] \
        if last > first+45 else [np.arange(first, last)]
    t0 = synth.rand_time(rng, res=1.)
    b = synth.bulk(A, [t0+600*i for i in range(m)], sr=sr,
                   start_lag=float(t[0]), length=600., rng=rng)
    ctx.note(axis=axis, sides=sides, sr=sr, n=len(t), m=m, srange=srange,
             steps=steps, tw=(int(tw[0][0]), int(tw[0][-1])))
    return dict(b=b, A=A, t=t, ref=ref, r=r, true=true, bad=bad, tw=tw,
                sides=sides, kw=dict(stretch_range=srange,
                                     stretch_steps=steps, sides=sides),
                grid=stretches, step=stretches[1]-stretches[0], axis=axis,
                half=half, sr=sr, amp=amp)


def consistent(ctx, dv, grid, bad, what, sim=True):
    """Value is the grid point of the highest similarity."""
    ctx.close(dv.second_axis, grid, 'grid', what, rtol=1e-12)
    corr = np.atleast_1d(dv.corr)
    val = np.atleast_1d(dv.value)
    ctx.eq(corr.shape, bad.shape, 'shape', what)
    ctx.eq(val.shape, bad.shape, 'shape', what)
    ctx.eq(np.isnan(corr).tolist(), bad.tolist(), 'undefined', what+' corr')
    ctx.eq(np.isnan(val).tolist(), bad.tolist(), 'undefined', what+' value')
    ctx.eq(np.atleast_1d(dv.avail).tolist(), (~bad).tolist(), 'available',
           what)
    ctx.expect(np.all(corr[~bad] <= 1+1e-9) and np.all(
        corr[~bad] >= -1-1e-9), 'bounded', f'{what} {corr}')
    if not sim:
        return
    S = np.atleast_2d(dv.sim_mat)
    ctx.eq(S.shape, (len(bad), len(grid)), 'shape', what+' sim_mat')
    ctx.eq(np.isnan(S).all(axis=1).tolist(), bad.tolist(), 'undefined',
           what+' sim_mat')
    for i in np.flatnonzero(~bad):
        ctx.eq(float(corr[i]), float(S[i].max()), 'corr_is_maximum', what)
        ctx.eq(float(val[i]), float(dv.second_axis[S[i].argmax()]),
               'value_at_maximum', what)


def measure(ctx, s, **kw):
    b = s['b'].copy()
    keep = b.copy()
    k = dict(s['kw'], tw=[w.copy() for w in s['tw']], return_sim_mat=True)
    k.update(kw)
    dv = b.stretch(**k)
    ctx.expect(np.array_equal(b.data, keep.data, equal_nan=True),
               'data_changed', 'stretch')
    for key in ('npts', 'start_lag', 'corr_start', 'corr_end',
                'sampling_rate'):
        ctx.eq(b.stats[key], keep.stats[key], 'header_changed', key)
    ctx.eq(dv.value_type, 'stretch', 'value_type', '')
    ctx.eq(list(dv.stats.corr_start), list(keep.stats.corr_start), 'times',
           'corr_start')
    ctx.eq(list(dv.stats.corr_end), list(keep.stats.corr_end), 'times',
           'corr_end')
    return dv


@scenario(quick=400, thorough=12000)
def recover(ctx):
    """Applied factors are measured, with the sign documented."""
    grid = ctx.rng.random() < .5
    noise = float(ctx.rng.choice([0, .02]))
    s = setup(ctx, grid=grid, noise=noise)
    dv = measure(ctx, s, ref_trc=s['ref'].copy())
    consistent(ctx, dv, s['grid'], s['bad'], s['axis'])
    for i in np.flatnonzero(~s['bad']):
        ctx.event('stretches_recovered')
        # later arrivals (slower medium) are positive
        # noise can move a flat maximum
        near = dv.sim_mat[i][np.argmin(np.abs(s['grid']-s['true'][i]))]
        ctx.expect(abs(dv.value[i]-s['true'][i]) <= s['step']*1.0001 or (
            noise and near > dv.corr[i]-1e-3), 'value', f'{dv.value[i]} applied {s["true"][i]} step '
            f'{s["step"]} corr {dv.corr[i]}')
        ctx.expect(dv.corr[i] > (.97 if grid else .7), 'similarity', f'{dv.corr[i]}')
    ctx.sig(s['axis'], s['sides'], bool(s['bad'].any()))


@scenario(quick=300, thorough=8000)
def definition(ctx):
    """Every similarity is the normalised product, noise included."""
    rng = ctx.rng
    s = setup(ctx, noise=float(rng.choice([0, .3, 3])), small=True)
    if rng.random() < .3:
        # up to the ends of the trace, and without windows
        n = s['half']
        s['tw'] = [np.arange(int(rng.integers(0, n-10)), n+1)]
        if s['axis'] != 'one_sided' and s['sides'] == 'single':
            s['tw'] = [np.arange(0, n//2)]
    if rng.random() < .2:
        i = int(rng.integers(len(s['A'])))
        z = np.zeros(len(s['t'])) if rng.random() < .5 else np.full(
            len(s['t']), rng.standard_normal())
        s['b'].data[i] = s['A'][i] = z
        s['bad'][i] = not z.any()
    if s['bad'].all():
        return
    kw = {}
    ref = s['ref']
    mode = ctx.pick(['given', 'mean', 'list', 'trimmed'])
    if mode == 'mean':
        with np.errstate(all='ignore'):
            ref = np.nanmean(s['A'], axis=0)
    elif mode == 'list':
        kw['ref_trc'] = ref[None].copy()
    elif mode == 'given':
        kw['ref_trc'] = ref.copy()
    tref = s['t']
    if mode in ('trimmed', 'mean'):
        # the reference ends where the trace analysed ends
        if s['sides'] == 'single':
            keep = tref >= 0
        else:
            keep = np.abs(tref) <= s['half']/s['sr']+1e-9
        tref, ref = tref[keep], ref[keep]
        if mode == 'trimmed':
            kw['ref_trc'] = ref.copy()
            st = s['b'].stats
            st = type(st)(dict(st))
            st.start_lag, st.npts = float(tref[0]), len(tref)
            if rng.random() < .5:
                kw['ref_tr_stats'] = st
                ctx.event('given_stats')
    elif rng.random() < .5:
        kw['ref_tr_stats'] = s['b'].stats.copy()
        ctx.event('given_stats')
    ctx.note(mode=mode, stats='ref_tr_stats' in kw)
    dv = measure(ctx, s, **kw)
    consistent(ctx, dv, s['grid'], s['bad'], f'{s["axis"]} {mode}')
    t = s['t']
    A = s['A']
    if s['sides'] == 'single':
        k = t >= 0
        t, A = t[k], A[:, k]
    want = oracle(A, t, ref, tref, s['grid'], s['sides'], s['tw'][0])
    ok = ~s['bad']
    ctx.event('similarities_recomputed', int(ok.sum()*len(s['grid'])))
    ctx.close(np.atleast_2d(dv.sim_mat)[ok], want[ok], 'similarity_matrix',
              f'{s["axis"]} {s["sides"]} {mode}', rtol=1e-6, atol=1e-6)
    ctx.sig(s['axis'], s['sides'], mode)


@scenario(quick=150, thorough=4000)
def independence(ctx):
    """Amplitudes, other rows and samples outside do not matter."""
    rng = ctx.rng
    s = setup(ctx, noise=float(rng.choice([.05, .5])), small=True)
    ref = s['ref']
    dv = measure(ctx, s, ref_trc=ref.copy())
    # one by one
    for i in np.flatnonzero(~s['bad'])[:3]:
        o = dict(s, b=s['b'][int(i):int(i)+1].copy())
        one = measure(ctx, o, ref_trc=ref.copy())
        consistent(ctx, one, s['grid'], np.array([False]), 'single row')
        ctx.event('single_rows_compared')
        ctx.close(np.atleast_2d(one.sim_mat)[0], dv.sim_mat[i],
                  'depends_on_other_rows', f'row {i}', rtol=1e-9, atol=1e-9)
        ctx.close(np.atleast_1d(one.corr)[0], dv.corr[i],
                  'depends_on_other_rows', 'corr', rtol=1e-9)
    # scaled data, scaled reference
    f = rng.uniform(.1, 10, (len(s['A']), 1))*10.**rng.integers(-15, 12)
    o = dict(s, b=s['b'].copy())
    o['b'].data = o['b'].data*f
    sc = measure(ctx, o, ref_trc=ref*float(10.**rng.integers(-15, 12)))
    ctx.event('rescaled')
    ctx.close(sc.sim_mat, dv.sim_mat, 'depends_on_amplitude', '', rtol=1e-7,
              atol=1e-9)
    # negative polarity
    o['b'].data = -s['b'].data
    ng = measure(ctx, o, ref_trc=ref.copy())
    ctx.close(ng.sim_mat, -dv.sim_mat, 'depends_on_polarity', '', rtol=1e-9,
              atol=1e-12)
    # samples outside of the windows
    zero = int(np.argmin(np.abs(s['t'])))
    idx = window(0, zero, 'right' if s['sides'] == 'single' else s['sides'],
                 s['tw'][0])
    out = np.ones(len(s['t']), bool)
    out[idx] = False
    o['b'].data = s['b'].data.copy()
    good = np.flatnonzero(~s['bad'])
    for i in good:
        o['b'].data[i, out] = rng.standard_normal(out.sum())*10.**rng.integers(
            -3, 4)
    ot = measure(ctx, o, ref_trc=ref.copy())
    ctx.close(ot.sim_mat[good], dv.sim_mat[good], 'depends_on_outside', '',
              rtol=1e-9, atol=1e-12)
    # order of the rows
    p = rng.permutation(len(s['A']))
    o['b'].data = s['b'].data[p]
    pm = measure(ctx, o, ref_trc=ref.copy())
    ctx.close(pm.sim_mat, dv.sim_mat[p], 'depends_on_order', '', rtol=1e-9,
              atol=1e-9)
    ctx.sig(s['axis'], s['sides'])


@scenario(quick=200, thorough=5000)
def correct(ctx):
    """Correcting by the measured change restores the reference."""
    rng = ctx.rng
    s = setup(ctx, grid=True, nrow=int(rng.integers(1, 6)))
    dv = measure(ctx, s, ref_trc=s['ref'].copy())
    c = s['b'].copy()
    out = c.correct_stretch(dv)
    ctx.expect(out is c, 'returns_itself', 'correct_stretch')
    ctx.eq(c.data.shape, s['A'].shape, 'shape', 'correct_stretch')
    ctx.expect(any('stretch' in p for p in c.stats.processing_bulk),
               'record', f'{c.stats.processing_bulk}')
    t = s['t']
    srange = s['kw']['stretch_range']
    lim = np.exp(-srange)
    k = (t >= t[0]*lim+3/s['sr']) & (t <= t[-1]*lim-3/s['sr'])
    scale = np.max(np.abs(s['ref']))
    val = np.atleast_1d(dv.value)
    for i in range(len(t)*0+len(s['A'])):
        if s['bad'][i]:
            ctx.expect(np.isnan(c.data[i]).all(), 'undefined',
                       f'row {i} after the correction')
            continue
        if abs(val[i]-s['true'][i]) > 1e-9:
            # flat maximum next to the true one
            continue
        ctx.event('corrected')
        ctx.close(c.data[i][k]/s['amp'][i], s['ref'][k], 'restored',
                  f'row {i} {val[i]}', rtol=0, atol=.02*scale)
    again = measure(ctx, dict(s, b=c), ref_trc=s['ref'].copy())
    v = np.atleast_1d(again.value)
    for i in np.flatnonzero(~s['bad']):
        ctx.expect(abs(v[i]) <= s['step']*1.0001, 'measured_again',
                   f'{v[i]} after correcting {val[i]}')
    ctx.sig(s['axis'], s['sides'], bool(s['bad'].any()))


@scenario(quick=120, thorough=3000)
def functions(ctx):
    """The plain functions agree with their own definitions."""
    from seismic.monitor import stretch_mod as sm
    rng = ctx.rng
    s = setup(ctx, axis=ctx.pick(['symmetric', 'one_sided']),
              noise=float(rng.choice([0, .3])), small=True)
    if s['sides'] == 'single' and s['axis'] == 'symmetric':
        s['sides'] = s['kw']['sides'] = 'both'
    A = s['A'].copy()
    tw = [s['tw'][0].copy()]
    nw = 1
    if rng.random() < .5:
        last = tw[0][-1]
        tw.append(np.arange(int(rng.integers(0, last-20)), last))
        nw = 2
        ctx.event('several_windows')
    kw = dict(s['kw'])
    ref = s['ref'].copy()
    dv = sm.time_stretch_estimate(A, ref_trc=ref, tw=tw, **kw)
    ctx.expect(np.array_equal(ref, s['ref']) and np.array_equal(
        A, s['A'], equal_nan=True), 'data_changed', 'time_stretch_estimate')
    ok = ~s['bad']
    S = dv['sim_mat'].reshape(len(A), len(s['grid']), nw)
    corr = dv['corr'].reshape(len(A), nw)
    val = dv['value'].reshape(len(A), nw)
    for w in range(nw):
        want = oracle(s['A'], s['t'], s['ref'], s['t'], s['grid'],
                      s['sides'], tw[w])
        ctx.event('similarities_recomputed', int(ok.sum()*len(s['grid'])))
        ctx.close(S[ok, :, w], want[ok], 'similarity_matrix',
                  f'window {w} of {nw}', rtol=1e-6, atol=1e-6)
        ctx.close(corr[ok, w], want[ok].max(axis=1), 'corr_is_maximum',
                  f'window {w}', rtol=1e-6)
        ctx.eq(np.isnan(val[:, w]).tolist(), s['bad'].tolist(), 'undefined',
               'time_stretch_estimate')
        for i in np.flatnonzero(ok):
            j = int(np.argmin(np.abs(s['grid']-val[i, w])))
            ctx.close(val[i, w], s['grid'][j], 'value_on_grid', '',
                      rtol=1e-9, atol=1e-15)
            ctx.close(S[i, j, w], S[i, :, w].max(), 'value_at_maximum', '',
                      rtol=1e-12)
    # the object form uses the first of several windows
    if nw == 2:
        a = measure(ctx, s, ref_trc=ref.copy(), tw=tw)
        o = measure(ctx, s, ref_trc=ref.copy(), tw=tw[:1])
        ctx.close(a.value, o.value, 'first_window', '', rtol=1e-12)
    # applying and removing stretches
    e = float(rng.uniform(-1, 1)*s['kw']['stretch_range'])
    keep = s['ref'][None].copy()
    st = sm.time_stretch_apply(
        keep, np.array([e]), single_sided=s['axis'] == 'one_sided')
    ctx.expect(np.array_equal(keep[0], s['ref']), 'data_changed',
               'time_stretch_apply')
    n = s['half']
    k = np.abs(s['t']) < .8*n/s['sr']*np.exp(-s['kw']['stretch_range'])
    if s['axis'] == 'one_sided':
        k &= s['t'] > .15*n/s['sr']
    # nothing is invented outside of the trace
    span = max(abs(s['t'][0]), abs(s['t'][-1]))
    out = np.abs(s['t'])*np.exp(e) > span*(1 + 1e-9)
    ctx.expect(not np.any(st[0][out]), 'extrapolated',
               f'time_stretch_apply {e}')
    ctx.event('samples_outside', int(out.sum()))
    top = np.max(np.abs(s['ref']))
    ctx.expect(np.all(np.abs(st) <= 3*top), 'amplitude',
               f'time_stretch_apply {e}: {np.max(np.abs(st))/top}')
    ctx.close(st[0][k], s['r'](s['t'][k]*np.exp(e)), 'stretched',
              f'time_stretch_apply {e}', rtol=0,
              atol=.02*np.max(np.abs(s['ref'])))
    ctx.sig(s['axis'], s['sides'], nw)
