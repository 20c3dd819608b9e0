"""
Every operation on correlation matrices runs on matrices with ordinary,
undefined, partly undefined, zero, constant and huge rows and all options; the
result of each row is compared with its definition, and the same operation is
run on single rows and as plain function, so that rows that influence each
other, unrecorded operations and moved times are seen.
"""
import numpy as np
from scipy import signal

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'limits of normalisation windows select samples up to one interval off',
    'smoothing treats undefined samples as zero (documented in the code) and '
    'continues the data by point reflections at the ends',
    'the shape of a taper is judged by range, symmetry, monotony and support']
REQUIRED = {'normalised': 500, 'clipped': 300, 'filtered': 150,
            'tapered': 200, 'centre_tapered': 200, 'envelopes': 100,
            'smoothed': 200, 'decay': 100, 'undefined_rows': 300,
            'single_rows_compared': 1000}


def make(ctx, nmin=1, kinds=True, nmax=60, axis=None):
    """A matrix with hostile rows; returns bulk and a copy of the data."""
    rng = ctx.rng
    sr = float(rng.choice([1, 5, 10, 25, 12.5]))
    n = int(rng.integers(max(8, nmin), nmax))
    m = int(rng.integers(1, 7))
    k = axis if axis is not None else int(rng.integers(4))
    if k == 0:
        n += 1 - n % 2
        lag = -(n//2)/sr
    elif k == 1:
        lag = 0.
    elif k == 2:
        lag = -int(rng.integers(0, n))/sr
    else:
        lag = float(np.round(rng.uniform(-n, n)))/sr
    A = rng.standard_normal((m, n))*10.**rng.integers(
        -3, 4, size=(m, 1))*10.**ctx.pick([0, 0, -12, 9])
    if kinds:
        for i in range(m):
            r = rng.random()
            if r < .15:
                A[i] = np.nan
                ctx.event('undefined_rows')
            elif r < .2:
                A[i] = 0.
            elif r < .25:
                A[i] = rng.standard_normal()
    t0 = synth.rand_time(rng, res=1.)
    b = synth.bulk(A, [t0+600*i for i in range(m)], sr=sr, start_lag=lag,
                   length=600., rng=rng)
    ctx.note(m=m, n=n, lag=lag, sr=sr)
    return b, A.copy()


def lags(b):
    return b.stats['start_lag'] + np.arange(
        b.data.shape[1])/b.stats['sampling_rate']


def run(ctx, b, name, *args, **kw):
    """Object form; the record grows, times stay, single rows agree."""
    keep = b.copy()
    rec = list(b.stats.processing_bulk)
    c = b.copy()
    out = getattr(c, name)(*args, **kw)
    ctx.expect(out is c, 'returns_itself', name)
    new = list(c.stats.processing_bulk)
    ctx.eq(new[:len(rec)], rec, 'earlier_record', name)
    ctx.eq(len(new), len(rec)+1, 'record', f'{name} {new}')
    for k in ('corr_start', 'corr_end', 'location', 'start_lag', 'npts',
              'sampling_rate', 'network', 'station', 'channel'):
        ctx.eq(c.stats[k], keep.stats[k], 'header', f'{name} {k}')
    ctx.eq(c.data.shape, keep.data.shape, 'shape', name)
    return c


def single_rows(ctx, b, c, name, *args, rtol=1e-9, **kw):
    """Each row alone has the same result."""
    for i in range(len(b.data)):
        one = b[i:i+1].copy()
        getattr(one, name)(*args, **kw)
        ctx.event('single_rows_compared')
        ctx.close(c.data[i], one.data[0], 'depends_on_other_rows',
                  f'{name} {args} {kw} row {i}', rtol=rtol)


@scenario(quick=1200, thorough=40000)
def normalize(ctx):
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    b, A = make(ctx)
    typ = ctx.pick(['energy', 'max', 'absmax', 'abssum'])
    t = lags(b)
    sr = b.stats['sampling_rate']
    lo = hi = None
    i, j = sorted(int(x) for x in rng.integers(0, len(t), size=2))
    if rng.random() < .6:
        lo = float(t[i]) + float(rng.choice([0, .4]))/sr
    if rng.random() < .6:
        hi = float(t[j]) + float(rng.choice([0, .4]))/sr
    if lo is not None and hi is not None and hi-lo < 2.5/sr:
        return
    if lo is not None and lo > t[-1]-2.5/sr:
        return
    if hi is not None and hi < t[0]+2.5/sr:
        return
    r = rng.random()
    out = False
    if r < .05 and lo is not None:
        lo, out = t[0]-3/sr, True
    elif r < .1 and hi is not None:
        hi, out = t[-1]+3/sr, True
    elif r < .15 and hi is not None and hi > t[-1]-.5/sr:
        return
    ctx.sig(typ, lo, hi, A.shape)
    ctx.event('normalised')
    c = run(ctx, b, 'normalize', lo, hi, typ)
    f = {'energy': lambda x: np.sqrt(np.mean(x**2)),
         'abssum': lambda x: np.mean(np.abs(x)),
         'max': np.max, 'absmax': lambda x: np.max(np.abs(x))}[typ]
    if out:
        ctx.close(c.data, A, 'limits_outside')
        return
    cands = []
    # limits between samples: the sample before or after may be the first one
    for a in (0,) if lo is None else (
            int(np.floor((lo-t[0])*sr+d)) for d in (1e-6, 1-1e-6)):
        for e in (len(t),) if hi is None else (
                int(np.floor((hi-t[0])*sr+d))
                for d in (-1e-6, 1e-6, 1-1e-6, 1+1e-6)):
            cands.append((max(a, 0), min(e, len(t))))
    best = None
    for a, e in set(cands):
        W = np.empty_like(A)
        for i, x in enumerate(A):
            d = f(x[a:e])
            W[i] = x if d == 0 else x/d
        ok = np.array_equal(np.isnan(W), np.isnan(c.data)) and np.allclose(
            W, c.data, rtol=1e-9, atol=0, equal_nan=True)
        if ok:
            best = W
    ctx.expect(best is not None, 'normalised_values', f'{typ} {lo} {hi}')
    single_rows(ctx, b, c, 'normalize', lo, hi, typ)
    d = P.corr_mat_normalize(A.copy(), b.stats, lo, hi, typ)
    ctx.close(d, c.data, 'function_form', rtol=1e-12)
    ctx.raises(ValueError, lambda: b.copy().normalize(normtype='other'),
               'normtype')


@scenario(quick=800, thorough=30000)
def clip(ctx):
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    b, A = make(ctx)
    thres = float(rng.choice([.1, .5, 1, 2, 3, 10]))
    axis = ctx.pick([0, 1, 1, None])
    if rng.random() < .3 and len(A):
        A[0, 0] = np.nan
        b.data = A.copy()
    ctx.sig(thres, axis, A.shape)
    ctx.event('clipped')
    c = run(ctx, b, 'clip', thres, axis)
    W = A.copy()
    D = ~np.isnan(A)
    if axis == 1:
        for i in range(len(A)):
            if D[i].any():
                v = thres*np.std(A[i][D[i]])
                W[i] = np.where(D[i], np.minimum(np.maximum(
                    A[i], -v), v), np.nan)
    elif axis == 0:
        for j in range(A.shape[1]):
            if D[:, j].any():
                v = thres*np.std(A[:, j][D[:, j]])
                W[:, j] = np.where(D[:, j], np.minimum(np.maximum(
                    A[:, j], -v), v), np.nan)
    elif D.any():
        v = thres*np.std(A[D])
        W = np.where(D, np.minimum(np.maximum(A, -v), v), np.nan)
    ctx.close(c.data, W, 'clipped_values', f'{thres} {axis}', rtol=1e-9)
    if axis == 1:
        single_rows(ctx, b, c, 'clip', thres, axis)
    ctx.close(P.corr_mat_clip(A.copy(), thres, axis), c.data,
              'function_form', rtol=1e-12)


@scenario(quick=400, thorough=15000)
def envelope(ctx):
    from seismic.monitor import post_corr_process as P
    b, A = make(ctx)
    ctx.sig(A.shape, float(A[0, 0]))
    ctx.event('envelopes')
    c = run(ctx, b, 'envelope')
    n = A.shape[1]
    W = np.full(A.shape, np.nan)
    # analytic signal from a plain Fourier sum
    k = np.arange(n)
    E = np.exp(-2j*np.pi*np.outer(k, k)/n)
    h = np.zeros(n)
    h[0] = 1
    h[1:(n+1)//2] = 2
    if n % 2 == 0:
        h[n//2] = 1
    for i, x in enumerate(A):
        if not np.isnan(x).any():
            W[i] = np.abs(E.conj().dot(h*E.dot(x))/n)
    for i in range(len(A)):
        ctx.close(c.data[i], W[i], 'envelope_values', rtol=1e-7)
    single_rows(ctx, b, c, 'envelope')
    ctx.close(P.corr_mat_envelope(A.copy()), c.data, 'function_form')


@scenario(quick=400, thorough=15000)
def filtering(ctx):
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    b, A = make(ctx, nmax=400)
    sr = b.stats['sampling_rate']
    lo = float(rng.uniform(.02, .2))*sr
    hi = lo + float(rng.uniform(.05, .25))*sr
    order = int(rng.integers(1, 5))
    ctx.sig(lo, hi, order, A.shape)
    ctx.event('filtered')
    c = run(ctx, b, 'filter', (lo, hi), order)
    sos = signal.butter(order, [2*lo/sr, 2*hi/sr], 'band', output='sos')
    for i, x in enumerate(A):
        if np.isnan(x).any():
            w = np.full(len(x), np.nan)
        else:
            w = signal.sosfilt(sos, x)
            w = signal.sosfilt(sos, w[::-1])[::-1]
        ctx.close(c.data[i], w, 'filtered_values', f'{lo} {hi} {order}',
                  rtol=1e-5, atol=1e-5*np.nanmax(np.abs(x))
                  if not np.isnan(x).all() else None)
    single_rows(ctx, b, c, 'filter', (lo, hi), order)
    ctx.close(P.corr_mat_filter(A.copy(), b.stats, (lo, hi), order), c.data,
              'function_form')
    ctx.raises(ValueError, lambda: b.copy().filter((lo, hi, hi+.1)),
               'filter_limits')


@scenario(quick=600, thorough=20000)
def taper(ctx):
    """Both ends of every row."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    b, A = make(ctx)
    sr = b.stats['sampling_rate']
    n = A.shape[1]
    w = float(rng.choice([0, .5, 1, 2, 3.3, n/10, n/4, n/2.1]))/sr
    ctx.sig(w, A.shape)
    ctx.event('tapered')
    c = run(ctx, b, 'taper', w)
    ones = synth.bulk(np.ones((1, n)), [b.stats['corr_start'][0]], sr=sr,
                      start_lag=b.stats['start_lag'])
    f = ones.taper(w).data[0]
    ctx.close(c.data, A*f, 'taper_common', rtol=1e-12)
    ctx.close(f, f[::-1], 'taper_symmetric', atol=1e-9)
    ctx.expect(np.all((f >= -1e-12) & (f <= 1+1e-12)), 'taper_range')
    k = np.minimum(np.arange(n), np.arange(n)[::-1])
    ins = k > w*sr+1
    ctx.close(f[ins], np.ones(ins.sum()), 'taper_interior')
    half = f[:(n+1)//2]
    ctx.expect(np.all(np.diff(half) >= -1e-12), 'taper_monotone')
    if w*sr >= 2:
        ctx.expect(f[0] < .2, 'taper_end', str(f[:5]))
        # half the height at half the width
        ctx.close(np.interp(w*sr/2, np.arange(n), f), .5, 'taper_half',
                  atol=.5/(w*sr)*3)
    single_rows(ctx, b, c, 'taper', w)
    ctx.close(P.corr_mat_taper(A.copy(), b.stats, w), c.data,
              'function_form')
    ctx.raises(ValueError, lambda: b.copy().taper(1.01*n/sr), 'too_long')


@scenario(quick=800, thorough=20000)
def taper_center(ctx):
    """The samples around zero lag, wherever it is."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    b, A = make(ctx)
    sr = b.stats['sampling_rate']
    n = A.shape[1]
    w = float(rng.choice([0, 1, 2, 3, 3.3, n/10, n/4, n/2, n*.9]))/sr
    if w > .02 and ctx.chance(.5):
        w = round(w, 2)
    sl = float(rng.choice([.05, .2, .5, 1]))
    ctx.sig(w, sl, A.shape, b.stats['start_lag'])
    ctx.event('centre_tapered')
    c = run(ctx, b, 'taper_center', w, sl)
    ones = synth.bulk(np.ones((1, n)), [b.stats['corr_start'][0]], sr=sr,
                      start_lag=b.stats['start_lag'])
    f = ones.taper_center(w, sl).data[0]
    ctx.close(c.data, A*f, 'centre_common', rtol=1e-12)
    t = np.abs(lags(b))
    if w == 0:
        ctx.close(f, np.ones(n), 'centre_zero_width')
        return
    ctx.expect(np.all((f >= -1e-12) & (f <= 1+1e-12)), 'centre_range')
    z = -b.stats['start_lag']*sr
    out = t*sr > np.ceil(round(w*sr/2, 6)) + (
        .01 if abs(z-round(z)) < 1e-6 else .51)
    ctx.close(f[out], np.ones(out.sum()), 'centre_outside', f'{w} {sl}')
    ins = t < w/2*(1-sl) - 1.01/sr
    ctx.close(f[ins], np.zeros(ins.sum()), 'centre_inside', f'{w} {sl}')
    ctx.expect(np.all(f[t < .5/sr] < 1e-9), 'centre_zero_lag')
    z = int(np.clip(np.round(-b.stats['start_lag']*sr), 0, n-1))
    ctx.expect(np.all(np.diff(f[z:]) >= -1e-9)
               and np.all(np.diff(f[:z+1]) <= 1e-9), 'centre_monotone',
               str(f))
    single_rows(ctx, b, c, 'taper_center', w, sl)
    ctx.close(P.corr_mat_taper_center(
        A.copy(), b.stats, w, slope_frac=sl), c.data, 'function_form')
    ctx.raises(ValueError, lambda: b.copy().taper_center(-1), 'negative')
    ctx.raises(ValueError, lambda: b.copy().taper_center(1.01*n/sr),
               'too_long')


@scenario(quick=600, thorough=20000)
def smooth(ctx):
    """Along lag (0) and along time (1)."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    b, A = make(ctx, nmax=40)
    axis = int(rng.integers(2))
    m, n = A.shape
    if axis == 1 and m < 5:
        # more times
        t0 = b.stats['corr_start'][0]
        m = int(rng.integers(6, 20))
        A = rng.standard_normal((m, n))
        A[rng.random(m) < .1] = np.nan
        b = synth.bulk(A, [t0+600*i for i in range(m)], length=600.,
                       sr=b.stats['sampling_rate'],
                       start_lag=b.stats['start_lag'])
    size = n if axis == 0 else m
    w = int(rng.integers(1, min(size, 12)+1))
    if rng.random() < .05:
        w = size
    typ = ctx.pick(['flat', 'hanning', 'hamming', 'bartlett', 'blackman'])
    ctx.sig(w, typ, axis, A.shape)
    ctx.event('smoothed')
    c = run(ctx, b, 'smooth', w, typ, axis)
    X = np.where(np.isnan(A), 0., A)
    X = X if axis == 0 else X.T
    Y = c.data if axis == 0 else c.data.T
    if w < 3:
        ctx.close(Y, X, 'smooth_small')
    else:
        win = np.ones(w) if typ == 'flat' else getattr(np, typ)(w)
        win = win/win.sum()
        N = X.shape[1]
        for x, y in zip(X, Y):
            # continued by point reflections at both ends
            p = np.concatenate((2*x[0]-x[w-1:0:-1], x,
                                2*x[-1]-x[-2:-w-1:-1]))
            good = [np.array([np.dot(win, p[k-off:k-off+w])
                              for k in range(w-1, w-1+N)])
                    for off in {(w-1)//2, w//2}]
            s = np.max(np.abs(x))+1e-300
            ctx.expect(len(y) == N and any(
                np.allclose(y, z, rtol=0, atol=1e-9*s) for z in good),
                       'smoothed_values', f'{w} {typ} {axis}')
    if axis == 0:
        single_rows(ctx, b, c, 'smooth', w, typ, axis)
    ctx.close(P.corr_mat_smooth(A.copy(), w, typ, axis), c.data,
              'function_form')
    ctx.raises(ValueError, lambda: b.copy().smooth(size+1, typ, axis),
               'too_long')


@scenario(quick=500, thorough=20000)
def decay(ctx):
    """Exponential decay with lag is removed, whatever the lag axis."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    b, A = make(ctx, nmin=150, nmax=400, kinds=False)
    if rng.random() < .3 and len(A) > 1:
        A[int(rng.integers(len(A)))] = np.nan
        ctx.event('undefined_rows')
    t = lags(b)
    sr = b.stats['sampling_rate']
    tau = float(np.ptp(np.abs(t))/rng.uniform(1, 3))
    # constant envelopes but for some noise
    A = A/np.nanmax(np.abs(A), axis=1)[:, None]*.2 + np.cos(
        2*np.pi*rng.uniform(.1, .4, (len(A), 1))*sr*t
        + rng.uniform(0, 6, (len(A), 1)))
    b.data = A*np.exp(-np.abs(t)/tau)*10.**ctx.pick([0, 0, -9, 6])
    ctx.sig(A.shape, tau, t[0])
    ctx.event('decay')
    before = b.data.copy()
    c = run(ctx, b, 'correct_decay')
    f = np.nanmean(c.data/before, axis=0)
    ctx.close(c.data, before*f, 'decay_common', rtol=1e-9)
    # one exponential in the absolute lag
    le = np.log(f)
    p = np.polyfit(np.abs(t), le, 1)
    ctx.close(le, np.polyval(p, np.abs(t)), 'decay_shape', atol=1e-6)
    # the envelope of what is left does not decay
    ctx.expect(abs(p[0]*tau-1) < .3, 'decay_removed',
               f'{p[0]} for {1/tau}')
    ctx.close(P.corr_mat_correct_decay(before.copy(), b.stats), c.data,
              'function_form')
    # the level after the correction is that of the envelope
    ctx.expect(.2 < np.nanmean(np.abs(c.data)) < 3, 'decay_level',
               f'{np.nanmean(np.abs(c.data))}')


@scenario(quick=300, thorough=10000)
def records(ctx):
    """A history of operations leaves its record in order."""
    rng = ctx.rng
    b, A = make(ctx, nmin=30, kinds=False)
    n = A.shape[1]
    sr = b.stats['sampling_rate']
    names = []
    ops = [('normalize', ()), ('clip', (2.,)), ('envelope', ()),
           ('filter', ((.1*sr, .3*sr),)), ('taper', (2/sr,)),
           ('taper_center', (2/sr,)), ('smooth', (3, 'flat', 0)),
           ('mirror', ()), ('trim', (b.stats['start_lag'],
                                     b.stats['end_lag'])),
           ('resample_time_axis', (sr,)), ('correct_decay', ())]
    for _ in range(int(rng.integers(1, 6))):
        name, args = ctx.pick(ops)
        if name == 'mirror' and rng.random() < .7:
            continue
        s = b.stats
        if name == 'trim':
            args = (s['start_lag'], s['end_lag'])
        getattr(b, name)(*args)
        names.append(name)
        ctx.eq(len(b.stats.processing_bulk), len(names), 'record',
               str(names))
    key = {'normalize': 'normalize', 'clip': 'Clipped',
           'envelope': 'Envelope', 'filter': 'filter', 'taper': 'tapered',
           'taper_center': 'centre', 'smooth': 'Smoothed',
           'mirror': 'Mirrored', 'trim': 'trim',
           'resample_time_axis': 'Resampled', 'correct_decay': 'Decay'}
    for name, r in zip(names, b.stats.processing_bulk):
        ctx.expect(key[name].lower() in r.lower(), 'record_content',
                   f'{name} {r}')
    ctx.sig(tuple(names), n)
