"""
Random and pathological matrices (zero, constant, spiky, offset and huge
traces, single and double precision, one to six traces, random row order) go
through every time-domain step; the result of every row is compared with the
step on this row alone and with a double-precision definition written
independently.
"""
import numpy as np
import scipy.fftpack
import scipy.signal

from vlib.core import scenario

REQUIRED = {'rows_alone': 3000, 'muted_samples': 1000, 'zero_traces': 200,
            'finite': 2000, 'taper_shapes': 200, 'vectors': 2000,
            'undefined_rows': 500, 'refusals': 300}
ASSUMPTIONS = [
    'single precision results agree within 2e-5 of the largest amplitude',
    'tapers of less than two samples are none, smoothing windows '
    'are not longer than the trace']
KINDS = ['noise', 'noise', 'zero', 'constant', 'spike', 'ramp', 'offset',
         'tiny', 'huge', 'sparse', 'sine', 'step', 'heavy']


def row(rng, n, kind):
    x = rng.standard_normal(n)
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'constant':
        return np.full(n, rng.choice([1., -3.5, 0.1, 1e4]))
    if kind == 'spike':
        x[int(rng.integers(n))] += 1e4*rng.choice([-1, 1])
    elif kind == 'ramp':
        x = x + np.linspace(0, 50*rng.standard_normal(), n)
    elif kind == 'offset':
        x += 300*rng.standard_normal()
    elif kind == 'tiny':
        x *= 1e-10
    elif kind == 'huge':
        x *= 1e8
    elif kind == 'sparse':
        x[rng.random(n) < .9] = 0
    elif kind == 'sine':
        x = np.sin(np.arange(n)*rng.uniform(.05, 2.)) + 1e-3*x
    elif kind == 'step':
        x[n//2:] += 20
    elif kind == 'heavy':
        x = x**3
    return x


def matrix(ctx, lo=20, hi=900, kinds=KINDS):
    rng = ctx.rng
    m = int(rng.integers(1, 7))
    n = int(rng.integers(lo, hi))
    ks = [str(rng.choice(kinds)) for _ in range(m)]
    dt = np.float32 if rng.random() < .6 else np.float64
    A = np.array([row(rng, n, k) for k in ks]).astype(dt)
    ctx.event('zero_traces', ks.count('zero'))
    ctx.note(kinds=ks, shape=A.shape, dtype=str(dt.__name__))
    return A, ks


def eps(A):
    return 2e-5 if A.dtype == np.float32 else 1e-9


def step(ctx, name):
    import seismic.correlate.preprocessing_td as td
    return getattr(td, name)


def apply(ctx, name, A, args, params, ref=None, rtol=None, shape=None,
          idem=False):
    """Whole matrix, every row alone, permuted rows, definition."""
    fn = step(ctx, name)
    rtol = rtol or max(eps(A), 1e-6 if name == 'detrend' else 0)
    ctx.note(step=name, args=args)
    ctx.sig(name, A.shape, str(sorted(args.items(), key=str)))
    before = {k: repr(v) for k, v in args.items()}
    out = np.array(fn(A.copy(), args, params))
    ctx.eq({k: repr(v) for k, v in args.items()}, before, 'arguments_changed',
           name)
    ctx.eq(out.shape, shape or A.shape, 'shape', name)
    ctx.expect(np.isfinite(out).all(), 'not_finite',
               f'{name} {args}: finite input, undefined output')
    ctx.event('finite')
    for i in range(len(A)):
        one = np.array(fn(A[i:i+1].copy(), args, params))
        ctx.event('rows_alone')
        ctx.close(one, out[i:i+1], 'row_alone', f'{name} {args} row {i}',
                  rtol=rtol)
    perm = ctx.rng.permutation(len(A))
    p = np.array(fn(A[perm].copy(), args, params))
    ctx.close(p, out[perm], 'row_order', f'{name} {args}', rtol=rtol)
    if ref is not None:
        for i in range(len(A)):
            want = ref(A[i].astype(np.float64))
            if want is None:
                continue
            sc = np.max(np.abs(A[i].astype(float)), initial=0)
            ctx.close(out[i], want, 'definition', f'{name} {args} row {i}',
                      rtol=rtol, atol=rtol*sc if name in (
                          'detrend', 'demean', 'TDfilter') else rtol*1e-3)
    if idem:
        again = np.array(fn(out.copy(), args, params))
        for i in range(len(A)):
            sc = np.max(np.abs(A[i].astype(float)))
            ctx.close(again[i], out[i], 'not_idempotent', f'{name} {args}',
                      rtol=rtol, atol=4*rtol*sc)
    return out


def lin(x):
    n = np.arange(len(x), dtype=float)
    return x - np.polyval(np.polyfit(n, x, 1), n)


@scenario(quick=500*5, thorough=12000*3)
def simple(ctx):
    rng = ctx.rng
    A, ks = matrix(ctx)
    p = {'sampling_rate': float(rng.choice([1, 5, 25]))}
    for t in ('linear', 'constant'):
        for m in ('qr', 'scipy'):
            args = {'type': t, 'method': m}
            if m == 'qr' and rng.random() < .5:
                args.pop('method')
            if t == 'linear' and rng.random() < .5:
                args.pop('type')
            apply(ctx, 'detrend', A, args, p,
                  lin if t == 'linear' else lambda x: x-x.mean(), idem=True)
    apply(ctx, 'signBitNormalization', A, {}, p, np.sign, rtol=1e-9,
          idem=True)

    def std(x):
        s = x.std()
        if s <= 1e-4*np.abs(x).max() and x.any():
            return None     # constant up to rounding
        return x/s if s else x
    out = apply(ctx, 'normalizeStandardDeviation', A, {}, p, std)
    for k, o in zip(ks, out):
        if k in ('noise', 'spike', 'tiny', 'huge', 'heavy', 'sine'):
            ctx.close(o.astype(float).std(), 1., 'unit_variance', rtol=1e-4)
    f = float(rng.choice([.1, .5, 1., 2., 3.5]))
    D = A - A.mean(axis=1, keepdims=True) if rng.random() < .6 else A

    def clip(x):
        s = x.std()
        if s <= 1e-4*np.abs(x).max() and x.any():
            return None
        return np.clip(x, -f*s, f*s)
    apply(ctx, 'clip', D, {'std_factor': f}, p, clip)
    typ = str(rng.choice(['cosine_taper', 'hann', 'hamming', 'blackman']))
    if typ == 'cosine_taper':
        from obspy.signal.invsim import cosine_taper
        q = float(rng.choice([.05, .1, .5, 1.]))
        apply(ctx, 'taper', A, {'type': typ, 'p': q}, p,
              lambda x: x*cosine_taper(len(x), p=q))
    elif hasattr(scipy.signal, typ):
        apply(ctx, 'taper', A, {'type': typ}, p,
              lambda x: x*scipy.signal.get_window(typ, len(x), fftbins=False))


@scenario(quick=400*5, thorough=9000*3)
def filters(ctx):
    rng = ctx.rng
    sr = float(rng.choice([1, 4, 25, 100]))
    A, _ = matrix(ctx, 60)
    typ = str(rng.choice(['bandpass', 'highpass', 'lowpass', 'bandstop']))
    lo, hi = sorted(rng.uniform(.06, .42, 2)*sr)
    hi = min(max(hi, lo*1.3), .47*sr)
    lo = min(lo, hi/1.3)
    cor = int(rng.choice([2, 4]))
    zp = bool(rng.random() < .5)
    args = {'type': typ}
    if typ in ('bandpass', 'bandstop'):
        args.update(freqmin=lo, freqmax=hi)
        wn, bt = [lo, hi], dict(bandpass='band', bandstop='bandstop')[typ]
    else:
        args['freq'] = lo
        wn, bt = lo, typ
    if cor != 4 or rng.random() < .5:
        args['corners'] = cor
    if zp or rng.random() < .5:
        args['zerophase'] = zp
    sos = scipy.signal.butter(cor, np.array(wn)/(.5*sr), bt, output='sos')

    def ref(x):
        y = scipy.signal.sosfilt(sos, x)
        return scipy.signal.sosfilt(sos, y[::-1])[::-1] if zp else y
    apply(ctx, 'TDfilter', A, args, {'sampling_rate': sr}, ref, rtol=1e-4)


def runmean(x, n):
    """Centred like numpy: n samples, zeros outside."""
    c = np.concatenate((np.zeros(1), np.cumsum(x)))
    i = np.arange(len(x)) + (n-1)//2
    return (c[np.clip(i+1, 0, len(x))] - c[np.clip(i+1-n, 0, len(x))])/n


@scenario(quick=400*5, thorough=9000*3)
def running(ctx):
    """Amplitude divided by a symmetric running average of the energy."""
    rng = ctx.rng
    sr = float(rng.choice([1, 4, 25, 10, 100]))
    A, ks = matrix(ctx, 60, kinds=[k for k in KINDS if k != 'constant'])
    nw = int(rng.integers(1, A.shape[1]//ctx.pick([1, 2, 2])-1))
    args = {'windowLength': (nw-float(rng.choice([0, .5])))/sr,
            'filter': None}
    if nw == 1:
        args['windowLength'] = 1/sr
    if args['windowLength'] > .1 and rng.random() < .5:
        # the nearest number with few digits, as a user writes it
        args['windowLength'] = round(args['windowLength'], 2)
    nw = int(np.ceil(round(args['windowLength']*sr, 6)))
    params = {'sampling_rate': sr}
    sos = None
    if rng.random() < .5:
        lo, hi = .1*sr, .3*sr
        args['filter'] = {'type': 'bandpass', 'freqmin': lo, 'freqmax': hi,
                          'zerophase': bool(rng.random() < .5)}
        sos = scipy.signal.butter(4, [.2, .6], 'band', output='sos')

    def ref(x):
        b = x
        if not x.any():
            return x
        if sos is not None:
            b = scipy.signal.sosfilt(sos, b)
            if args['filter']['zerophase']:
                b = scipy.signal.sosfilt(sos, b[::-1])[::-1]
        e = runmean(runmean(b**2, nw)[::-1], nw)[::-1]
        e = np.maximum(e, 0)
        if e.min() < 1e-4*e.max():
            return None     # the result depends on the damping
        return x/np.sqrt(e + 1e-6*e.max())
    out = apply(ctx, 'TDnormalization', A, args, params, ref, rtol=2e-3)
    for k, o in zip(ks, out):
        if k == 'zero':
            ctx.eq(np.abs(o).max(), 0., 'zero_trace')
    # scaling a trace does not change the result
    s = 2.**int(rng.integers(-8, 9))
    fn = step(ctx, 'TDnormalization')
    ctx.close(fn((A*s).astype(A.dtype), args, params), out, 'scale',
              rtol=2e-3)
    # reversed in time
    if args['filter'] is None and nw % 2:
        ctx.close(fn(A[:, ::-1].copy(), args, params)[:, ::-1], out,
                  'time_symmetry', rtol=2e-3)


@scenario(quick=700*5, thorough=16000*3)
def mute(ctx):
    """Samples above the threshold vanish, those far away are unchanged."""
    rng = ctx.rng
    sr = float(rng.choice([1, 4, 25, 10, 100]))
    A, ks = matrix(ctx, 60, 700)
    n = A.shape[1]
    nt = int(rng.integers(2, 60))
    args = {'taper_len': nt/sr, 'extend_gaps': bool(rng.random() < .7)}
    if rng.random() < .1:
        # no taper
        args['taper_len'] = ctx.pick([.1, .5, .99, 1., 1.9])/sr
        nt = 1
        ctx.event('short_tapers')
    params = {'sampling_rate': sr}
    mode = str(rng.choice(['threshold', 'std_factor', 'default']))
    if mode == 'threshold':
        args[mode] = float(np.quantile(np.abs(A), rng.uniform(.8, 1)))
        thr = np.full(len(A), args[mode])
        if rng.random() < .4:
            # only an alternative to the absolute number
            args['std_factor'] = float(rng.choice([.1, 3]))
    elif mode == 'std_factor':
        args[mode] = float(rng.choice([2, 3, 5]))
        thr = args[mode]*A.std(axis=1)
    else:
        thr = A.std(axis=1)
    C = A
    if rng.random() < .3:
        args['filter'] = {'type': 'highpass', 'freq': .1*sr,
                          'zerophase': bool(rng.random() < .5)}
        sos = scipy.signal.butter(4, .2, 'highpass', output='sos')
        C = scipy.signal.sosfilt(sos, A.astype(float))
        if args['filter']['zerophase']:
            C = scipy.signal.sosfilt(sos, C[:, ::-1])[:, ::-1]
        if mode != 'threshold':
            thr = C.std(axis=1)*args.get('std_factor', 1)
    out = apply(ctx, 'mute', A, args, params)
    if n <= nt:
        ctx.eq(np.abs(out).max(), 0., 'shorter_than_taper')
        return
    # a taper of a single sample is none: weights are zero or one
    if nt == 1:
        for i in range(len(A)):
            D = np.abs(C[i].astype(float))
            tol = 1e-5*max(D.max(), 1e-300)
            ctx.expect(not np.any(out[i][D > thr[i]+tol]), 'not_muted',
                       f'{args}')
            ok = D <= thr[i]-tol
            ctx.close(out[i][ok], A[i][ok], 'changed', f'{args}', rtol=1e-5)
        return
    for i in range(len(A)):
        D = np.abs(C[i].astype(float))
        tol = 1e-5*max(D.max(), 1e-300)
        over = D > thr[i]+tol
        maybe = D > thr[i]-tol
        if args['extend_gaps']:
            ctx.event('muted_samples', over.sum())
            ctx.expect(not np.any(out[i][over]), 'not_muted',
                       f'{args}: {np.abs(out[i][over]).max(initial=0):.3g} '
                       f'left of samples above {thr[i]:.3g}')
        # weights within [0, 1]
        nz = A[i] != 0
        w = out[i][nz].astype(float)/A[i][nz].astype(float)
        ctx.expect(np.all(w > -1e-6) and np.all(w < 1+1e-6), 'weights',
                   f'{args} weights {w.min(initial=0)} {w.max(initial=0)}')
        # unchanged further away than the taper (and the extension)
        far = np.ones(n, bool)
        reach = (nt if args['extend_gaps'] else nt//2) + 2
        far[:reach] = far[-reach:] = False
        for j in np.flatnonzero(maybe):
            far[max(0, j-reach):j+reach+1] = False
        ctx.close(out[i][far], A[i][far], 'changed', f'{args} samples '
                  'outside of the tapers', rtol=1e-5)
        ctx.event('unchanged_samples', far.sum())


@scenario(quick=300*5, thorough=6000*3)
def padding(ctx):
    rng = ctx.rng
    A, _ = matrix(ctx, 3)
    sr = float(rng.choice([1, 3, 4, 25, 33.3]))
    params = {'sampling_rate': sr,
              'lengthToSave': float(rng.choice([1, 7.5, 20, 33.33, 4.04]))}
    m = int(np.ceil(round(params['lengthToSave']*sr, 6)))
    n = A.shape[1]
    fn = step(ctx, 'zeroPadding')
    for typ in ('nextFastLen', 'avoidWrapAround', 'avoidWrapFastLen'):
        for axis in (0, 1):
            B = A if axis else A.T.copy()
            out = fn(B.copy(), {'type': typ}, params, **(
                {} if axis and rng.random() < .5 else {'axis': axis}))
            out = out if axis else out.T
            N = out.shape[1]
            ctx.eq(out.shape[0], len(A), 'shape', typ)
            need = n + (0 if typ == 'nextFastLen' else m)
            ctx.expect(N >= need, 'too_short', f'{typ}: {N} < {need}')
            if typ == 'avoidWrapAround':
                ctx.eq(N, need, 'length', typ)
            else:
                ctx.expect(N <= scipy.fftpack.next_fast_len(need), 'length',
                           f'{typ}: {N} for {need}')
                q = N
                for k in (2, 3, 5, 7, 11):
                    while q % k == 0:
                        q //= k
                ctx.eq(q, 1, 'not_fast', f'{typ} {N}')
            ctx.expect(np.array_equal(out[:, :n], A), 'samples', typ)
            ctx.expect(not np.any(out[:, n:]), 'not_zero', typ)
        # a single trace
        one = fn(A[0].copy(), {'type': typ}, params, **(
            {} if rng.random() < .5 else {'axis': 0}))
        ctx.expect(np.array_equal(one, out[0]), 'single', typ)
        ctx.eq(one.dtype, out.dtype, 'single', typ)


@scenario(quick=150*5, thorough=3000*3)
def taper_shape(ctx):
    """The taper next to one muted sample is monotone and of its length."""
    rng = ctx.rng
    sr = float(rng.choice([1, 4, 12.5, 25]))
    nt = int(rng.integers(8, 60))
    n = 8*nt + int(rng.integers(0, 50))
    m = int(rng.integers(1, 4))
    A = rng.choice([-1., 1.], (m, n))*rng.uniform(.5, 1.5)
    at = rng.integers(3*nt, n-3*nt, m)
    big = rng.random(m) < .7
    for i in range(m):
        if big[i]:
            A[i, at[i]] = 1e3*rng.choice([-1, 1])
    args = {'taper_len': (nt+.25)/sr, 'extend_gaps': True, 'threshold': 10.}
    ctx.note(nt=nt, n=n, at=at, big=big)
    ctx.sig(nt, n, m)
    out = np.array(step(ctx, 'mute')(A.copy(), args, {'sampling_rate': sr}))
    w = out/A
    d = np.arange(n)
    for i in range(m):
        inner = (d > nt) & (d < n-nt-1)
        if not big[i]:
            ctx.close(w[i][inner], np.ones(inner.sum()), 'changed', rtol=1e-6)
            continue
        ctx.event('taper_shapes')
        for side in (1, -1):
            k = w[i][at[i]:at[i]+2*nt] if side > 0 else \
                w[i][at[i]-2*nt+1:at[i]+1][::-1]
            ctx.expect(np.all(np.diff(k) > -1e-6), 'not_monotone',
                       f'taper of {nt} samples: {k[:nt+3]}')
            h = np.searchsorted(k, .5)
            ctx.expect(abs(h - nt/2) <= 2, 'taper_length',
                       f'taper of {nt} samples is at its half after {h}')
            full = np.searchsorted(k, 1-1e-9)
            ctx.expect(abs(full - nt) <= 3, 'taper_length',
                       f'taper of {nt} samples ends after {full}')


@scenario(quick=250*5, thorough=5000*3)
def vectors(ctx):
    """One trace without a second dimension, undefined samples, refusals."""
    import seismic.correlate.preprocessing_td as td
    rng = ctx.rng
    A, ks = matrix(ctx, 60, kinds=[k for k in KINDS if k != 'constant'])
    n = A.shape[1]
    p = {'sampling_rate': 4.}
    i = int(rng.integers(len(A)))
    rtol = eps(A)
    sc = np.abs(A[i].astype(float)).max()
    flt = {'type': 'bandpass', 'freqmin': .4, 'freqmax': 1.2,
           'zerophase': bool(rng.random() < .5)}
    for name, args in [
            ('detrend', {'type': 'linear'}), ('detrend', {'type': 'constant'}),
            ('TDfilter', flt), ('signBitNormalization', {}),
            ('TDnormalization', {'windowLength': float(rng.uniform(.3, n/9)),
                                 'filter': flt if rng.random() < .5
                                 else None})]:
        fn = getattr(td, name)
        whole = np.array(fn(A.copy(), args, p))
        x = A[i].copy()
        one = np.array(fn(x, args, p))
        ctx.eq(one.shape, (n,), 'vector_shape', name)
        ctx.close(one, whole[i], 'vector', f'{name} {args} of one trace',
                  rtol=max(rtol, 1e-6), atol=2*rtol*sc)
        ctx.expect(np.array_equal(x, A[i]), 'vector_changed',
                   f'{name}: the trace given was modified')
        ctx.event('vectors')
    # undefined samples stay where they are and do not change the others
    B = A.astype(float)
    B[rng.random(B.shape) < .05] = np.nan
    if rng.random() < .3:
        B[int(rng.integers(len(B)))] = np.nan
    if rng.random() < .1:
        B[:] = np.nan
    d = ~np.isnan(B)
    ctx.sig('nan', B.shape, int(d.sum()))
    for typ in ('linear', 'constant'):
        out = td.detrend(B.copy(), {'method': 'scipy', 'type': typ}, p)
        ctx.expect(np.array_equal(np.isnan(out), ~d), 'undefined_moved',
                   f'detrend {typ}')
        for j in range(len(B)):
            if d[j].sum() < 3:
                continue
            x = B[j][d[j]]
            want = lin(x) if typ == 'linear' else x-x.mean()
            ctx.close(out[j][d[j]], want, 'undefined_samples',
                      f'detrend {typ} row {j}', rtol=1e-8,
                      atol=1e-8*np.abs(x).max())
            ctx.event('undefined_rows')
    f = float(rng.choice([.5, 1., 2.]))
    D = B - np.array([np.mean(b[k]) if k.any() else 0
                      for b, k in zip(B, d)])[:, None]
    out = td.clip(D.copy(), {'std_factor': f}, p)
    for j in range(len(D)):
        x = D[j][d[j]]
        s = f*x.std() if len(x) else 0
        if len(x) > 2:
            ctx.close(out[j][d[j]], np.clip(x, -s, s), 'undefined_samples',
                      f'clip row {j}', rtol=1e-8, atol=1e-8*np.abs(x).max())
    # what cannot be done is refused and not done differently
    bad = [('detrend', {'type': 'quadratic'}), ('detrend', {'method': 'x'}),
           ('mute', {'taper_len': 0, 'extend_gaps': True}),
           ('TDnormalization', {'windowLength': 0, 'filter': None}),
           ('TDnormalization', {'windowLength': -1., 'filter': None}),
           ('zeroPadding', {'type': 'avoidWrapPowerTwo'})]
    name, args = bad[int(rng.integers(len(bad)))]
    ctx.raises(ValueError, lambda: getattr(td, name)(
        A.copy(), args, dict(p, lengthToSave=3.)), 'not_refused')
    ctx.event('refusals')
    ctx.raises(NotImplementedError, lambda: td.zeroPadding(
        A[None].copy(), {'type': 'nextFastLen'}, p), 'not_refused')
    # a record not longer than the taper of the muting is muted altogether
    nt = n + int(rng.integers(0, 20))
    out = td.mute(A.copy(), {'taper_len': nt/4. + .01, 'extend_gaps': bool(
        rng.random() < .5), 'threshold': 1e300}, p)
    ctx.eq(float(np.abs(out).max()), 0., 'shorter_than_taper')
