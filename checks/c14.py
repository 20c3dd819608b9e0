"""
Traces with random gap patterns, data types, sampling rates and sub-sample
start times are masked, tapered, detrended, filtered and interpolated; every
sample is compared by its time with a per-segment reference or with interval
arithmetic in integer nanoseconds.
"""
import numpy as np
import scipy.signal
from obspy import Stream, Trace, UTCDateTime

from vlib.core import scenario
from vlib import synth, refcorr, world

REQUIRED = {'masked': 10000, 'kept': 10000, 'segments': 2000,
            'gaps_filled': 500, 'gaps_kept': 500, 'intervals_at_edges': 200,
            'integer_ends': 60, 'exact_limits': 500}
ASSUMPTIONS = [
    'mask intervals are rounded outwards to whole samples',
    'the filters are those of obspy',
    'interpolated samples of integer data are whole numbers']


def gappy(ctx, n, kind=None):
    """Boolean array of defined samples."""
    rng = ctx.rng
    m = np.ones(n, bool)
    kind = kind or str(rng.choice(
        ['full', 'mid', 'start', 'end', 'many', 'singles', 'random',
         'isolated', 'all']))
    ctx.kind = kind
    if kind == 'mid':
        a = int(rng.integers(1, n-1))
        m[a:a+int(rng.integers(1, n))] = False
        m[-1] = True
    elif kind == 'start':
        m[:int(rng.integers(1, n))] = False
    elif kind == 'end':
        m[-int(rng.integers(1, n)):] = False
    elif kind == 'many':
        for _ in range(int(rng.integers(2, 8))):
            a = int(rng.integers(0, n))
            m[a:a+int(rng.integers(1, n//6+2))] = False
    elif kind == 'singles':
        m[rng.integers(0, n, 4)] = False
    elif kind == 'random':
        m = rng.random(n) < rng.choice([.3, .7, .95])
    elif kind == 'isolated':
        m[:] = False
        m[rng.integers(0, n, 3)] = True
    elif kind == 'all':
        m[:] = False
    return m


def trace(ctx, lo=5, hi=400, kind=None, dtype=None, sr=None):
    rng = ctx.rng
    n = int(rng.integers(lo, hi))
    sr = sr or float(rng.choice([1., 2., 5., 10., 40., 100., 12.5]))
    t0 = synth.rand_time(rng) + float(rng.choice([0, .25/sr, .7/sr]))
    d = 1000*rng.standard_normal(n) + rng.uniform(-3000, 3000) \
        + np.linspace(0, rng.uniform(-5000, 5000), n)
    dtype = dtype or [np.float32, np.float64, np.int32][
        int(rng.integers(3))]
    d = d.astype(dtype)
    m = gappy(ctx, n, kind)
    if not m.all():
        d = np.ma.array(d, mask=~m, fill_value=0)
        # what is stored below a mask must not matter
        d.data[~m] = np.array([0, 7777, -1])[
            int(rng.integers(3))].astype(dtype)
    net, sta = synth.stations(rng, 1)[0]
    return Trace(d, header=dict(network=net, station=sta, channel='HHZ',
                                sampling_rate=sr, starttime=t0))


def at(tr, t0, n, sr):
    """Samples of tr on the grid t0 + i/sr, NaN if masked or not there."""
    out = np.full(n, np.nan)
    k = int(round((tr.stats.starttime-t0)*sr))
    d = np.ma.filled(np.ma.asarray(tr.data).astype(float), np.nan)
    for i, x in enumerate(d):
        if 0 <= i+k < n:
            out[i+k] = x
    return out


def vals(tr):
    return np.ma.filled(np.ma.asarray(tr.data).astype(float), np.nan)


@scenario(quick=4000, thorough=80000)
def masks(ctx):
    import seismic.correlate.preprocessing_stream as ps
    rng = ctx.rng
    trs = [trace(ctx) for _ in range(int(rng.integers(1, 4)))]
    n, sr = trs[0].stats.npts, trs[0].stats.sampling_rate
    t0 = trs[0].stats.starttime
    d = 10**9/sr
    ivs = []
    for _ in range(int(rng.integers(1, 5))):
        kind = str(rng.choice(['in', 'before', 'after', 'over', 'grid',
                               'start', 'end', 'zero', 'far']))
        a, b = sorted(rng.uniform(0, n, 2))
        if kind == 'before':
            a, b = -rng.uniform(.1, n), rng.uniform(-2, n)
            a, b = min(a, b), max(a, b)
        elif kind == 'after':
            a, b = rng.uniform(0, n), n+rng.uniform(0, n)
        elif kind == 'over':
            a, b = -rng.uniform(0, n), n+rng.uniform(0, n)
        elif kind == 'grid':
            a, b = np.floor(a), np.floor(b)
        elif kind == 'start':
            a = 0.
        elif kind == 'end':
            b = n-1.
        elif kind == 'zero':
            b = a
        elif kind == 'far':
            a, b = a+5*n, b+5*n
        if kind in ('before', 'after', 'over', 'start', 'end'):
            ctx.event('intervals_at_edges')
        ivs.append((t0.ns+int(a*d), t0.ns+int(b*d)))
    rev = bool(rng.random() < .4)
    starts = [UTCDateTime(ns=a) for a, _ in ivs]
    kw = {}
    if rng.random() < .3:
        L = float(rng.uniform(0, n/sr))
        kw['masklen'] = L
        ivs = [(a, a+int(round(L*1e9))) for a, _ in ivs]
    else:
        kw['ends'] = [UTCDateTime(ns=b) for _, b in ivs]
    if rev or rng.random() < .5:
        kw['reverse'] = rev
    st = Stream([t.copy() for t in trs])
    ctx.note(intervals=[((a-t0.ns)/1e9, (b-t0.ns)/1e9) for a, b in ivs],
             npts=n, sr=sr, reverse=rev)
    ctx.sig(len(ivs), n, sr, rev, 'masklen' in kw)
    out = ps.stream_mask_at_utc(st, starts, **kw)
    ctx.eq(len(out), len(trs), 'traces')
    for tr, old in zip(out, trs):
        ctx.eq([tr.id, tr.stats.starttime, tr.stats.npts,
                tr.stats.sampling_rate],
               [old.id, old.stats.starttime, old.stats.npts,
                old.stats.sampling_rate], 'header')
        N = old.stats.npts
        dd = 10**9/old.stats.sampling_rate
        t = old.stats.starttime.ns + np.arange(N)*dd
        inside = np.zeros(N, bool)
        maybe = np.zeros(N, bool)
        for a, b in ivs:
            inside |= (t >= a-1) & (t <= b+1) & (
                (t > a+1) & (t < b-1))
            # whole samples, exact for limits that are samples
            lo, hi = (.01 if abs(q-round(q)) < 1e-6 else 1.001 for q in (
                (a-t[0])/dd, (b-t[0])/dd))
            ctx.event('exact_limits', (lo < 1)+(hi < 1))
            maybe |= (t > a-dd*lo-2000) & (t < b+dd*hi+2000)
        sure_out = ~maybe
        if rev:
            inside, sure_out = sure_out, inside
        o, v = vals(old), vals(tr)
        ctx.event('masked', inside.sum())
        ctx.event('kept', sure_out.sum())
        ctx.expect(np.isnan(v[inside]).all(), 'not_masked',
                   f'{ctx.desc}: samples '
                   f'{np.flatnonzero(inside & ~np.isnan(v))[:5]} available')
        ctx.close(v[sure_out], o[sure_out], 'changed', f'{ctx.desc}',
                  rtol=0, atol=0)
        ok = ~np.isnan(v)
        ctx.close(v[ok], o[ok], 'changed', rtol=0, atol=0)


@scenario(quick=3000, thorough=60000)
def tapers(ctx):
    import seismic.correlate.preprocessing_stream as ps
    rng = ctx.rng
    sr = float(rng.choice([1., 2., 5., 10., 40., 100., 12.5, .1]))
    trs = [trace(ctx, 8, 400, sr=sr) for _ in range(int(rng.integers(1, 4)))]
    nt = int(rng.integers(1, 60))
    L = nt/sr
    masked = any(np.ma.is_masked(t.data) for t in trs)
    tam = True if masked else bool(rng.random() < .5)
    ctx.sig(sr, nt, tam, len(trs), ctx.kind)
    ctx.note(taper=L, sr=sr, at_masked=tam)
    if len(trs) == 1 and rng.random() < .3:
        out = ps.cos_taper_st(trs[0].copy(), L, taper_at_masked=tam)
    else:
        out = ps.cos_taper_st(Stream([t.copy() for t in trs]), L,
                              taper_at_masked=tam)
    for tr, old in zip(out, trs):
        ctx.eq([tr.id, tr.stats.starttime, tr.stats.npts],
               [old.id, old.stats.starttime, old.stats.npts], 'header')
        o, v = vals(old), vals(tr)
        ctx.expect(np.array_equal(np.isnan(o), np.isnan(v)), 'gaps_kept',
                   f'{ctx.desc}')
        for a, b in refcorr.runs(o):
            ctx.event('segments')
            x, y = o[a:b], v[a:b]
            k = len(x)
            if 2*nt > k:
                ctx.close(y, x, 'too_short', f'{ctx.desc} {k}', rtol=1e-6)
                continue
            ctx.close(y[nt:k-nt], x[nt:k-nt], 'inside',
                      f'{ctx.desc} segment {a}-{b}', rtol=1e-6)
            nz = x != 0
            w = np.ones(k)
            w[nz] = y[nz]/x[nz]
            ctx.expect(np.all(w > -1e-6) and np.all(w < 1+1e-5), 'weights',
                       f'{ctx.desc} {w.min()} {w.max()}')
            if nz.all() and nt > 1:
                ctx.close(w[[0, -1]], [0, 0], 'ends', f'{ctx.desc}',
                          atol=1e-6)
                ctx.close(w, w[::-1], 'symmetry', f'{ctx.desc}', atol=1e-4)
                ctx.expect(np.all(np.diff(w[:nt]) > -1e-5), 'monotone',
                           f'{ctx.desc}')
                ctx.close(w[:nt], np.sin(np.linspace(0, np.pi, 2*nt))[:nt],
                          'shape', f'{ctx.desc}', atol=1e-4)


@scenario(quick=2500, thorough=50000)
def detrending(ctx):
    import seismic.correlate.preprocessing_stream as ps
    rng = ctx.rng
    sr = float(rng.choice([1., 5., 40.]))
    trs = [trace(ctx, 8, 400, sr=sr) for _ in range(int(rng.integers(1, 4)))]
    kind = str(rng.choice(['linear', 'demean', 'constant', 'default']))
    ctx.sig(sr, kind, len(trs), ctx.kind)
    out = ps.detrend_st(Stream([t.copy() for t in trs]), **(
        {} if kind == 'default' else {'type': kind}))
    for tr, old in zip(out, trs):
        ctx.eq([tr.id, tr.stats.starttime, tr.stats.npts],
               [old.id, old.stats.starttime, old.stats.npts], 'header')
        o, v = vals(old), vals(tr)
        if kind == 'default':
            # the line is not defined by a single sample
            for a, b in refcorr.runs(o):
                if b-a == 1:
                    o[a] = v[a] = np.nan
        ctx.expect(np.array_equal(np.isnan(o), np.isnan(v)), 'gaps_kept',
                   kind)
        for a, b in refcorr.runs(o):
            ctx.event('segments')
            x = o[a:b]
            if kind in ('linear',):
                want = refcorr.detrend(x)
            elif kind == 'default':
                # simple: line through the first and last sample
                want = x - np.linspace(x[0], x[-1], len(x)) if len(x) > 1 \
                    else x - x
            else:
                want = x - x.mean()
            ctx.close(v[a:b], want, 'definition', f'{kind} {a}-{b}',
                      rtol=1e-5, atol=1e-5*np.abs(x).max()+1e-9)


@scenario(quick=2000, thorough=40000)
def filters(ctx):
    import seismic.correlate.preprocessing_stream as ps
    rng = ctx.rng
    sr = float(rng.choice([1., 5., 40.]))
    trs = [trace(ctx, 20, 400, sr=sr, dtype=[np.float32, np.float64][
        int(rng.integers(2))]) for _ in range(int(rng.integers(1, 4)))]
    for i, t in enumerate(trs):
        t.stats.location = f'{i:02d}'
    typ = str(rng.choice(['bandpass', 'highpass', 'lowpass']))
    opt = dict(bandpass=dict(freqmin=.1*sr, freqmax=.3*sr),
               highpass=dict(freq=.2*sr), lowpass=dict(freq=.2*sr))[typ]
    opt['zerophase'] = bool(rng.random() < .5)
    opt['corners'] = int(rng.choice([2, 4]))
    given = dict(opt)
    wn = dict(bandpass=[.2, .6], highpass=.4, lowpass=.4)[typ]
    sos = scipy.signal.butter(opt['corners'], wn, typ, output='sos')
    ctx.sig(sr, typ, opt['zerophase'], len(trs), ctx.kind)
    src = trs[0].copy() if len(trs) == 1 and rng.random() < .3 else \
        Stream([t.copy() for t in trs])
    out = ps.stream_filter(src, typ, opt)
    ctx.eq(opt, given, 'options_changed')
    want = [t for t in trs if not np.isnan(vals(t)).all()]
    got = [t for t in out if not np.isnan(vals(t)).all()]
    ctx.eq([t.id for t in got], [t.id for t in want], 'traces')
    for tr, old in zip(got, want):
        o = vals(old)
        v = at(tr, old.stats.starttime, len(o), sr)
        off = (tr.stats.starttime-old.stats.starttime)*sr
        ctx.expect(abs(off-round(off)) < 1e-3 and
                   tr.stats.npts <= old.stats.npts, 'time')
        ctx.expect(np.array_equal(np.isnan(o), np.isnan(v)), 'gaps_kept',
                   typ)
        for a, b in refcorr.runs(o):
            ctx.event('segments')
            y = scipy.signal.sosfilt(sos, o[a:b])
            if opt['zerophase']:
                y = scipy.signal.sosfilt(sos, y[::-1])[::-1]
            ctx.close(v[a:b], y, 'definition', f'{typ} {a}-{b}', rtol=1e-4,
                      atol=1e-5*np.abs(o[a:b]).max())


@scenario(quick=4000, thorough=80000)
def interpolation(ctx):
    """Gaps up to the limit are filled on a line, all others remain."""
    from seismic.utils import miic_utils as mu
    rng = ctx.rng
    tr = trace(ctx, 5, 300)
    lim = int(rng.choice([-1, 0, 1, 2, 3, 5, 10, 50]))
    d = tr.data
    how = str(rng.choice(['masked', 'nan', 'stream']))
    if how == 'nan':
        d = np.ma.filled(d.astype(float), np.nan)
    o = vals(tr)
    ctx.sig(len(o), lim, how, ctx.kind)
    ctx.note(limit=lim, how=how, n=len(o), gaps=refcorr.runs(o)[:10])
    keep = np.array(d, copy=True) if how == 'nan' else d.copy()
    if how == 'stream':
        st = Stream([tr.copy()])
        v = vals(mu.interpolate_gaps_st(st, lim)[0])
    else:
        v = np.ma.filled(np.ma.masked_invalid(
            mu.interpolate_gaps(d, lim)).astype(float), np.nan)
        ctx.close(np.ma.filled(np.ma.asarray(d).astype(float), np.nan),
                  np.ma.filled(np.ma.asarray(keep).astype(float), np.nan),
                  'input_changed', rtol=0, atol=0)
    ctx.eq(v.shape, o.shape, 'length')
    want = o.copy()
    e = np.concatenate(([False], np.isnan(o), [False]))
    e = np.flatnonzero(e[1:] != e[:-1])
    for a, b in zip(e[::2], e[1::2]):
        if a and b < len(o) and (lim == -1 or b-a <= lim):
            want[a:b] = o[a-1] + (o[b]-o[a-1])*np.arange(1, b-a+1)/(b-a+1)
            ctx.event('gaps_filled')
        else:
            ctx.event('gaps_kept')
    # whole numbers stay whole
    tol = 1. if d.dtype.kind == 'i' else 0
    ctx.close(v, want, 'interpolation', f'{ctx.desc}', rtol=1e-5, atol=tol)
    ctx.close(v[~np.isnan(o)], o[~np.isnan(o)], 'recorded', f'{ctx.desc}',
              rtol=0, atol=0)
    if tol and np.isnan(o[[0, -1]]).any():
        ctx.event('integer_ends')


@scenario(quick=1500, thorough=30000)
def gap_handler(ctx):
    """Short gaps filled, short pieces discarded, remaining ends tapered."""
    from seismic.utils import miic_utils as mu
    rng = ctx.rng
    sr = float(rng.choice([1., 5., 40.]))
    st, ref = Stream(), []
    lim = int(rng.choice([0, 1, 5, 10, 30]))
    nt = int(rng.integers(2, 25))
    retain = float(rng.choice([0, 10, 50.5, 2*nt]))/sr
    for i in range(int(rng.integers(1, 4))):
        tr = trace(ctx, 10, 500, sr=sr)
        tr.stats.location = f'{i:02d}'
        ref.append(tr.copy())
        r = refcorr.runs(vals(tr))
        if rng.random() < .5 and r and all(
                q[0]-p[1] > lim for p, q in zip(r, r[1:])):
            st.extend(tr.split())       # pieces, as read from a file
        else:
            st.append(tr)
    ctx.sig(sr, lim, nt, retain, len(ref), ctx.kind)
    ctx.note(limit=lim, taper=nt/sr, retain=retain, sr=sr)
    kw = dict(max_interpolation_length=lim, retain_len=retain,
              taper_len=nt/sr)
    if lim == 10 and rng.random() < .5:
        kw.pop('max_interpolation_length')
    out = mu.gap_handler(st, **kw)
    got = {t.id: t for t in out}
    ctx.eq(len(got), len(out), 'twice')
    for old in ref:
        o = vals(old)
        w = o.copy()
        e = np.concatenate(([False], np.isnan(o), [False]))
        e = np.flatnonzero(e[1:] != e[:-1])
        for a, b in zip(e[::2], e[1::2]):
            if a and b < len(o) and b-a <= lim:
                w[a:b] = o[a-1] + (o[b]-o[a-1])*np.arange(
                    1, b-a+1)/(b-a+1)
                ctx.event('gaps_filled')
            else:
                ctx.event('gaps_kept')
        for a, b in refcorr.runs(w):
            ctx.event('segments')
            if (b-a)/sr <= retain + 1e-9:
                w[a:b] = np.nan
            elif b-a >= 2*nt:
                r = np.sin(np.linspace(0, np.pi, 2*nt))
                w[a:a+nt] *= r[:nt]
                w[b-nt:b] *= r[nt:]
        tr = got.pop(old.id, None)
        if tr is None:
            ctx.expect(np.isnan(w).all(), 'lost', f'{ctx.desc}')
            continue
        v = at(tr, old.stats.starttime, len(o), sr)
        ctx.close(v, w, 'gap_handler', f'{ctx.desc}', rtol=1e-5,
                  atol=1. if old.data.dtype.kind == 'i' else 0)
    ctx.eq(list(got), [], 'made_up')
