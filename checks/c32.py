"""
The helper functions for sampling, geometry, headers and averages are run on
random inputs and compared with independent formulas: single frequencies
before and after resampling, geodesic relations, exact time arithmetic and
brute-force averages.
"""
import math
import os
import warnings

import numpy as np
from obspy import Stream, Trace, UTCDateTime
from obspy.core import AttribDict, Stats

from vlib import synth
from vlib.core import scenario

ASSUMPTIONS = [
    'the anti-alias filter is causal: amplitudes, not phases, are compared',
    'resampling to a rate that is not an integer fraction attenuates by up '
    'to two thirds of the amplitude below half of the new Nyquist frequency '
    '(spectral window and spectral interpolation of obspy)',
    'distances are compared with a geodesic integration on the WGS84 '
    'ellipsoid to one part in a thousand']
REQUIRED = {'passed': 100, 'removed': 100, 'decimated': 60, 'resampled': 60,
            'refused': 60, 'mixed': 40, 'trimmed': 200, 'distances': 400,
            'headers': 150, 'times': 1000, 'averages': 150, 'undefined': 500,
            'discarded': 100, 'kept': 100, 'polarity': 150, 'names': 50,
            'legacy': 40, 'integer_factors': 60, 'round_off': 2}


def sine_trace(rng, sr, n, f, a, t0, **kw):
    tr = Trace(a*np.sin(2*np.pi*f*np.arange(n)/sr+rng.uniform(0, 6)))
    tr.stats.update(dict({'network': 'AB', 'station': 'C', 'channel': 'HHZ'},
                         **kw))
    tr.stats.sampling_rate = sr
    tr.stats.starttime = t0
    return tr


def amplitude(tr, f):
    """Amplitude of the best fitting sine in the middle of the trace."""
    n = tr.stats.npts
    i = np.arange(n//4, 3*n//4)
    p = 2*np.pi*f*i*tr.stats.delta
    G = np.stack([np.sin(p), np.cos(p)], 1)
    w = np.hanning(len(i))
    c = np.linalg.lstsq(G*w[:, None], tr.data[i]*w, rcond=None)[0]
    return float(np.hypot(*c))


@scenario(quick=250, thorough=6000)
def resampling(ctx):
    """Low frequencies pass, high ones vanish, times stay."""
    from seismic.utils.miic_utils import resample_or_decimate
    rng = ctx.rng
    new = float(ctx.pick([1, 2, 5, 10, 25, .5, 12.5]))
    factor = float(ctx.pick([2, 3, 4, 5, 8, 10, 16, 20, 1.25, 2.5, 4/3, 1.6,
                             1]))
    if rng.random() < .3:
        factor = float(rng.integers(2, 41))
    elif rng.random() < .2:
        factor = float(np.round(rng.uniform(1.1, 40), 1))
    sr = new*factor
    n = int(rng.integers(1500, 4000)*max(1, factor))
    t0 = synth.rand_time(rng, res=1e-6)
    filt = True
    low = rng.random() < .5
    if low:
        f = new*.5*rng.uniform(.02, .5)
    elif factor == 1:
        f = new*.5*rng.uniform(.02, .9)
    else:
        # above the new Nyquist frequency
        q = min(.98, 1.02/factor)
        top = ctx.pick([.99, min(.99, 1.6*q)])
        f = .5*sr*rng.uniform(q, top)
    a = 10**rng.uniform(-12, 8)
    trs = [sine_trace(rng, sr, n, f, a, t0+k*100., station=f'S{k}')
           for k in range(int(rng.integers(1, 4)))]
    before = [tr.copy() for tr in trs]
    if len(trs) == 1 and rng.random() < .5:
        out = [resample_or_decimate(trs[0], new, filter=filt)]
    else:
        out = resample_or_decimate(Stream(trs), new)
    ctx.eq(len(out), len(before), 'traces', '')
    what = f'{sr} to {new} f {f}'
    for b, tr in zip(before, out):
        ctx.expect(abs(tr.stats.sampling_rate-new) < 1e-9*new, 'rate',
                   f'{what}: {tr.stats.sampling_rate}')
        ctx.expect(tr.stats.starttime == b.stats.starttime, 'start', what)
        ctx.eq(tr.id, b.id, 'id', what)
        ctx.expect(abs(tr.stats.endtime-b.stats.endtime) <= 2/new+2e-6,
                   'end', f'{what} {tr.stats.endtime-b.stats.endtime}')
        ctx.expect(tr.stats.npts == len(tr.data), 'npts', what)
        if factor == 1:
            ctx.close(tr.data, b.data, 'untouched', what, rtol=0, atol=0)
            continue
        g = amplitude(tr, f)/a
        if low:
            lo = .97 if factor == int(factor) else .33
            ctx.expect(lo <= g <= 1.03, 'passed', f'{what}: {g}')
            ctx.event('passed')
        else:
            m = np.abs(tr.data[len(tr)//4:3*len(tr)//4]).max()/a
            ctx.expect(m < .03, 'alias', f'{what}: {m}')
            ctx.event('removed')
        ctx.event('decimated' if factor == int(factor) else 'resampled')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        b = before[0]
        ctx.raises(ValueError, lambda: resample_or_decimate(
            b.copy(), sr*ctx.pick([1.01, 2])), 'upsampling')
        ctx.raises(TypeError, lambda: resample_or_decimate(
            b.data, new), 'no_trace')
        e = Stream()
        ctx.expect(len(resample_or_decimate(e, new)) == 0, 'empty', '')
    ctx.event('refused', 2)
    ctx.sig(sr, new, low, len(before))


@scenario(quick=100, thorough=2000)
def decimation(ctx):
    """With an integer factor, the remaining samples are unchanged."""
    from seismic.utils.miic_utils import resample_or_decimate
    from seismic.monitor import post_corr_process as P
    from seismic.correlate.stats import CorrStats
    rng = ctx.rng
    sr = float(ctx.pick([1, 2, 4, 5, 8, 10, 20, 25, 40, 50, 100]))
    k = int(rng.integers(2, 26))
    new = round(sr/k, 9)
    if abs(new*k-sr) > 1e-12*sr:
        k = int(ctx.pick([2, 4, 5, 8, 10, 20, 25]))
        new = round(sr/k, 9)
    what = f'{sr} to {new}'
    tr = synth.noise_trace(rng, 'AB', 'S', 'HHZ', synth.rand_time(
        rng, res=1e-3), int(rng.integers(k*10, k*10+900)), sr)
    x = tr.data.copy()
    out = resample_or_decimate(
        tr if rng.random() < .5 else Stream([tr]), new, filter=False)
    if isinstance(out, Stream):
        out = out[0]
    ctx.expect(abs(out.stats.sampling_rate-new) < 1e-9*new, 'rate', what)
    ctx.close(out.data, x[::k], 'decimated', what, rtol=0, atol=0)
    # correlations, there is always a filter
    n = int(rng.integers(k*10, k*10+300))
    d = rng.standard_normal((2, n))
    mats = []
    for f, arg in ((P.corr_mat_decimate, k),
                   (P.corr_mat_resample_or_decimate, new)):
        st = CorrStats({'start_lag': -5., 'sampling_rate': sr, 'npts': n})
        o, st = f(d.copy(), st, arg)
        ctx.eq(st['npts'], o.shape[1], 'npts', what)
        ctx.expect(abs(st['sampling_rate']-new) < 1e-9*new, 'rate', what)
        mats.append(o)
    ctx.close(mats[0], mats[1], 'decimated', f'correlations {what}',
              rtol=0, atol=0)
    ctx.event('integer_factors')
    if sr/new != sr//new:
        ctx.event('round_off')
    ctx.sig(sr, k)


@scenario(quick=80, thorough=2000)
def mixed(ctx):
    """Every trace of a stream on its own; slow ones stay."""
    from seismic.utils.miic_utils import resample_or_decimate
    rng = ctx.rng
    new = float(ctx.pick([1, 2, 5]))
    st, one = Stream(), []
    for k in range(int(rng.integers(2, 6))):
        sr = new*float(ctx.pick([.5, 1, 2, 4, 5, 2.5, 20]))
        tr = synth.noise_trace(rng, 'AB', f'S{k}', 'HHZ', synth.rand_time(
            rng, res=1e-3), int(rng.integers(300, 900)), sr)
        st.append(tr)
        one.append(tr.copy())
    if len({tr.stats.sampling_rate for tr in st}) == 1:
        if st[0].stats.sampling_rate < new:
            return
    filt = ctx.pick([True, False])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = resample_or_decimate(st, new, filt)
    ctx.eq(len(out), len(one), 'traces', '')
    for tr, b in zip(out, one):
        if b.stats.sampling_rate >= new:
            b = resample_or_decimate(b, new, filt)
        ctx.eq(tr.id, b.id, 'order', '')
        ctx.eq((tr.stats.sampling_rate, tr.stats.npts,
                str(tr.stats.starttime)),
               (b.stats.sampling_rate, b.stats.npts, str(b.stats.starttime)),
               'header', '')
        ctx.close(tr.data, b.data, 'data', '', rtol=1e-12)
        ctx.event('mixed')
    ctx.sig(new, [tr.stats.npts for tr in out])


@scenario(quick=200, thorough=4000)
def trim(ctx):
    """Samples within the trimmed span and no others."""
    from seismic.utils.miic_utils import trim_stream_delta, trim_trace_delta
    rng = ctx.rng
    sr = float(ctx.pick([1, 2, 10, 4]))
    st, spec = Stream(), []
    d0, d1 = [float(rng.integers(0, 60))/sr for _ in range(2)]
    for k in range(int(rng.integers(1, 5))):
        n = int(rng.integers(130, 300))
        tr = synth.noise_trace(rng, 'AB', f'S{k}', 'HHZ',
                               synth.rand_time(rng, res=1e-3), n, sr)
        st.append(tr)
        spec.append((tr.data.copy(), tr.stats.starttime))
    if len(st) == 1:
        out = [trim_trace_delta(st[0], d0, d1)]
    else:
        out = trim_stream_delta(st, d0, d1)
    for tr, (x, t) in zip(out, spec):
        a, b = int(round(d0*sr)), len(x)-int(round(d1*sr))
        ctx.close(tr.data, x[a:b], 'samples', f'{d0} {d1} {sr}', rtol=0,
                  atol=0)
        ctx.expect(abs(tr.stats.starttime-t-d0) < 1e-6, 'start', f'{d0}')
        ctx.event('trimmed')
    ctx.eq(len(out), len(spec), 'traces', '')
    ctx.sig(sr, d0, d1, len(spec))


A = 6378137.
F = 1/298.257223563
E2 = F*(2-F)


def geodesic(lat1, lon1, lat2, lon2):
    """Length of the normal section approximated by a fine polyline."""
    def xyz(la, lo):
        la, lo = np.radians(la), np.radians(lo)
        N = A/np.sqrt(1-E2*np.sin(la)**2)
        return np.array([N*np.cos(la)*np.cos(lo), N*np.cos(la)*np.sin(lo),
                         N*(1-E2)*np.sin(la)])
    p, q = xyz(lat1, lon1), xyz(lat2, lon2)
    s = np.linspace(0, 1, 400)[:, None]
    x = p*(1-s)+q*s
    # central projection onto the ellipsoid
    r = np.sqrt((x[:, 0]**2+x[:, 1]**2)/A**2+x[:, 2]**2/(A*(1-F))**2)
    x = x/r[:, None]
    return float(np.linalg.norm(np.diff(x, axis=0), axis=1).sum())


def bearing(lat1, lon1, lat2, lon2):
    a, b, c, d = map(math.radians, (lat1, lon1, lat2, lon2))
    return math.degrees(math.atan2(
        math.sin(d-b)*math.cos(c), math.cos(a)*math.sin(c)
        - math.sin(a)*math.cos(c)*math.cos(d-b))) % 360


@scenario(quick=300, thorough=8000)
def distances(ctx):
    """Distance, azimuth and filter agree with the coordinates."""
    from seismic.utils.miic_utils import (
        filter_stat_dist, inv_calc_az_baz_dist, trace_calc_az_baz_dist)
    rng = ctx.rng
    p = (rng.uniform(-80, 80), rng.uniform(-180, 180))
    far = 10**rng.uniform(-3.5, 1.4)
    q = (max(-85, min(85, p[0]+rng.normal()*far)),
         (p[1]+rng.normal()*far+180) % 360-180)
    if rng.random() < .05:
        q = p
    coord = {('AB', 'C'): (p[0], p[1], 0), ('AB', 'D'): (q[0], q[1], 0)}
    i0, i1 = [synth.inventory([s], coord) for s in coord]
    s0, s1 = [cls({'stla': c[0], 'stlo': c[1]}) for c, cls in zip(
        (p, q), (ctx.pick([Stats, AttribDict]) for _ in '01'))]
    az, baz, d = inv_calc_az_baz_dist(i0, i1)
    ctx.close(trace_calc_az_baz_dist(s0, s1), (az, baz, d), 'trace', f'{p}',
              rtol=1e-9, atol=1e-9)
    az2, baz2, d2 = inv_calc_az_baz_dist(i1, i0)
    ctx.expect(abs(d-d2) <= 1e-6*d+1e-6, 'symmetry', f'{d} {d2}')
    want = geodesic(*p, *q)
    ctx.expect(abs(d-want) <= 1.5e-3*want+1e-3, 'distance',
               f'{p} {q}: {d} {want}')
    if want > 10:
        def off(x, y):
            return abs((x-y+180) % 360-180)
        ctx.expect(off(az, baz2) < 1e-3 and off(baz, az2) < 1e-3, 'reverse',
                   f'{az} {baz} {az2} {baz2}')
        ctx.expect(off(az, bearing(*p, *q)) < .5, 'azimuth',
                   f'{p} {q}: {az} {bearing(*p, *q)}')
        ctx.expect(off(baz, bearing(*q, *p)) < .5, 'backazimuth',
                   f'{p} {q}: {baz} {bearing(*q, *p)}')
    for thres, w in ((d, True), (d*1.001+.1, True), (d*.999-.1, False),
                     (0, d == 0), (1e9, True)):
        ctx.eq(bool(filter_stat_dist(i0, i1, thres)), w, 'limit',
               f'{d} {thres}')
        ctx.event('distances')
    ctx.raises(TypeError, lambda: inv_calc_az_baz_dist(i0, s1), 'type')
    ctx.raises(TypeError, lambda: trace_calc_az_baz_dist(s0, q), 'type')
    ctx.event('refused', 2)
    ctx.sig(p, q)


@scenario(quick=200, thorough=4000)
def headers(ctx):
    """Header and time conversions are inverse to each other."""
    from seismic.utils import miic_utils as mu
    rng = ctx.rng
    n = int(rng.integers(1, 30))
    t = [synth.rand_time(rng, res=ctx.pick([1., 1e-3, 1e-6]), y0=1950)
         for _ in range(n)]
    ts = mu.convert_utc_to_timestamp(t if n > 1 or rng.random() < .5 else
                                     t[0])
    ctx.expect(isinstance(ts, np.ndarray) and ts.shape == (n,), 'shape',
               str(ts))
    for u, v in zip(t, ts):
        ctx.expect(abs(float(v)-u.ns*1e-9) < 1e-6, 'timestamp', f'{u} {v}')
    back = mu.convert_timestamp_to_utcdt(ts)
    back = back if n > 1 else [back]
    ctx.eq(len(back), n, 'length', '')
    for u, v in zip(t, back):
        ctx.expect(isinstance(v, UTCDateTime) and abs(u-v) < 1e-6, 'time',
                   f'{u} {v}')
        ctx.event('times')
    # headers of correlation matrices
    from seismic.correlate.stats import CorrStats
    m = ctx.pick([1, 1, 4])
    s = CorrStats({'network': 'AB-AB', 'station': 'C-D', 'location': '-00',
                   'channel': 'HHZ-HHE', 'sampling_rate': ctx.pick([1., 12.5]),
                   'start_lag': -float(rng.integers(0, 50)),
                   'npts': int(rng.integers(2, 100)),
                   'stla': rng.normal(), 'evla': rng.normal(),
                   'processing_label': ctx.pick(['x', '', 'ä']),
                   'az': rng.normal()})
    if m == 1:
        s['corr_start'], s['corr_end'] = t[0], t[0]+3600
    else:
        s['corr_start'] = [t[0]+i*3600 for i in range(m)]
        s['corr_end'] = [t[0]+i*3600+1800.25 for i in range(m)]
    import io
    buf = io.BytesIO()
    np.savez_compressed(buf, **mu.save_header_to_np_array(s))
    buf.seek(0)
    d = mu.load_header_from_np_array(np.load(buf))
    for k in s:
        a, b = s[k], d.get(k, 'missing')
        if k in ('corr_start', 'corr_end', 'starttime', 'endtime'):
            a, b = [x if isinstance(x, (list, np.ndarray)) else [x]
                    for x in (a, b)]
            ctx.expect(len(a) == len(b) and all(
                abs(x-y) < 2e-6 for x, y in zip(a, b)), 'header_time',
                f'{k}: {a} {b}')
        else:
            ctx.expect(np.array_equal(a, b), 'header', f'{k}: {a} {b}')
    ctx.expect(set(d) <= set(s), 'header_added', str(set(d)-set(s)))
    ctx.event('headers')
    ctx.sig(n, m, str(t[0]))


@scenario(quick=200, thorough=4000)
def averages(ctx):
    """Moving averages use the defined values of the window only."""
    from seismic.utils.miic_utils import nan_helper, nan_moving_av
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    shape = tuple(int(k) for k in rng.integers(1, 12, size=nd))
    x = rng.normal(size=shape)
    x[rng.random(shape) < rng.choice([0, .2, .7])] = np.nan
    h = int(rng.integers(0, 8))
    axis = int(rng.integers(-nd, nd))
    before = x.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        y = nan_moving_av(x, h, axis)
    ctx.close(x, before, 'input', '', rtol=0, atol=0)
    ctx.eq(y.shape, x.shape, 'shape', '')
    xs = np.moveaxis(x, axis, 0)
    want = np.full(xs.shape, np.nan)
    for i in range(len(xs)):
        w = xs[max(0, i-h):i+h+1]
        c = np.sum(~np.isnan(w), 0)
        with np.errstate(all='ignore'):
            want[i] = np.where(c > 0, np.nansum(w, 0)/c, np.nan)
    ctx.close(y, np.moveaxis(want, 0, axis), 'average',
              f'{shape} {h} {axis}', rtol=1e-12, atol=1e-13)
    ctx.event('averages')
    ctx.event('undefined', int(np.isnan(x).sum()))
    v = x.ravel()
    nans, f = nan_helper(v)
    ctx.eq(list(nans), [bool(k != k) for k in v], 'nan_helper', '')
    ctx.eq(list(f(~nans)), [i for i, k in enumerate(v) if k == k],
           'nan_helper', '')
    ctx.sig(shape, h, axis)


@scenario(quick=200, thorough=4000)
def selection(ctx):
    """Short and empty traces are removed, all others stay."""
    from seismic.utils.miic_utils import (
        discard_short_traces, get_valid_traces, stream_require_dtype)
    rng = ctx.rng
    st = Stream()
    lim = float(ctx.pick([1, 10, 7.5]))
    spec = []
    for k in range(int(rng.integers(0, 10))):
        sr = float(ctx.pick([1, 10, 4]))
        n = int(ctx.pick([1, int(lim*sr)-1, int(lim*sr), int(lim*sr)+1,
                          int(lim*sr)*3]))
        tr = synth.noise_trace(rng, 'AB', ctx.pick(['C', 'D']), 'HHZ',
                               UTCDateTime(2010, 1, 1), max(1, n), sr)
        mask = ctx.pick(['no', 'no', 'all', 'some', 'none'])
        if mask != 'no':
            m = {'all': np.ones(len(tr), bool), 'none': np.zeros(len(
                tr), bool), 'some': rng.random(len(tr)) < .5}[mask]
            tr.data = np.ma.masked_array(tr.data, m)
        st.append(tr)
        spec.append(tr.copy())
    a, b = st.copy(), st.copy()
    discard_short_traces(a, lim)
    keep = [tr for tr in spec if tr.stats.npts/tr.stats.sampling_rate > lim]
    compare(ctx, a, keep, 'short')
    ctx.event('discarded', len(st)-len(keep))
    ctx.event('kept', len(keep))
    get_valid_traces(b)
    keep = [tr for tr in spec
            if not np.ma.getmaskarray(tr.data).all()]
    compare(ctx, b, keep, 'valid')
    ctx.event('discarded', len(st)-len(keep))
    ctx.event('kept', len(keep))
    t = ctx.pick([np.float32, float, np.int32])
    c = st.copy()
    stream_require_dtype(c, t)
    for x, y in zip(c, spec):
        ctx.expect(x.data.dtype == t, 'dtype', f'{x.data.dtype} {t}')
        ctx.close(np.asarray(x.data), np.asarray(y.data).astype(t), 'dtype',
                  '', rtol=0, atol=0)
    ctx.sig(lim, [tr.stats.npts for tr in spec])


def compare(ctx, got, want, what):
    ctx.eq([(tr.id, tr.stats.npts, str(np.asarray(tr.data)[:3])) for tr in
            got], [(tr.id, tr.stats.npts, str(np.asarray(tr.data)[:3]))
                   for tr in want], what, '')


@scenario(quick=120, thorough=2000)
def polarity(ctx):
    """Vertical components are turned upwards, once, by their epoch."""
    from obspy.core.inventory import Channel, Inventory, Network, Station
    from seismic.utils.miic_utils import correct_polarity
    rng = ctx.rng
    t1 = UTCDateTime(2010, 6, 1)
    chans, dips = [], {}
    for st in ('C', 'D'):
        for ch in ('HHZ', 'HHN', 'BHZ'):
            for e, (s, x) in enumerate(((UTCDateTime(2000, 1, 1), t1-1e-3),
                                        (t1, UTCDateTime(2030, 1, 1)))):
                dip = float(rng.choice([-90, 90, -90, 90, 0, -60, 45])) \
                    if ch[2] == 'Z' else 0.
                dips[st, ch, e] = dip
                chans.append((st, Channel(
                    ch, '', 1, 2, 0, 0, azimuth=0, dip=dip, start_date=s,
                    end_date=x)))
    inv = Inventory([Network('AB', [Station(
        s, 1, 2, 0, channels=[c for k, c in chans if k == s])
        for s in 'CD'])], source='check')
    st, want = Stream(), []
    for _ in range(int(rng.integers(1, 7))):
        s, ch, e = (ctx.pick('CD'), ctx.pick(['HHZ', 'HHN', 'BHZ']),
                    int(rng.integers(2)))
        tr = synth.noise_trace(
            rng, 'AB', s, ch, t1+(1 if e else -3600)*rng.uniform(10, 1000), 50,
            1., dtype=ctx.pick([float, np.int32]))
        if rng.random() < .2:
            tr.data = np.ma.masked_array(tr.data, rng.random(50) < .3)
        st.append(tr)
        f = -1 if ch[2] == 'Z' and dips[s, ch, e] > 0 else 1
        want.append(np.array(tr.data)*f)
    correct_polarity(st, inv)
    for tr, w in zip(st, want):
        k = ~np.ma.getmaskarray(tr.data)
        ctx.close(np.array(tr.data)[k], w[k], 'polarity', tr.id, rtol=0,
                  atol=0)
        ctx.event('polarity')
    ctx.eq(len(st), len(want), 'traces', '')
    ctx.sig(str(dips), len(st))


@scenario(quick=60, thorough=500)
def names(ctx):
    """Functions by name, halves, flattened lists and old files."""
    import importlib
    from seismic.utils.fetch_func_from_str import func_from_str
    from seismic.utils.io import flatten, mat_to_corrtrace
    from seismic.utils.roundhalf import roundhalf
    rng = ctx.rng
    name = ctx.pick(['seismic.correlate.preprocessing_td.clip',
                     'numpy.linalg.norm', 'os.path.join', 'math.sqrt',
                     'seismic.utils.miic_utils.resample_or_decimate',
                     'json.loads'])
    m, f = name.rsplit('.', 1)
    ctx.expect(func_from_str(name) is getattr(importlib.import_module(m), f),
               'function', name)
    ctx.raises(AttributeError, lambda: func_from_str(name+'_no'), 'function')
    ctx.raises(ImportError, lambda: func_from_str('no_'+name), 'function')
    ctx.raises(TypeError, lambda: func_from_str(print), 'function')
    ctx.event('names')
    x = float(rng.normal()*10)
    r = roundhalf(x)
    ctx.expect(abs(r-x) <= .25 and (2*r) % 1 == 0, 'half', f'{x} {r}')

    def nest(depth):
        return [nest(depth-1) if depth and rng.random() < .4 else
                ctx.pick([1, 2.5, 'abc', None]) for _ in range(
                    int(rng.integers(0, 4)))]

    def flat(y):
        return sum([flat(k) if isinstance(k, list) else [k] for k in y], [])
    y = nest(3)
    ctx.eq(flatten(y), flat(y), 'flatten', '')
    # dictionaries of the predecessor
    n, sr = int(rng.integers(5, 50)), float(ctx.pick([1, 10]))
    lag = float(rng.integers(1, 50))
    t0 = UTCDateTime(1971, 1, 1)
    d = rng.normal(size=(n, 1))
    st = [{'network': 'AB', 'station': s, 'channel': 'HHZ', 'npts': n,
           'location': ctx.pick(['00', np.array([])]),
           'sampling_rate': sr, 'starttime': str(UTCDateTime(2010, 1, 1))}
          for s in 'CD']
    locs = ['-' if not isinstance(s['location'], str) else '00' for s in st]
    ctr = mat_to_corrtrace({
        'stats': {'starttime': str(t0-lag), 'endtime': str(t0-lag+(n-1)/sr)},
        'stats_tr1': st[0], 'stats_tr2': st[1], 'corr_trace': d})
    ctx.close(ctr.data, d.ravel(), 'legacy', '', rtol=0, atol=0)
    ctx.eq((ctr.stats.network, ctr.stats.station, ctr.stats.channel,
            ctr.stats.location, ctr.stats.npts, ctr.stats.sampling_rate),
           ('AB-AB', 'C-D', 'HHZ-HHZ', '-'.join(locs), n, sr), 'legacy', '')
    ctx.expect(abs(ctr.stats.start_lag+lag) < 1e-6, 'legacy',
               f'{ctr.stats.start_lag} {lag}')
    ctx.event('legacy')
    ctx.sig(name, n, x)
    # a matrix of correlations in a file
    import scipy.io
    from seismic.utils.io import corrmat_to_corrbulk
    m = int(rng.integers(2, 8))
    A = rng.normal(size=(m, n))
    t1 = synth.rand_time(rng, res=1.)
    times = [t1+3600*int(k) for k in np.sort(rng.choice(
        100, m, replace=False))]
    pos = dict(zip(('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel'),
                   synth.coords(rng)+synth.coords(rng)))
    f = os.path.join(ctx.tmp(), 'legacy.mat')
    scipy.io.savemat(f, {
        'corr_data': A, 'time': [str(t) for t in times],
        'stats': dict(pos, starttime=str(t0-lag), network='AB-AB',
                      station='C-D', channel='HHZ-HHN', location='-',
                      sampling_rate=sr, npts=n)})
    cb = corrmat_to_corrbulk(f)
    ctx.close(cb.data, A, 'legacy', '', rtol=0, atol=0)
    ctx.eq([t.ns for t in cb.stats.corr_start], [t.ns for t in times],
           'legacy', 'matrix times')
    ctx.eq((cb.stats.network, cb.stats.station, cb.stats.channel,
            cb.stats.npts, cb.stats.sampling_rate),
           ('AB-AB', 'C-D', 'HHZ-HHN', n, sr), 'legacy', 'matrix')
    ctx.close([cb.stats.start_lag, cb.stats.end_lag]+[
        cb.stats[k] for k in pos], [-lag, -lag+(n-1)/sr]+list(pos.values()),
        'legacy', 'matrix', rtol=1e-9)
