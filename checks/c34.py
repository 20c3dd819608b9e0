"""
Requests that cannot be answered (unknown methods, lengths and windows that do
not fit, wrong types, missing arguments) are made with random parameters on
both sides of the border of what is allowed; the error, the arguments and the
files afterwards are watched, and requests at the border have to be served.
"""
import copy
import glob
import hashlib
import os
import warnings

import numpy as np

from vlib.core import scenario
from vlib import synth, archive
from vlib.frozen import freeze, diff
from vlib.monproj import Project
from checks import c24
from checks.c28 import make_grid

ASSUMPTIONS = [
    'the kind of the error is the documented one or the one of the code '
    'base; its text is not looked at',
    'files created by a refused request are no concern, altered ones are']
REQUIRED = {'refused': 6000, 'served': 1500, 'matrices': 100, 'shifts': 100,
            'windows': 100, 'traces': 100, 'spectra': 100, 'streams': 80,
            'databases': 40, 'averages': 60, 'projects': 12, 'grids': 40,
            'archives': 30, 'correlators': 20, 'plots': 20, 'helpers': 40}


def refuse(ctx, name, exc, f, *a, **k):
    """f(*a, **k) raises exc and leaves the arguments and its owner alone."""
    own = getattr(f, '__self__', None)
    if isinstance(own, type(os)):
        own = None
    before = freeze((a, k, own))
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        ctx.raises(exc, lambda: f(*a, **k), f'accepted:{name}', name)
    d = diff(before, freeze((a, k, own)))
    ctx.expect(d is None, f'changed:{name}', f'{name} changed {d}')
    ctx.event('refused')
    ctx.sig(name)


def serve(ctx, name, f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            out = f(*a, **k)
        except Exception as e:
            ctx.fail(f'refused:{name}', f'{type(e).__name__}: {e}')
            return None
    ctx.event('served')
    return out


def word(ctx, known):
    """Something that is not known."""
    w = ctx.pick(list(known)+['abc'])
    v = ctx.pick([w+'x', w[:-1], w.capitalize() + ' ', '', w[::-1], 'None'])
    return v if v not in known else 'unknown'


def digest(root):
    return {p: hashlib.sha1(open(p, 'rb').read()).hexdigest()
            for p in glob.glob(root+'/**', recursive=True)
            if os.path.isfile(p) and '/log/' not in p}


def rbulk(ctx, m=None, n=None, sr=None, **kw):
    rng = ctx.rng
    m = m or int(rng.integers(2, 9))
    n = n or int(ctx.pick([81, 101, 161]))
    t0 = synth.rand_time(rng, res=1.)
    return synth.bulk(rng.standard_normal((m, n)),
                      [t0+3600.*i for i in range(m)],
                      sr=sr or float(ctx.pick([1., 4., 10.])), rng=rng, **kw)


@scenario(quick=120, thorough=3000)
def matrices(ctx):
    from seismic.monitor import post_corr_process as pcp
    rng = ctx.rng
    b = rbulk(ctx)
    A, st = b.data, b.stats
    m, n = A.shape
    sr = st.sampling_rate
    ctx.event('matrices')
    # smoothing
    wins = ['flat', 'hanning', 'hamming', 'bartlett', 'blackman']
    refuse(ctx, 'smooth:dim', ValueError, pcp._smooth, A, 5)
    refuse(ctx, 'smooth:long', ValueError, pcp._smooth, A[0],
           n + int(rng.integers(1, 10)))
    refuse(ctx, 'smooth:window', ValueError, pcp._smooth, A[0],
           int(rng.integers(3, n//2)), word(ctx, wins))
    serve(ctx, 'smooth', pcp._smooth, A[0], n, ctx.pick(wins))
    # filter
    fr = sr*np.sort(rng.uniform(.05, .4, 3))
    refuse(ctx, 'filter:one', ValueError, b.copy().filter, [fr[0]])
    refuse(ctx, 'filter:three', ValueError, b.copy().filter, list(fr))
    refuse(ctx, 'filter:none', ValueError, b.copy().filter, [])
    serve(ctx, 'filter', b.copy().filter, (fr[0], fr[2]))
    # resampling along the start times
    s = np.array([t.timestamp for t in st.corr_start])
    for e in (s[:-1]+3600, np.append(s, s[-1]+9)+3600, s[:1]+3600):
        if len(e) != m:
            refuse(ctx, 'resample:ends', ValueError, b.copy().resample, s,
                   list(e))
    serve(ctx, 'resample', b.copy().resample, s, list(s+3600))
    # along the lag times
    refuse(ctx, 'resample_time:up', ValueError, pcp.corr_mat_resample_time,
           A, st, sr*float(rng.uniform(1.001, 4)))
    serve(ctx, 'resample_time:same', pcp.corr_mat_resample_time, A.copy(),
          copy.deepcopy(st), sr)
    for f in (0, -1, -int(rng.integers(2, 9)), .5):
        refuse(ctx, 'decimate:factor', ValueError, pcp.corr_mat_decimate, A,
               st, f)
    serve(ctx, 'decimate:one', pcp.corr_mat_decimate, A.copy(),
          copy.deepcopy(st), 1)
    # tapers
    dur = n/sr
    refuse(ctx, 'taper:long', ValueError, pcp.corr_mat_taper, A, st,
           dur*float(rng.uniform(1.01, 3)))
    refuse(ctx, 'taper:negative', ValueError, pcp.corr_mat_taper, A, st,
           -dur*float(rng.uniform(.01, 2)))
    refuse(ctx, 'centre:long', ValueError, pcp.corr_mat_taper_center, A, st,
           dur*float(rng.uniform(1.01, 3)))
    refuse(ctx, 'centre:negative', ValueError, pcp.corr_mat_taper_center, A,
           st, -dur*float(rng.uniform(.001, 2)))
    B = A.copy()
    for f in (pcp.corr_mat_taper, pcp.corr_mat_taper_center):
        out = serve(ctx, 'taper:none', f, B, st, 0)
        ctx.expect(np.array_equal(out, A), 'taper:none', 'width 0')
    # normalisation
    kinds = ['energy', 'abssum', 'max', 'absmax']
    a, e = np.sort(rng.uniform(st.start_lag+1/sr, st.end_lag-1/sr, 2))
    e = max(e, a+2/sr)
    refuse(ctx, 'normalize:type', ValueError, pcp.corr_mat_normalize, A, st,
           a, min(e, st.end_lag-1/sr), word(ctx, kinds))
    k = ctx.pick(kinds)
    q = st.start_lag + int(rng.integers(1, n-1))/sr
    for lim in ((q, q), (q, q-1/sr), (q, st.start_lag),
                (None, st.start_lag)):
        refuse(ctx, 'normalize:empty', ValueError, pcp.corr_mat_normalize, B,
               st, *lim, k)
    for lim in ((st.start_lag-float(rng.uniform(2, 9))/sr, None),
                (None, st.end_lag+float(rng.uniform(2, 9))/sr),
                (st.end_lag+float(rng.uniform(2, 9))/sr, None),
                (None, st.start_lag-float(rng.uniform(2, 9))/sr)):
        out = serve(ctx, 'normalize:limits', pcp.corr_mat_normalize, B, st,
                    *lim, ctx.pick(kinds))
        ctx.expect(np.array_equal(out, A), 'normalize:limits',
                   f'limits {lim} outside of the trace')
    # reference
    refuse(ctx, 'extract:method', ValueError, b.copy().extract_trace,
           word(ctx, ['mean', 'norm_mean', 'similarity_percentile']))
    # trimming
    for lim in ((st.start_lag-float(rng.uniform(2, 9))/sr, 0.),
                (0., st.end_lag+float(rng.uniform(2, 9))/sr)):
        c = serve(ctx, 'trim:limits', b.copy().trim, *lim)
        ctx.expect(np.array_equal(c.data, A)
                   and c.stats.start_lag == st.start_lag
                   and c.stats.npts == n, 'trim:limits',
                   f'limits {lim} outside of {st.start_lag} {st.end_lag}')
    # selections
    t = st.corr_start[int(rng.integers(m))]
    for d in (0, float(rng.uniform(1, 1e6))):
        refuse(ctx, 'select:order', ValueError, b._find_slice_index, t, t-d,
               ctx.chance(.5))


@scenario(quick=120, thorough=3000)
def shifts(ctx):
    from seismic.monitor import post_corr_process as pcp
    rng = ctx.rng
    b = rbulk(ctx, n=ctx.pick([101, 161]))
    A, st = b.data, b.stats
    sr, end = st.sampling_rate, st.end_lag
    ctx.event('shifts')
    rg = float(rng.uniform(2, 5))/sr
    ok = dict(shift_range=rg, shift_steps=int(rng.integers(2, 9))*2+1)
    tw = [[float(rng.uniform(0, .2))*end, float(rng.uniform(.5, .8))*end]]

    def req(name, exc=ValueError, **kw):
        kw = {**ok, 'tw': tw, 'sides': ctx.pick(['both', 'single']), **kw}
        refuse(ctx, 'measure:'+name, exc, b.measure_shift, **kw)

    req('even', shift_steps=int(rng.integers(1, 20))*2)
    req('sides', sides=word(ctx, ['both', 'single']))
    req('sides', sides=ctx.pick(['left', 'right', None]))
    req('items', tw=tw+[ctx.pick([[tw[0][0]], tw[0]+[end], []])])
    req('negative', sides='both', tw=[[-tw[0][0]-1/sr, tw[0][1]]])
    req('reference', ref_trc=rng.standard_normal(
        A.shape[1]+int(ctx.pick([-1, 1, -10]))))
    req('end', AssertionError, tw=[[tw[0][0], end-rg+.01/sr]])
    req('start', AssertionError, sides='single', tw=[
        [st.start_lag+rg-.01/sr, tw[0][1]]])
    serve(ctx, 'measure', b.copy().measure_shift, tw=[
        [tw[0][0], end-rg]], sides=ctx.pick(['both', 'single']), **ok)
    serve(ctx, 'measure', b.copy().measure_shift, tw=[
        [st.start_lag+rg, tw[0][1]]], sides='single', **ok)
    known = ['both', 'right', 'single', 'left']
    refuse(ctx, 'shift:sides', ValueError, pcp.corr_mat_shift, A.copy(),
           copy.deepcopy(st), sides=word(ctx, known))


@scenario(quick=120, thorough=3000)
def windows(ctx):
    from seismic.monitor import stretch_mod as sm
    rng = ctx.rng
    ctx.event('windows')
    k = int(rng.integers(2, 6))
    start = [int(i) for i in rng.integers(0, 30, k)]
    wid = [int(i) for i in rng.integers(1, 20, k)]
    refuse(ctx, 'windows:length', ValueError, sm.time_windows_creation,
           start, wid+[3])
    refuse(ctx, 'windows:length', ValueError, sm.time_windows_creation,
           start, wid[:-1])
    j = int(rng.integers(k))
    for v in (0, -int(rng.integers(1, 5))):
        refuse(ctx, 'windows:none', ValueError, sm.time_windows_creation,
               start, wid[:j]+[v]+wid[j+1:])
        refuse(ctx, 'windows:none', ValueError, sm.time_windows_creation,
               ctx.pick([start, start[0]]), v)
    got = serve(ctx, 'windows', sm.time_windows_creation, start, wid)
    ctx.eq([list(map(int, g)) for g in got],
           [list(range(s, s+w)) for s, w in zip(start, wid)], 'windows')

    m, n, q = (int(rng.integers(2, 6)), int(rng.choice([41, 60, 101])),
               int(rng.integers(3, 9)))
    A = rng.standard_normal((m, n))
    R = rng.standard_normal((q, n))
    vec = np.linspace(-.1, .1, q)
    c = (n-1)//2
    tw = [np.arange(2, c-5)]
    sides = ['both', 'left', 'right', 'single']
    for d in (-1, 1, 7):
        refuse(ctx, 'stretch:shape', ValueError, sm.velocity_change_estimate,
               A, tw, rng.standard_normal((q, n+d)), vec, ctx.pick(sides))
        refuse(ctx, 'wfc:reference', AssertionError, sm.compute_wfc, A, tw,
               rng.standard_normal(n+d), ctx.pick(sides))
    bad = word(ctx, sides)
    refuse(ctx, 'stretch:sides', ValueError, sm.velocity_change_estimate, A,
           tw, R, vec, bad)
    refuse(ctx, 'wfc:sides', ValueError, sm.compute_wfc, A, tw, R[0], bad)
    # one sample more than there is on the left, the right, at all
    for side, last in (('left', c), ('both', c), ('right', n-1-c),
                       ('single', n-1)):
        w = np.arange(int(rng.integers(0, 5)), last+1)
        v = np.append(w, np.arange(last+1, last+1+int(rng.integers(1, 4))))
        refuse(ctx, 'stretch:window:'+side, IndexError,
               sm.velocity_change_estimate, A, [v], R, vec, side)
        refuse(ctx, 'wfc:window:'+side, IndexError, sm.compute_wfc, A, [v],
               R[0], side)
        serve(ctx, 'stretch:window:'+side, sm.velocity_change_estimate, A,
              [w], R, vec, side)
        serve(ctx, 'wfc:window:'+side, sm.compute_wfc, A, [w], R[0], side)
    for f in (sm.time_shift_apply, sm.time_stretch_apply):
        for d in (-1, 1, 3):
            refuse(ctx, f.__name__+':1d', ValueError, f, A,
                   .01*rng.standard_normal(m+d))
            refuse(ctx, f.__name__+':2d', ValueError, f, A,
                   .01*rng.standard_normal((m+d, ctx.pick([1, n]))))
        serve(ctx, f.__name__, f, A, .01*rng.standard_normal(m))
        serve(ctx, f.__name__, f, A, .01*rng.standard_normal((m, 1)))
    for d in (-1, 1):
        refuse(ctx, 'time_shift_apply:samples', ValueError,
               sm.time_shift_apply, A, .1*rng.standard_normal((m, n+d)))
    serve(ctx, 'time_shift_apply:samples', sm.time_shift_apply, A,
          .1*rng.standard_normal((m, n)))
    b = rbulk(ctx)
    refuse(ctx, 'shifted:dim', AssertionError, sm.create_shifted_ref_mat,
           b.data, b.stats, np.linspace(-1, 1, 5))
    dv = c24.make(ctx)
    if dv.value_type != 'stretch':
        refuse(ctx, 'correct:type', ValueError, b.correct_stretch, dv)


@scenario(quick=120, thorough=3000)
def traces(ctx):
    from obspy import Stream, Trace, UTCDateTime
    from seismic.correlate import preprocessing_stream as ps
    from seismic.utils import miic_utils as mu
    rng = ctx.rng
    ctx.event('traces')
    n, sr = int(rng.integers(50, 400)), float(ctx.pick([1., 5., 20.]))
    t0 = synth.rand_time(rng, res=1.)
    tr = synth.noise_trace(rng, 'XX', 'AB', 'HHZ', t0, n, sr)
    st = Stream([tr.copy(), tr.copy()])
    at = ctx.chance(.5)
    for v in (0, -float(rng.uniform(.01, 50))):
        refuse(ctx, 'taper:length', ValueError, ps.cos_taper, tr, v, at,
               False)
    for k in (1, int(rng.integers(1, 30))):
        refuse(ctx, 'taper:long', ValueError, ps.cos_taper, tr,
               (n//2+k)/sr, False, False)
    serve(ctx, 'taper:half', ps.cos_taper, tr.copy(), (n//2)/sr, False,
          False)
    out = serve(ctx, 'taper:short', ps.cos_taper, tr.copy(), .3/sr, False,
                False)
    ctx.expect(out is None or np.array_equal(out.data, tr.data),
               'taper:short', 'less than half a sample')
    gone = Trace(np.ma.masked_all(n), header={'starttime': t0})
    refuse(ctx, 'taper:masked', ValueError, ps.cos_taper, gone, 2., True,
           False)
    for x in (tr.data, [tr.data], 'trace', None, [tr]):
        refuse(ctx, 'filter:type', TypeError, ps.stream_filter, x,
               'lowpass', {'freq': .2*sr})
        refuse(ctx, 'resample:type', TypeError, mu.resample_or_decimate, x,
               sr/2)
    # masks
    k = int(rng.integers(1, 4))
    s = [t0+float(rng.uniform(0, n/sr)) for _ in range(k)]
    e = [t+2. for t in s]
    mask = ps.stream_mask_at_utc
    refuse(ctx, 'mask:neither', ValueError, mask, st, s)
    refuse(ctx, 'mask:both', ValueError, mask, st, s, e, 2.)
    refuse(ctx, 'mask:both', ValueError, mask, st, s, e, 0)
    refuse(ctx, 'mask:ends', ValueError, mask, st, s, e[:-1])
    refuse(ctx, 'mask:ends', ValueError, mask, st, s, e+[e[-1]])
    refuse(ctx, 'mask:ends', ValueError, mask, st, s, [])
    serve(ctx, 'mask', mask, st.copy(), s, e)
    serve(ctx, 'mask', mask, st.copy(), s, None, 2.)
    # sampling rates
    up = sr*float(rng.uniform(1.001, 4))
    refuse(ctx, 'resample:up', ValueError, mu.resample_or_decimate, tr, up)
    refuse(ctx, 'resample:up', ValueError, mu.resample_or_decimate, st, up)
    out = serve(ctx, 'resample:same', mu.resample_or_decimate, st.copy(), sr)
    ctx.expect(out is None or np.array_equal(out[0].data, tr.data),
               'resample:same', 'sampling rate of the data')
    # distances
    for x in (tr, {'a': 1}, None, 'stats', 3.):
        if not isinstance(x, dict):
            refuse(ctx, 'distance:type', TypeError,
                   mu.trace_calc_az_baz_dist, tr.stats, x)
            refuse(ctx, 'distance:type', TypeError,
                   mu.trace_calc_az_baz_dist, x, tr.stats)
    inv = synth.inventory([('XX', 'AB')], {('XX', 'AB'): (1., 2., 3.)})
    for x in (inv[0], None, tr, [inv]):
        refuse(ctx, 'inventories:type', TypeError, mu.inv_calc_az_baz_dist,
               inv, x)
        refuse(ctx, 'inventories:type', TypeError, mu.inv_calc_az_baz_dist,
               x, inv)
    serve(ctx, 'inventories', mu.inv_calc_az_baz_dist, inv, inv)
    assert UTCDateTime


@scenario(quick=120, thorough=3000)
def spectra(ctx):
    from seismic.correlate import preprocessing_td as td
    from seismic.correlate import preprocessing_fd as fd
    rng = ctx.rng
    ctx.event('spectra')
    m, n = int(rng.integers(1, 7)), int(rng.integers(40, 300))
    sr = float(ctx.pick([1., 5., 20.]))
    A = rng.standard_normal((m, n))
    par = dict(sampling_rate=sr, lengthToSave=3.)
    refuse(ctx, 'mute:taper', ValueError, td.mute, A, {
        'taper_len': ctx.pick([0, 0.]), 'std_factor': 1., 'filter': {},
        'extend_gaps': True}, par)
    for v in (0, -float(rng.uniform(.01, 50))):
        refuse(ctx, 'normalise:window', ValueError, td.TDnormalization, A,
               {'windowLength': v, 'filter': {}}, par)
    kinds = ['nextFastLen', 'avoidWrapAround', 'avoidWrapFastLen']
    refuse(ctx, 'pad:type', ValueError, td.zeroPadding, A,
           {'type': word(ctx, kinds)}, par)
    refuse(ctx, 'pad:dim', NotImplementedError, td.zeroPadding,
           A[None], {'type': ctx.pick(kinds)}, par)
    refuse(ctx, 'pad:axis', NotImplementedError, td.zeroPadding, A,
           {'type': ctx.pick(kinds)}, par, axis=int(rng.integers(2, 5)))
    refuse(ctx, 'pad:empty', ValueError, td.zeroPadding, np.array([]),
           {'type': ctx.pick(kinds)}, par, axis=0)
    out = serve(ctx, 'pad', td.zeroPadding, A, {'type': ctx.pick(kinds)},
                par)
    ctx.expect(out is None or np.array_equal(out[:, :n], A), 'pad', 'data')
    for k in ('qr', 'scipy'):
        refuse(ctx, 'detrend:type', ValueError, td.detrend, A, {
            'method': k, 'type': word(ctx, ['linear', 'constant', 'l',
                                            'c'])}, par)
        for t in ('linear', 'constant'):
            serve(ctx, 'detrend', td.detrend, A, {'method': k, 'type': t},
                  par)
    refuse(ctx, 'detrend:method', ValueError, td.detrend, A, {
        'method': word(ctx, ['qr', 'scipy']), 'type': 'linear'}, par)
    refuse(ctx, 'detrend:dim', ValueError, td.detrendqr, A[None])
    F = np.fft.rfft(A, axis=1)
    G = F.copy()
    if m % 3:
        refuse(ctx, 'whiten:three', AssertionError, fd.spectralWhitening, G,
               {'joint_norm': True}, par)
    else:
        serve(ctx, 'whiten:three', fd.spectralWhitening, G.copy(),
              {'joint_norm': True}, par)
    serve(ctx, 'whiten', fd.spectralWhitening, G.copy(),
          {'joint_norm': False}, par)


@scenario(quick=100, thorough=2500)
def streams(ctx):
    from obspy import Stream
    from seismic.correlate import stream as cs
    from seismic.correlate import correlate as cc
    rng = ctx.rng
    ctx.event('streams')
    t0 = synth.rand_time(rng, res=1.)
    a = synth.noise_trace(rng, 'XX', 'AB', 'HHZ', t0, 50, 5.)
    for x in (a, None, 'stats', dict(a.stats)):
        refuse(ctx, 'combine:type', TypeError, cs.combine_stats, a.stats, x,
               -1.)
        refuse(ctx, 'combine:type', TypeError, cs.combine_stats, x, a.stats,
               -1.)
    m, n = int(rng.integers(2, 7)), int(rng.integers(5, 40))*2+1
    length = float(ctx.pick([60., 600., 3600.]))
    D = rng.standard_normal((m, n))
    start = [t0+length*i for i in range(m)]
    h = synth.corr_header(npts=n, rng=rng)
    pos = {k: h[k] for k in ('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel',
                             'dist', 'az', 'baz')}
    st = synth.corr_stream(D, start, length=length, extra=pos)
    for x in (st.traces+[a], [a], Stream([a]), [None], ['x']):
        refuse(ctx, 'stream:type', TypeError, cs.CorrStream, x)
    # nothing to make a matrix of
    refuse(ctx, 'bulk:empty', ValueError, cs.CorrStream().create_corr_bulk,
           inplace=False)
    refuse(ctx, 'bulk:network', ValueError, st.create_corr_bulk,
           network='QQ-QQ', inplace=False)
    late = start[-1]+length+float(rng.uniform(1, 1e5))
    refuse(ctx, 'bulk:times', ValueError, st.create_corr_bulk,
           times=(late, late+length), inplace=False)
    refuse(ctx, 'bulk:times', ValueError, st.create_corr_bulk,
           times=(start[0]-length-1e3, start[0]-2.), inplace=False)
    serve(ctx, 'bulk', st.create_corr_bulk, inplace=False)
    # different properties
    j = int(rng.integers(1, m))
    for key, val in (('network', 'YY-YY'), ('station', 'C-D'),
                     ('start_lag', 77.), ('stla', pos['stla']+1),
                     ('evlo', pos['evlo']-1), ('dist', pos['dist']+3),
                     ('baz', pos['baz']+.5), ('channel', 'HHN-HHN')):
        tr = [t.stats.copy() for t in st]
        tr[j][key] = val
        refuse(ctx, 'stats:'+key, ValueError,
               cs.convert_statlist_to_bulk_stats, tr)
    serve(ctx, 'stats', cs.convert_statlist_to_bulk_stats,
          [t.stats.copy() for t in st])
    # windows

    def slide(w, s):
        return list(st.slide(w, s))
    refuse(ctx, 'slide:short', ValueError, slide,
           length*float(rng.uniform(.1, .99)), length)
    for v in (0, -float(rng.uniform(1, 500))):
        refuse(ctx, 'slide:step', ValueError, slide, 2*length, v)
    serve(ctx, 'slide', slide, length, length)
    # headers
    for v in ('EZ', 'E-Z-N', '', 'E', 'HHE-HHZ', 5):
        s = st[0].stats.copy()
        refuse(ctx, 'component', ValueError, s.__setattr__, 'component', v)
    # combinations of codes
    for bad in (5, None, ['a'], b'x'):
        c = ['XX', 'A', 'YY', 'B']
        c[int(rng.integers(4))] = bad
        refuse(ctx, 'sort:type', TypeError, cc.sort_comb_name_alphabetically,
               *c)
    meth = ['betweenStations', 'betweenComponents', 'autoComponents',
            'allSimpleCombinations', 'allCombinations']
    refuse(ctx, 'combinations:method', ValueError,
           cc.compute_network_station_combinations, ['XX', 'XX'],
           ['A', 'B'], word(ctx, meth))
    two = Stream([a, synth.noise_trace(rng, 'XX', 'AC', 'HHZ', t0, 50, 5.)])
    refuse(ctx, 'traces:method', ValueError, cc.calc_cross_combis, two, {},
           word(ctx, meth))
    k = ctx.pick(meth)
    serve(ctx, 'combinations', cc.compute_network_station_combinations,
          ['XX', 'XX'], ['A', 'B'], k)
    serve(ctx, 'traces', cc.calc_cross_combis, two, {}, k)


@scenario(quick=50, thorough=1000)
def databases(ctx):
    import h5py
    from obspy import UTCDateTime
    from seismic.db import corr_hdf5 as db
    from seismic.monitor.dv import read_dv
    from seismic.monitor import monitor as mo
    rng = ctx.rng
    ctx.event('databases')
    root = ctx.tmp()
    path = root + '/XX-XX.A-B.h5'
    n = int(rng.integers(10, 60))
    t0 = synth.rand_time(rng, res=1.)
    st = synth.corr_stream(rng.standard_normal((3, n)),
                           [t0, t0+3600, t0+7200])
    co = archive.options(root, t0, t0+86400)['co']
    with db.CorrelationDataBase(path, co, 'w') as d:
        d.add_correlation(st)
    before = digest(root)

    def opened(c, mode, fun=None, **kw):
        with db.CorrelationDataBase(path, c, mode, **kw) as d:
            if fun:
                return fun(d)

    one = synth.noise_trace(rng, 'XX', 'A', 'HHZ', t0, n, 10.)
    for x in (one, st[0].data, [st[0]], None, 'x', dict(st[0].stats)):
        refuse(ctx, 'add:type', TypeError, opened, co, ctx.pick('ar'),
               lambda d: d.add_correlation(x))
    c = ['XX-XX', 'A-B', 'HHZ-HHZ']
    j = int(rng.integers(3))
    c[j] = ctx.pick(['*', c[j][:-1]+'*', '*'+c[j]])
    refuse(ctx, 'remove:wildcard', ValueError, opened, co, 'a',
           lambda d: d.remove_data(*c, 'subdivision', ctx.pick(['*', t0])))
    for x in (None, 5., t0.timestamp, t0.datetime, [t0]):
        refuse(ctx, 'remove:start', TypeError, opened, co, 'a',
               lambda d: d.remove_data('XX-XX', 'A-B', 'HHZ-HHZ',
                                       'subdivision', x))
    # other options
    o = copy.deepcopy(co)
    k = int(rng.integers(8))
    part = ctx.pick([o, o['subdivision'], o['corr_args']])
    if k > 5:
        # options that were not given for one of the two
        part['new_option'] = ctx.pick([True, 0, 'x', [1]])
    elif k == 5:
        del part[ctx.pick([q for q in part if q not in (
            'subdivision', 'corr_args', 'preProcessing', 'subdir',
            'read_start', 'read_end', 'read_len', 'read_inc',
            'combination_method', 'xcombinations', 'combinations',
            'preprocess_subdiv',
            'delete_subdivision', 'recombine_subdivision')])]
    elif k == 0:
        o['sampling_rate'] += float(rng.uniform(.1, 5))
    elif k == 1:
        o['subdivision']['corr_len'] += 1
    elif k == 2:
        o['corr_args']['lengthToSave'] *= 2
    elif k == 3:
        o['corr_args']['TDpreProcessing'] = [
            {'function': 'seismic.correlate.preprocessing_td.detrend',
             'args': {'type': 'linear'}}]
    else:
        o['remove_response'] = not o['remove_response']
    refuse(ctx, 'options:differ', PermissionError, opened, o,
           ctx.pick(['a', 'r', 'r+']))
    serve(ctx, 'options:force', opened, o, 'r', _force=True)
    serve(ctx, 'options:same', opened, copy.deepcopy(co), 'r')
    serve(ctx, 'options:none', opened, None, 'r')
    got = digest(root)
    ctx.expect(got == before, 'file', 'the file changed')
    with h5py.File(root + '/plain.h5', 'w') as f:
        f.create_group('x')
    with db.CorrelationDataBase(root + '/plain.h5', mode='r') as d:
        refuse(ctx, 'options:missing', KeyError, d.get_corr_options)
    for w in ('lzf3', 'szip1', 'gzi9'):
        refuse(ctx, 'compression', ValueError, opened, co, 'a',
               compression=w)
    got = digest(root)
    ctx.expect(got[path] == before[path], 'file', 'the file changed')
    # velocity changes
    for w in ('*.npz', '?.npz', 'DV-*'):
        refuse(ctx, 'dv:none', FileNotFoundError, read_dv, root + '/' + w)
    refuse(ctx, 'dv:none', FileNotFoundError, read_dv, root + '/a.npz')
    # time windows
    a, b = str(t0), str(t0 + 86400)
    inc, win = (int(i) for i in rng.integers(1, 8000, 2))
    for x, y in ((0, win), (inc, 0), (-inc, win), (inc, -win), (0, 0)):
        refuse(ctx, 'times:positive', ValueError, mo.make_time_list, a, b, x,
               y)
    refuse(ctx, 'times:order', ValueError, mo.make_time_list, b, a, inc, win)
    refuse(ctx, 'times:order', ValueError, mo.make_time_list, a, a, inc, win)
    serve(ctx, 'times', mo.make_time_list, a, str(UTCDateTime(a)+1), inc,
          win)


@scenario(quick=80, thorough=2000)
def averages(ctx):
    from seismic.monitor import monitor as mo
    rng = ctx.rng
    ctx.event('averages')
    a = c24.make(ctx, m=int(rng.integers(3, 12)))
    a.stats['channel'] = 'HHZ-HHZ'
    others = ['single_ref', 'time_shift', 'multi_ref', 'absolute_shift']
    b = copy.deepcopy(a)
    b.method = ctx.pick([o for o in others if o != a.method])
    seq = [copy.deepcopy(a) for _ in range(int(rng.integers(1, 4)))]
    seq.insert(int(rng.integers(1, len(seq)+1)), b)
    refuse(ctx, 'average:method', TypeError, mo.average_components, seq)
    refuse(ctx, 'average_save:method', TypeError,
           mo.average_components_mem_save, seq)
    av = copy.deepcopy(a)
    av.stats['channel'] = 'av'
    for x in ([], [av], [av, copy.deepcopy(av)]):
        refuse(ctx, 'average:none', ValueError, mo.average_components, x)
        refuse(ctx, 'average_save:none', ValueError,
               mo.average_components_mem_save, x)
    serve(ctx, 'average', mo.average_components, [copy.deepcopy(a)])
    if a.sim_mat.size and a.avail.any():
        refuse(ctx, 'correct:method', ValueError, mo.correct_dv_shift, a,
               copy.deepcopy(a), word(ctx, ['mean', 'median']),
               int(rng.integers(3)))
    # times too far apart
    k = len(a.corr)
    b = copy.deepcopy(a)
    a2 = copy.deepcopy(a)
    a2.avail, b.avail = np.zeros(k, bool), np.zeros(k, bool)
    i, j = sorted(rng.choice(k, 2, replace=False))
    a2.avail[i] = b.avail[j] = True
    both = [a2, b] if ctx.chance(.5) else [b, a2]
    if k > 2:
        refuse(ctx, 'correct:gap', ValueError, mo.correct_dv_shift, *both,
               ctx.pick(['mean', 'median']), int(rng.integers(0, j-i)))
    s = a.stats
    q = float(rng.uniform(.01, 5))
    la = (min(s.stla, s.evla), max(s.stla, s.evla))
    lo = (min(s.stlo, s.evlo), max(s.stlo, s.evlo))
    el = (min(s.stel, s.evel), max(s.stel, s.evel))
    for y, x, z in (((la[0]+q, la[1]+2*q), lo, el),
                    ((la[0]-2*q, la[1]-q), lo, el),
                    (la, (lo[0]+q, lo[1]+2*q), el),
                    (la, (lo[0]-2*q, lo[1]-q), el),
                    (la, lo, (el[0]+q, el[1]+2*q)),
                    (la, lo, (el[0]-2*q, el[1]-q))):
        refuse(ctx, 'average:place', ValueError,
               mo.average_dvs_by_coords, [a], y, x, z)
    serve(ctx, 'average:place', mo.average_dvs_by_coords,
          [copy.deepcopy(a)], la, lo, el)
    # coherences
    from seismic.monitor.wfc import WFC
    proc = dict(tw_start=2., tw_len=5., freq_min=.1, freq_max=1.)
    b = rbulk(ctx, m=4)

    def wfc():
        return WFC({'reftr_0': rng.random(4)}, copy.deepcopy(b.stats),
                   dict(proc))
    w = [wfc() for _ in range(3)]
    serve(ctx, 'wfc', mo.average_components_wfc, w)
    j = int(rng.integers(3))
    for k in proc:
        u = copy.deepcopy(w)
        u[j].wfc_processing[k] *= 1.01
        refuse(ctx, 'wfc:'+k, ValueError, mo.average_components_wfc, u)
    u = copy.deepcopy(w)
    t = list(u[j].stats.corr_start)
    t[1] = t[1] + 1
    u[j].stats['corr_start'] = t
    refuse(ctx, 'wfc:times', ValueError, mo.average_components_wfc, u)


@scenario(quick=14, thorough=300, timeout=200, weight=3)
def projects(ctx):
    from checks.c21 import wavefield
    from seismic.monitor.monitor import Monitor
    rng = ctx.rng
    ctx.event('projects')
    p = Project(ctx, wavefield, nfile=1, days=1, chans=['HHZ-HHZ'],
                sr=ctx.pick([4., 5.]))
    p.write()
    key = next(iter(p.combos))
    f = p.file(key[0], key[1])
    corr = digest(p.root + '/corr')

    def mon(**kw):
        o = p.options()
        for k, v in kw.items():
            part, opt = k.split('__')
            o[part][opt] = v
        try:
            return Monitor(o)
        finally:
            archive.close_logs()

    args = (f, 'subdivision', *key)
    half = p.half/p.sr

    def dvs(**kw):
        return mon(**kw).compute_velocity_change(*args)

    def wfc(**kw):
        return list(mon(**kw).compute_waveform_coherence(*args))

    refuse(ctx, 'dv:window', ValueError, dvs, dv__tw_start=2.,
           dv__tw_len=half-2+float(rng.uniform(.5, 5)))
    refuse(ctx, 'dv:window', ValueError, dvs, dv__tw_len=None,
           dv__tw_start=half+float(rng.uniform(.5, 5)))
    refuse(ctx, 'dv:short', ValueError, dvs, dv__tw_start=0.,
           dv__tw_len=float(rng.integers(2, 9))/p.sr)
    band = [.05*p.sr, .2*p.sr]
    refuse(ctx, 'wfc:frequencies', ValueError, wfc, wfc__freq_min=[band[0]],
           wfc__freq_max=[band[1]]*2)
    refuse(ctx, 'wfc:frequencies', ValueError, wfc, wfc__freq_min=band[1],
           wfc__freq_max=ctx.pick(band))
    refuse(ctx, 'wfc:windows', ValueError, wfc, wfc__tw_start=[2., 3.],
           wfc__tw_len=[5., 6., 7.])
    refuse(ctx, 'wfc:windows', ValueError, wfc, wfc__tw_start=2.,
           wfc__tw_len=[5., 6.])
    m = mon()
    ok = ('AutoComponents', 'CrossComponents', 'StationWide',
          'CrossStations', 'betweenStations', 'betweenComponents')
    for w in ('', 'auto', 'Components', 'All', ctx.pick(ok)+'s'):
        refuse(ctx, 'average:method', ValueError,
               lambda: m.compute_components_average(w))
    for part in ('dv', 'wfc'):
        for k, v in (('date_inc', 0), ('win_len', -5.)):
            o = {f'{part}__{k}': v}
            refuse(ctx, f'{part}:times', ValueError,
                   dvs if part == 'dv' else wfc, **o)
    ctx.expect(not glob.glob(p.root + '/**/*.npz', recursive=True), 'stored',
               'a refused request left a result')
    serve(ctx, 'dv', dvs)
    ctx.expect(digest(p.root + '/corr') == corr, 'file', 'database changed')


@scenario(quick=50, thorough=1000)
def grids(ctx):
    from obspy import UTCDateTime
    from seismic.monitor import spatial as sp
    from checks import c29
    rng = ctx.rng
    ctx.event('grids')
    g, kw, stas = make_grid(ctx)
    d = rng.uniform(0, 5, 4)
    v, mf = kw['vel'], kw['mf_path']
    j = int(rng.integers(4))
    bad = d.copy()
    bad[j] = -float(rng.uniform(1e-6, 5))
    refuse(ctx, 'probability:distance', ValueError, sp.probability, bad, 1.,
           v, mf, .1)
    refuse(ctx, 'probability:time', ValueError, sp.probability, d,
           -.1/v*float(rng.uniform(1.01, 50)), v, mf, .1)
    x, y = g.xaxis, g.yaxis
    s1, s2 = np.array([x[0], y[0]]), np.array([x[-1], y[-1]])
    for dt in (0, -kw['dt']):
        refuse(ctx, 'kernel:dt', ValueError, sp.sensitivity_kernel, s1, s2,
               x, y, 10., dt, v, mf)
    for ax in ('x', 'y'):
        u = dict(x=x.copy(), y=y.copy())
        i = int(rng.integers(len(u[ax])))
        u[ax][i] += kw['res']*float(rng.uniform(.1, .5))
        refuse(ctx, 'kernel:axis', ValueError, sp.sensitivity_kernel, s1, s2,
               u['x'], u['y'], 10., kw['dt'], v, mf)
    c = float(rng.uniform(.1, .9))
    a, b = np.sort(rng.uniform(0, 30, 2))
    dv = sp.data_variance
    refuse(ctx, 'variance:window', ValueError, dv, c, 1., (-a-.1, b), 1.)
    refuse(ctx, 'variance:window', ValueError, dv, c, 1., (b, a), 1.)
    refuse(ctx, 'variance:window', ValueError, dv, c, 1., (a, a), 1.)
    for q in (0, -float(rng.uniform(.01, 3))):
        refuse(ctx, 'variance:band', ValueError, dv, c, q, (a, b), 1.)
        refuse(ctx, 'variance:centre', ValueError, dv, c, 1., (a, b), q)
    serve(ctx, 'variance', dv, c, 1., (a, b), 1.)
    la, lo = kw['lat0'], kw['lon0']
    e = float(rng.uniform(1e-6, 5))
    for p in ((la-e, lo+1), (la+1, lo-e), (la-e, lo-e)):
        refuse(ctx, 'place:scalar', ValueError, sp.geo2cart, *p, la, lo)
        q = np.array([la+1, la+2, la+1]), np.array([lo+1, lo+2, lo+1])
        i = int(rng.integers(3))
        q[0][i], q[1][i] = p
        refuse(ctx, 'place:array', ValueError, sp.geo2cart, *q, la, lo)
    serve(ctx, 'place', sp.geo2cart, la, lo, la, lo)
    # points outside
    dlat = np.array([(len(y)+3)*kw['res']/111.19])
    dlon = (len(x)+3)*kw['res']/111.19/np.cos(np.deg2rad(la))
    inside = la + dlat[0]/9, lo + dlon/9
    for p in ((la+dlat[0], inside[1]), (inside[0], lo+dlon)):
        refuse(ctx, 'point:scalar', ValueError, g._find_coord, *p)
        refuse(ctx, 'point:array', ValueError, g._find_coord,
               np.array([inside[0], p[0]]), np.array([inside[1], p[1]]))
    # inversions
    t0 = synth.rand_time(rng, res=1.)
    n = int(rng.integers(3, 8))
    tw = (2., 10.)
    proc = dict(freq_min=.1, freq_max=1., tw_start=tw[0], tw_len=8.)
    for cover, pr in ((True, None), (False, proc)):
        dvs = [c29.series(ctx, stas, t0, n, pr) for _ in range(4)]
        for z in dvs:
            z.corr[:], z.value[:] = .6, .01
        utc = max(z.stats.corr_start[0] for z in dvs)+1.
        if not cover:
            k = ctx.pick('neb')
            if k == 'n':
                for z in dvs:
                    ctx.pick([z.corr, z.value])[:] = np.nan
            else:
                t = [z.stats.corr_start[0] for z in dvs] + [
                    z.stats.corr_end[-1] for z in dvs]
                utc = max(t)+60 if k == 'e' else min(t)-60
        err = AttributeError if cover else IndexError
        pos = (1., 2., .1)
        for name, pre, names in (
                ('compute_dv_grid', pos, ('tw', 'freq0', 'freq1')),
                ('compute_dv_tsvd', (), ('tw', 'freq0', 'freq1')),
                ('compute_resolution', pos, ('tw', 'freq0', 'freq1')),
                ('compute_posterior_covariance', pos,
                 ('tw', 'freq0', 'freq1'))):
            full = dict(tw=tw, freq0=.1, freq1=1.)
            h, _, _ = g, 0, 0
            if cover:
                q = ctx.pick(names)
                part = {k: u for k, u in full.items() if k != q}
            else:
                part = full
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fr = freeze(dvs)
                ctx.raises(err, lambda: getattr(h, name)(
                    dvs, utc, *pre, **part), f'accepted:{name}', name)
                ctx.expect(diff(fr, freeze(dvs)) is None, f'changed:{name}')
            ctx.event('refused')
            ctx.sig(name, cover)
            if cover:
                serve(ctx, name, getattr(h, name), dvs, utc, *pre, **full)
    m = rng.standard_normal(g.xgrid.shape)
    pair = dict(tw=tw, stat0=[stas[0]], stat1=[stas[1]])
    for z in (m.ravel(), m[:-1], m[:, 1:]):
        refuse(ctx, 'forward:shape', ValueError, g.forward_model, z, **pair)
    for k in pair:
        refuse(ctx, 'forward:missing', TypeError, g.forward_model, m,
               **{a: b for a, b in pair.items() if a != k})
    refuse(ctx, 'forward:missing', TypeError, g.forward_model, m, dvs=dvs)
    refuse(ctx, 'forward:missing', TypeError, g.forward_model, m,
           utc=UTCDateTime(t0))
    serve(ctx, 'forward', g.forward_model, m, **pair)
    z = c29.series(ctx, stas, t0, n, proc)
    i = int(rng.integers(n))
    z.value[i] = np.nan
    refuse(ctx, 'align:undefined', ValueError, sp.align_dv_curves, z,
           z.stats.corr_start[i], 2)


@scenario(quick=40, thorough=800)
def archives(ctx):
    from obspy import UTCDateTime
    from seismic.trace_data import waveform as wf
    rng = ctx.rng
    ctx.event('archives')
    root = ctx.tmp()
    for x in (root + '/none', root + '/file'):
        if x.endswith('file'):
            open(x, 'w').close()
        refuse(ctx, 'client:path', AssertionError, archive.client, x)
    cl = archive.client(root)
    refuse(ctx, 'stations:none', FileNotFoundError, cl.get_available_stations)
    refuse(ctx, 'stations:none', FileNotFoundError,
           cl.get_available_stations, 'XX')
    (n1, s1), (n2, s2) = synth.stations(rng, 2)
    t0 = synth.rand_time(rng, res=1.)
    t0 -= t0.timestamp % 86400
    tr = [synth.noise_trace(rng, n1, s1, 'HHZ', t0+86400*i, 3000, 1.)
          for i in range(2)]
    archive.write_sds(root, tr)
    other = n1[::-1] + 'Q'
    refuse(ctx, 'stations:network', FileNotFoundError,
           cl.get_available_stations, other)
    serve(ctx, 'stations', cl.get_available_stations, n1)
    w = int(rng.integers(100, 4000))
    refuse(ctx, 'spectrogram:increment', ValueError, cl.compute_spectrogram,
           n1, s1, 'HHZ', t0, t0+86400, w,
           read_increment=w-int(rng.integers(1, 50)), remove_response=False)
    # days of an archive
    sds = root + '/mseed'
    years = sorted({str(t.stats.starttime.year) for t in tr})
    for k in ('begin', 'Start', '', None):
        refuse(ctx, 'days:type', NotImplementedError, wf.get_day_in_folder,
               sds, years, n1, s1, '*', k)
    a = serve(ctx, 'days', wf.get_day_in_folder, sds, years, n1, s1, '*',
              'start')
    b = serve(ctx, 'days', wf.get_day_in_folder, sds, years, n1, s1, '*',
              'end')
    ctx.eq((a, b), (t0, t0+2*86400), 'days')
    # folders without files on both sides of those with files
    span = [str(int(years[0])-1)] + years + [str(int(years[-1])+1)]
    for y in span:
        os.makedirs(f'{sds}/{y}/{n1}/{s1}/HHZ.D', exist_ok=True)
    a = serve(ctx, 'days', wf.get_day_in_folder, sds, span, n1, s1, '*',
              'start')
    b = serve(ctx, 'days', wf.get_day_in_folder, sds, span, n1, s1, '*',
              'end')
    ctx.eq((a, b), (t0, t0+2*86400), 'days')
    if (n2, s2) != (n1, s1):
        k = int(rng.integers(1, 4))
        empty = [str(t0.year+i) for i in range(k)]
        for y in empty:
            os.makedirs(f'{sds}/{y}/{n2}/{s2}/HHZ.D', exist_ok=True)
        for u in ('start', 'end'):
            refuse(ctx, 'days:empty', FileNotFoundError,
                   wf.get_day_in_folder, sds, empty, n2, s2, '*', u)
        got = serve(ctx, 'times:empty', cl._get_times, n2, s2)
        ctx.eq(got, (None, None), 'times:empty')
    got = serve(ctx, 'times', cl._get_times, n1, s1)
    ctx.eq(got, (t0, t0+2*86400), 'times')
    # plain files
    e = t0+10
    for x, y in ((t0, e.datetime), (t0.datetime, e), (str(t0), e.datetime),
                 (t0.datetime, e.timestamp), (t0.datetime, None)):
        refuse(ctx, 'files:type', AssertionError, wf.read_from_filesystem,
               f'{n1}.{s1}..HHZ', x, y, sds, 'SDS')
    assert UTCDateTime


@scenario(quick=24, thorough=400, timeout=200)
def correlators(ctx):
    rng = ctx.rng
    ctx.event('correlators')
    root = ctx.tmp()
    stas = synth.stations(rng, 3)
    t0 = synth.rand_time(rng, res=1.)
    tr = [synth.noise_trace(rng, n, s, 'HHZ', t0, 4000, 10.)
          for n, s in stas]
    archive.write_sds(root, tr)
    before = digest(root)

    def make(**kw):
        return archive.correlator(
            root, archive.options(root, t0, t0+300, **kw))

    nets, codes = [n for n, _ in stas], [s for _, s in stas]
    refuse(ctx, 'stations:any', ValueError, make, net='*', sta=codes[0])
    refuse(ctx, 'stations:any', ValueError, make, net=['*'], sta=[codes[0]])
    refuse(ctx, 'stations:length', ValueError, make, net=nets,
           sta=codes[:-1])
    refuse(ctx, 'stations:length', ValueError, make, net=nets[:2],
           sta=codes)
    refuse(ctx, 'stations:kind', ValueError, make, net=nets, sta=codes[0])
    for bad in (None, 5):
        refuse(ctx, 'stations:kind', ValueError, make, net=bad, sta='*')
        refuse(ctx, 'stations:kind', ValueError, make, net=nets[0], sta=bad)
    c = serve(ctx, 'stations', make, net=nets, sta=codes)
    ctx.eq(sorted(map(tuple, c.station)), sorted(set(stas)), 'stations')
    # no inventory, but the response shall be removed
    c = make(rem_resp=True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.raises(FileNotFoundError, c.pxcorr, 'accepted:response')
    archive.close_logs()
    ctx.event('refused')
    c = make(method=ctx.pick([
        'betweenComponents', 'autoComponents', 'allSimpleCombinations',
        'allCombinations']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.raises(ValueError, lambda: c.find_interstat_dist(1e5),
                   'accepted:distance:method')
        (n1, s1), (n2, s2) = stas[:2]
        c = make(xcombis=[f'{n1}-{n2}.{s1}-{s2}'])
        archive.write_inventory(root, synth.inventory(
            stas, {s: (1., 2., 3.) for s in stas}))
        ctx.raises(ValueError, lambda: c.find_interstat_dist(1e5),
                   'accepted:distance:combinations')
    ctx.event('refused', 2)
    after = digest(root)
    ctx.expect(all(after.get(k) == v for k, v in before.items()), 'file',
               'the archive changed')
    ctx.expect(not glob.glob(root+'/corr/*'), 'file',
               'a refused request left correlations')


@scenario(quick=24, thorough=400, timeout=200)
def plots(ctx):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from seismic.correlate.stream import CorrStream
    from seismic.plot import plot_correlation as pc, plot_dv as pd
    from seismic.plot import plot_spectrum as sp
    rng = ctx.rng
    ctx.event('plots')
    t0 = synth.rand_time(rng, res=1.)
    m, n = int(rng.integers(2, 6)), 41
    st = synth.corr_stream(rng.standard_normal((m, n)),
                           [t0+3600*i for i in range(m)])
    try:
        for by in ('corr_start', 'distance'):
            refuse(ctx, 'stream:empty', KeyError, pc.plot_cst, CorrStream(),
                   sort_by=by)
            refuse(ctx, 'stream:type', NotImplementedError, pc.plot_cst, st,
                   sort_by=by, type=word(ctx, ['heatmap', 'section']))
            plt.close('all')
        refuse(ctx, 'stream:sort', NotImplementedError, pc.plot_cst, st,
               sort_by=ctx.pick(['npts', 'corr_end', 'network', 'az']))
        serve(ctx, 'stream', pc.plot_cst, st, sort_by='corr_start',
              type=ctx.pick(['heatmap', 'section']))
        plt.close('all')
        b = rbulk(ctx, m=int(rng.integers(3, 7)))
        serve(ctx, 'bulk', pc.plot_corr_bulk, b)
        plt.close('all')
        j = int(rng.integers(len(b.data)))
        b.stats.corr_start[j] = b.stats.corr_start[j] + float(
            rng.uniform(1, 900))
        refuse(ctx, 'bulk:times', NotImplementedError, pc.plot_corr_bulk, b)
        dv = c24.make(ctx, m=5, k=11)
        dv.method, dv.value_type = 'single_ref', 'stretch'
        for x in ((.1,), [0, .5, 1.], (0, .2, .5, .9)):
            refuse(ctx, 'dv:limits', ValueError, pd.plot_technical_dv, dv,
                   sim_mat_Clim=x, return_ax=True)
        refuse(ctx, 'dv:style', ValueError, pd.plot_dv,
               word(ctx, ['technical', 'publication']), dv)
        bad = copy.deepcopy(dv)
        bad.value_type = ctx.pick(['dv', 'Stretch', ''])
        refuse(ctx, 'dv:type', ValueError, pd.plot_technical_dv, bad,
               return_ax=True)
        f = np.linspace(.1, 5, 20)
        t = [t0+60*i for i in range(8)]
        S = rng.uniform(1, 2, (20, 8))
        meth = ['linalg', 'mean', 'median']
        for ax in 'ft':
            refuse(ctx, 'spectrum:method', ValueError,
                   sp.plot_spct_series, S.copy(), f, t, norm=ax,
                   norm_method=word(ctx, meth))
        refuse(ctx, 'spectrum:norm', ValueError, sp.plot_spct_series,
               S.copy(), f, t, norm=ctx.pick(['x', 'F', 'ft']),
               norm_method=ctx.pick(meth))
        serve(ctx, 'spectrum', sp.plot_spct_series, S.copy(), f, t,
              norm=ctx.pick('ft'), norm_method=ctx.pick(meth))
    finally:
        plt.close('all')


@scenario(quick=50, thorough=500)
def helpers(ctx):
    from seismic.utils.fetch_func_from_str import func_from_str
    ctx.event('helpers')
    for x in (None, 5, func_from_str, ['a.b'], b'numpy.sum'):
        refuse(ctx, 'function:type', TypeError, func_from_str, x)
    refuse(ctx, 'function:module', ImportError, func_from_str,
           'numpy_nothing.' + ctx.pick(['sum', 'x.y']))
    refuse(ctx, 'function:name', AttributeError, func_from_str,
           'numpy.nothing_' + ctx.pick(['a', 'b']))
    ctx.eq(serve(ctx, 'function', func_from_str, 'numpy.sum') is np.sum,
           True, 'function')
