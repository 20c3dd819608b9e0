"""
Random pairs of record headers (codes that are prefixes of each other, equal
codes, coordinates in the header, in a sac dictionary, in the inventory or
missing) are combined in both orders; every field of the correlation header
and the lag of every sample are recomputed independently.
"""
import copy

import numpy as np
from obspy import Stream, Trace, UTCDateTime
from obspy.core import AttribDict
from obspy.geodetics import gps2dist_azimuth

from vlib.core import scenario
from vlib import synth
from checks.c07 import engine

REQUIRED = {'flipped': 50, 'in_order': 50, 'with_coordinates': 100,
            'tricky_codes': 30}


def make_pair(ctx):
    rng = ctx.rng
    stas = synth.stations(rng, 2)
    r = rng.random()
    if r < .15:
        stas[1] = stas[0]
    elif r < .3:
        stas[1] = (stas[0][0], stas[1][1])
    cha = ['HHZ', 'HHE', 'BHZ', 'HHN', 'EHZ']
    cs = [ctx.pick(cha), ctx.pick(cha)]
    sr = ctx.pick([1., 10., 25., 100.])
    t0 = synth.rand_time(rng)
    out = []
    coord = {}
    for i in range(2):
        k = stas[i]
        coord.setdefault(k, synth.coords(rng))
        if i and rng.random() < .2:
            a = coord[stas[0]]
            coord[k] = (a[0]+.01*float(rng.normal()), a[1], a[2]) \
                if k != stas[0] else coord[k]
    for i in range(2):
        off = float(rng.integers(-50, 50))/sr if rng.random() < .4 else 0.
        tr = Trace(np.zeros(int(rng.integers(50, 60))), header=dict(
            network=stas[i][0], station=stas[i][1], channel=cs[i],
            location=ctx.pick(['', '00', '10']), starttime=t0+off,
            sampling_rate=sr))
        tr.stats['processing'] = ['a', 'b']
        out.append(tr.stats)
    return out, coord


def attach(ctx, hs, coord):
    mode = ctx.pick(['stats', 'sac', 'inv', 'none', 'stats'])
    inv = None
    for h in hs:
        c = coord[(h.network, h.station)]
        if mode == 'stats':
            h['stla'], h['stlo'], h['stel'] = c
        elif mode == 'sac':
            h['sac'] = AttribDict(stla=c[0], stlo=c[1], stel=c[2])
    if mode == 'inv' or (mode == 'stats' and ctx.chance(.3)):
        inv = synth.inventory(sorted(coord), coord)
        # other stations in the inventory do not matter
        extra = {('A', 'OTHER'): (1., 2., 3.),
                 (hs[0].network, hs[0].station + 'X'): (4., 5., 6.),
                 ('QQ', hs[0].station): (7., 8., 9.),
                 ('QR', hs[-1].station): (-7., -8., -9.)}
        extra = {k: v for k, v in extra.items() if k not in coord}
        inv = synth.inventory(sorted(extra), extra) + inv
    return mode, inv


def check(ctx, tr, first, second, coord, mode, sr):
    s = tr.stats
    for k in ('network', 'station', 'channel', 'location'):
        ctx.eq(s[k], first[k]+'-'+second[k], 'codes', k)
    ctx.eq(s.corr_start, max(first.starttime, second.starttime),
           'corr_start')
    ctx.eq(s.corr_end, min(first.endtime, second.endtime), 'corr_end')
    ctx.eq(s.sampling_rate, sr, 'sampling_rate')
    ctx.eq(s.npts, len(tr.data), 'npts')
    if mode == 'none':
        ctx.expect('dist' not in s and 'az' not in s and 'stla' not in s,
                   'no_coordinates', 'geometry made up', stats=dict(s))
        return
    ctx.event('with_coordinates')
    a = coord[(first.network, first.station)]
    b = coord[(second.network, second.station)]
    got = [s[k] for k in ('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel')]
    ctx.close(got, a+b, 'coordinates', 'coordinates', rtol=1e-12)
    d, az, baz = gps2dist_azimuth(a[0], a[1], b[0], b[1])
    ctx.close(s.dist, d/1000, 'dist', rtol=1e-9)
    ctx.close([s.az, s.baz], [az, baz], 'azimuth', rtol=1e-9)


@scenario(quick=900, thorough=8000)
def headers(ctx):
    from seismic.correlate.stream import CorrTrace
    from seismic.correlate.correlate import sort_comb_name_alphabetically
    hs, coord = make_pair(ctx)
    mode, inv = attach(ctx, hs, coord)
    sr = hs[0].sampling_rate
    ids = [(h.network, h.station, h.channel) for h in hs]
    n = int(ctx.rng.integers(1, 80))
    data = ctx.rng.standard_normal(n)
    q = int(ctx.rng.integers(-60, 10))
    start, end = q/sr, (q+n-1)/sr
    ctx.note(ids=ids, mode=mode, n=n, start=start)
    ctx.sig(tuple(ids), mode, n, q)
    ctx.event('tricky_codes', ids[0][0].startswith(ids[1][0]) !=
              ids[1][0].startswith(ids[0][0]))
    flip = ids[1] < ids[0]
    ctx.event('flipped' if flip else 'in_order')
    first, second = [copy.deepcopy(h) for h in (hs[::-1] if flip else hs)]
    d0 = data.copy()

    def build(h, d, lo, hi):
        return CorrTrace(d, header1=h[0], header2=h[1], inv=inv,
                         start_lag=lo, end_lag=hi)
    tr = build(hs, data, start, end)
    check(ctx, tr, first, second, coord, mode, sr)
    lag = (q + np.arange(n))/sr
    got = tr.stats.start_lag + np.arange(n)/tr.stats.sampling_rate
    o = np.argsort(-lag) if flip else np.arange(n)
    ctx.close(got, (-lag if flip else lag)[o], 'lag', 'lag axis', atol=1e-9)
    ctx.close(tr.stats.end_lag, got[-1], 'end_lag', atol=1e-9)
    ctx.close(tr.data, d0[o], 'data', 'samples', rtol=1e-12)
    # the other order with the reversed data is the same correlation
    if ids[0] != ids[1]:
        tr2 = build(hs[::-1], d0[::-1].copy(), -end, -start)
        ctx.close(tr2.data, tr.data, 'symmetric', rtol=1e-12)
        check(ctx, tr2, first, second, coord, mode, sr)
        ctx.close([tr2.stats.start_lag, tr2.stats.end_lag],
                  [tr.stats.start_lag, tr.stats.end_lag], 'symmetric_lag',
                  atol=1e-9)
    # headers of the records can be used again
    tr3 = build(hs, d0.copy(), start, end)
    check(ctx, tr3, first, second, coord, mode, sr)
    ctx.close(tr3.data, tr.data, 'repeat', rtol=1e-12)
    for h, r in zip(hs, [second, first] if flip else [first, second]):
        for k in ('network', 'station', 'channel', 'location', 'starttime',
                  'endtime', 'npts', 'sampling_rate'):
            ctx.eq(h[k], r[k], 'input_header', f'{k} of a record changed')
    # names
    a, b = ids
    nc, sc, cc = sort_comb_name_alphabetically(
        a[0], a[1], b[0], b[1], a[2], b[2])
    ctx.eq(list(zip(nc, sc, cc)), sorted(ids), 'names')
    nc2, sc2, cc2 = sort_comb_name_alphabetically(
        nc[0], sc[0], nc[1], sc[1], cc[0], cc[1])
    ctx.eq((nc2, sc2, cc2), (nc, sc, cc), 'names', 'not idempotent')
    nc, sc, _ = sort_comb_name_alphabetically(a[0], a[1], b[0], b[1])
    ctx.eq(list(zip(nc, sc)), sorted(i[:2] for i in ids), 'names')


@scenario(quick=150, thorough=1500)
def computed(ctx):
    """Records with a known delay correlated in both orders."""
    hs, coord = make_pair(ctx)
    if len(coord) < 2 and hs[0].channel == hs[1].channel:
        ctx.nontrivial = False
        return
    mode, inv = attach(ctx, hs, coord)
    sr = hs[0].sampling_rate
    n = 400
    t0 = synth.rand_time(ctx.rng)
    S = int(ctx.rng.integers(40, 60))
    dl = int(ctx.rng.integers(-30, 31))
    off = int(ctx.rng.integers(-5, 6))
    x = ctx.rng.standard_normal(n+200)
    # the second record is the first one delayed by dl samples
    recs = [x[100:100+n], x[100-dl+off:100-dl+off+n]]
    starts = [t0, t0 + off/sr]
    c = engine(ctx, sr, S/sr, normalize=ctx.chance(.5))
    ctx.note(ids=[(h.network, h.station, h.channel) for h in hs], delay=dl,
             offset=off, sr=sr)
    ctx.sig(dl, off, sr, S, hs[0].network, hs[1].network)
    st = Stream()
    for h, d, t in zip(hs, recs, starts):
        tr = Trace(d.astype(np.float32))
        h.starttime = t
        tr.stats = copy.deepcopy(h)
        tr.stats.npts = n
        st.append(tr)
    ref = [copy.deepcopy(tr.stats) for tr in st]
    c.options['combinations'] = [(0, 1), (1, 0), (1, 1)]
    cst = c._pxcorr_inner(st, inv)
    for tr, (i, j) in zip(cst, [(0, 1), (1, 0), (1, 1)]):
        ids = [(h.network, h.station, h.channel) for h in (ref[i], ref[j])]
        if ids[1] < ids[0]:
            i, j = j, i
        ctx.event('flipped' if ids[1] < ids[0] else 'in_order')
        check(ctx, tr, ref[i], ref[j], coord, mode, sr)
        true = {(0, 1): dl, (1, 0): -dl, (1, 1): 0}[(i, j)]
        k = int(np.argmax(tr.data))
        ctx.close(tr.stats.start_lag + k/tr.stats.sampling_rate, true/sr,
                  'lag_of_delay', f'pair {i},{j}', atol=1e-4)
        ctx.close(tr.stats.end_lag, tr.stats.start_lag
                  + (tr.stats.npts-1)/sr, 'end_lag', atol=1e-4)
