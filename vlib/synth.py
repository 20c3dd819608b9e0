"""Generators of synthetic data, headers and archives."""
import numpy as np
from obspy import UTCDateTime, Trace, Stream, Inventory
from obspy.core import Stats
from obspy.core.inventory import Network, Station, Channel, Site

ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def code(rng, lo, hi, alphabet=ALNUM):
    n = int(rng.integers(lo, hi+1))
    return ''.join(alphabet[int(i)] for i in rng.integers(
        0, len(alphabet), n))


def stations(rng, n, tricky=True):
    """n distinct (net, sta) codes; codes that are prefixes of each other."""
    pool = set()
    bases = [code(rng, 1, 3) for _ in range(2)]
    nets = ['A', 'AB', 'XX', 'Z9', code(rng, 2, 2)]
    while len(pool) < n:
        net = nets[int(rng.integers(len(nets)))] if tricky else 'XX'
        r = rng.random()
        if tricky and r < .5:
            sta = bases[int(rng.integers(2))] + ['', '1', '10', '0', 'A'][
                int(rng.integers(5))]
        else:
            sta = code(rng, 3, 5)
        pool.add((net, sta))
        if tricky and len(pool) < n and rng.random() < .3:
            # network and station that only differ in where one ends
            if len(net) == 2 and len(sta) < 5:
                pool.add((net[0], net[1] + sta))
            elif len(net) == 1 and len(sta) > 3:
                pool.add((net + sta[0], sta[1:]))
    out = list(pool)
    out.sort()
    rng.shuffle(out)
    return [(str(a), str(b)) for a, b in out]


def rand_time(rng, y0=1995, y1=2030, res=1e-4):
    """Random UTC time on a grid of res seconds (0.1 ms by default)."""
    t0 = UTCDateTime(y0, 1, 1).timestamp
    t1 = UTCDateTime(y1, 1, 1).timestamp
    day = int(rng.integers(t0//86400, t1//86400))
    r = rng.random()
    if r < .25:
        sec = 0.
    elif r < .5:
        sec = float(rng.integers(0, 24))*3600
    elif r < .75:
        sec = float(rng.integers(0, 86400))
    else:
        sec = float(rng.integers(0, int(86400/res)))*res
    return UTCDateTime(ns=int(day)*86400*10**9 + int(round(sec*1e9)))


def coords(rng):
    return (float(rng.uniform(-80, 80)), float(rng.uniform(-179, 179)),
            float(rng.uniform(-100, 4000)))


def inventory(stas, coord, chans=('HHZ',), start=UTCDateTime(1990, 1, 1)):
    nets = {}
    for (n, s) in stas:
        la, lo, el = coord[(n, s)]
        cs = [Channel(c, '', la, lo, el, 0, dip=-90 if c[-1] == 'Z' else 0,
                      azimuth=0 if c[-1] != 'E' else 90, sample_rate=10,
                      start_date=start)
              for c in chans]
        nets.setdefault(n, []).append(
            Station(s, la, lo, el, channels=cs, site=Site('x'),
                    start_date=start, creation_date=start))
    return Inventory([Network(n, stations=ss) for n, ss in nets.items()],
                     source='verif')


def stats(net, sta, cha, start, npts, sr, loc='', coord=None):
    h = dict(network=net, station=sta, channel=cha, location=loc,
             starttime=start, sampling_rate=sr, npts=npts)
    s = Stats(h)
    if coord:
        s['stla'], s['stlo'], s['stel'] = coord
    return s


def noise_trace(rng, net, sta, cha, start, npts, sr, loc='', dtype=float):
    if np.issubdtype(dtype, np.integer):
        d = rng.integers(-10**6, 10**6, npts).astype(dtype)
    else:
        d = rng.standard_normal(npts).astype(dtype)
    return Trace(d, header=dict(network=net, station=sta, channel=cha,
                                location=loc, starttime=start,
                                sampling_rate=sr))


def corr_header(net='XX-XX', sta='A-B', cha='HHZ-HHZ', loc='-',
                start=UTCDateTime(2020, 1, 1), length=3600., npts=201,
                sr=10., start_lag=None, coord=True, rng=None):
    h = dict(network=net, station=sta, channel=cha, location=loc,
             corr_start=start, corr_end=start+length, npts=npts,
             sampling_rate=sr,
             start_lag=-(npts//2)/sr if start_lag is None else start_lag)
    if coord:
        c = coords(rng) + coords(rng) if rng is not None else (
            10., 20., 30., 11., 21., 40.)
        h.update(zip(('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel'), c))
        h.update(dist=12.5, az=33.25, baz=211.5)
        if rng is not None:
            h.update(dist=float(rng.uniform(0, 500)),
                     az=float(rng.uniform(0, 360)),
                     baz=float(rng.uniform(0, 360)))
    return h


def corr_trace(data, **kw):
    from seismic.correlate.stream import CorrTrace
    from seismic.correlate.stats import CorrStats
    extra = kw.pop('extra', {})
    h = corr_header(npts=len(data), **kw)
    h.update(extra)
    s = CorrStats(h)
    return CorrTrace(np.array(data), _header=s)


def corr_stream(datas, starts, **kw):
    from seismic.correlate.stream import CorrStream
    return CorrStream([corr_trace(d, start=t, **kw)
                       for d, t in zip(datas, starts)])


def bulk(A, starts, length=3600., sr=10., start_lag=None, **kw):
    """CorrBulk built through the public constructor."""
    from seismic.correlate.stream import CorrBulk
    from seismic.correlate.stats import CorrStats
    A = np.array(A)
    h = corr_header(npts=A.shape[1], sr=sr, start_lag=start_lag,
                    length=length, **kw)
    s = CorrStats(h)
    s['corr_start'] = list(starts)
    s['corr_end'] = [t+length for t in starts]
    s['location'] = ['-']*len(starts)
    s['ntrcs'] = len(starts)
    return CorrBulk(A, stats=s)


def coda(rng, npts, sr, f=(.5, 2.), decay=None, centre=None):
    """Band-limited decaying wavefield as function of lag index."""
    n = 4*npts
    F = np.fft.rfftfreq(n, 1./sr)
    w = np.exp(-.5*((F-np.mean(f))/(np.ptp(f)/2+1e-9))**2)
    s = np.fft.irfft(w*(rng.standard_normal(len(F))
                        + 1j*rng.standard_normal(len(F))))[:npts]
    s /= np.max(np.abs(s))
    if decay:
        c = npts//2 if centre is None else centre
        s = s*np.exp(-np.abs(np.arange(npts)-c)/sr/decay)
    return s
