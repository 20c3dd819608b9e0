"""Write random correlations (random codes incl. prefix-related ones, times
over all days of the year at 0.1 ms resolution, sample types, compression
levels, header extras, processing records) into correlation databases over
several sessions with duplicate writes; an in-memory map keyed by
(tag, combination, window) is the oracle for every later read.  A case is
non-trivial when at least one correlation was read back and compared."""
import os
import numpy as np
from obspy import UTCDateTime
from vlib.core import scenario
from vlib import synth

REQUIRED = {'reads_compared': 200, 'duplicate_writes': 30, 'sessions': 60}
ASSUMPTIONS = ['window times are compared at the stored resolution of '
               '0.1 ms', 'location codes, numbers, strings and lists of '
               'strings are the header types considered']

CO = {'subdir': 'corr', 'read_start': 'a', 'read_end': 'b', 'read_len': 1,
      'read_inc': 1, 'sampling_rate': 10, 'remove_response': False,
      'combination_method': 'betweenStations', 'preProcessing': [],
      'subdivision': {'corr_inc': 5, 'corr_len': 5,
                      'recombine_subdivision': True,
                      'delete_subdivision': False},
      'corr_args': {'TDpreProcessing': [], 'FDpreProcessing': [],
                    'lengthToSave': 1, 'center_correlation': True,
                    'normalize_correlation': True, 'combinations': []}}
HKEYS = ['network', 'station', 'channel', 'location', 'npts',
         'sampling_rate', 'delta', 'start_lag', 'end_lag', 'stla', 'stlo',
         'stel', 'evla', 'evlo', 'evel', 'dist', 'az', 'baz', 'corr_start',
         'corr_end', 'starttime', 'endtime']


def snapshot(tr):
    return (np.array(tr.data, copy=True),
            {k: tr.stats[k] for k in tr.stats.keys()})


def compare(ctx, tr, want, where):
    data, head = want
    ctx.expect(tr.data.dtype == data.dtype, f'{where}-dtype',
               f'{tr.data.dtype} expected {data.dtype}')
    ctx.expect(tr.data.shape == data.shape
               and np.array_equal(tr.data, data, equal_nan=True),
               f'{where}-samples', 'samples differ')
    for k in sorted(set(HKEYS) | set(head) - {'_format'}):
        if k not in head:
            continue
        ctx.expect(k in tr.stats, f'{where}-header-lost', k)
        g, w = tr.stats[k], head[k]
        if isinstance(w, UTCDateTime):
            ctx.expect(isinstance(g, UTCDateTime)
                       and abs(g.ns-w.ns) < 100000,
                       f'{where}-header-time', f'{k}: {g} expected {w}')
        elif isinstance(w, (float, np.floating)):
            ctx.expect((np.isnan(w) and np.isnan(g)) or abs(g-w) <= 1e-12*max(
                1., abs(w)), f'{where}-header', f'{k}: {g} expected {w}')
        elif isinstance(w, (list, np.ndarray)):
            ctx.eq(list(g), list(w), f'{where}-header', k)
        else:
            ctx.eq(g, w, f'{where}-header', k)
    ctx.event('reads_compared')


def rand_trace(ctx, combos, times):
    r = ctx.rng
    net, sta, cha = ctx.pick(combos)
    t = ctx.pick(times)
    npts = int(r.integers(1, 120))
    dt = ctx.pick([np.float32, np.float64, np.float64, np.int32])
    d = (r.standard_normal(npts)*10.**r.integers(-8, 8)).astype(dt)
    if ctx.chance(.2) and dt != np.int32:
        d[r.integers(npts)] = np.nan
    extra = {}
    if ctx.chance(.6):
        extra['processing'] = [f'step {i}: ' + 'x'*int(r.integers(0, 60))
                               for i in range(int(r.integers(0, 5)))]
    if ctx.chance(.3):
        extra['processing_extra'] = 'abc'
    if ctx.chance(.3):
        extra['myflag'] = int(r.integers(100))
    kw = dict(net=net, sta=sta, cha=cha, start=t,
              loc=ctx.pick(['-', '00-00', '10-', '-00']),
              length=float(ctx.pick([60, 3600, 86400, 7200.5])),
              sr=float(ctx.pick([1, 10, 25, 12.5, 100/3., .5])),
              start_lag=float(ctx.pick([-1, 0, 3])*r.integers(0, 50)/10))
    return synth.corr_trace(d, rng=r, extra=extra, coord=ctx.chance(.8),
                            **kw)


def key(tag, tr):
    s = tr.stats
    return (tag, s.network, s.station, s.channel,
            s.corr_start.ns//100000, s.corr_end.ns//100000)


def ordered(rng, n):
    """Combination codes in the stored (sorted) order."""
    out = []
    st = synth.stations(rng, 4)
    chs = ['HHZ', 'HHN', 'BHE', 'EHZ']
    for _ in range(n):
        i, j = rng.integers(4, size=2)
        a = (*st[i], chs[rng.integers(4)])
        b = (*st[j], chs[rng.integers(4)])
        a, b = sorted([a, b])
        out.append(tuple(f'{x}-{y}' for x, y in zip(a, b)))
    return out


@scenario(quick=160)
def history(ctx):
    """Sessions of writes with duplicates, then reads in later sessions."""
    from seismic.db.corr_hdf5 import CorrelationDataBase
    from seismic.correlate.stream import CorrStream
    r = ctx.rng
    combos = ordered(r, int(r.integers(1, 5)))
    times = [synth.rand_time(r) for _ in range(int(r.integers(2, 6)))]
    if ctx.chance(.5):
        times.append(times[0]+1)
    tags = ['subdivision', 'stack_86398', 'recombined', 'x']
    path = os.path.join(ctx.tmp(), ctx.pick(['db.h5', 'db', 'X.Y-Z.h5',
                                             'a.b.c']))
    comp = ctx.pick(['gzip3', 'gzip9', 'gzip1', None])
    model = {}
    nsess = int(r.integers(1, 4))
    ctx.note(combos=combos, times=times, compression=comp, sessions=nsess)
    for _ in range(nsess):
        ctx.event('sessions')
        with CorrelationDataBase(path, corr_options=CO,
                                 compression=comp) as cdb:
            for _ in range(int(r.integers(1, 5))):
                tag = ctx.pick(tags)
                if ctx.chance(.4):
                    obj = rand_trace(ctx, combos, times)
                    trs = [obj]
                else:
                    trs = [rand_trace(ctx, combos, times)
                           for _ in range(int(r.integers(1, 6)))]
                    obj = CorrStream(trs)
                new = [(key(tag, t), snapshot(t)) for t in trs]
                cdb.add_correlation(obj, tag)
                for (k, snap), t in zip(new, trs):
                    # writing does not change what was passed
                    ctx.expect(np.array_equal(t.data, snap[0],
                                              equal_nan=True),
                               'input-modified', 'data')
                    if k in model:
                        ctx.event('duplicate_writes')
                    else:
                        model[k] = snap
                        ctx.event('writes')
            if ctx.chance(.5):
                readall(ctx, cdb, model, 'same-session')
    with CorrelationDataBase(path, mode='r') as cdb:
        readall(ctx, cdb, model, 'reopened')
    ctx.sig(len(model), nsess, comp, tuple(sorted({k[0] for k in model})))


def readall(ctx, cdb, model, where):
    for k, want in model.items():
        tag, net, sta, cha = k[:4]
        st = cdb.get_data(net, sta, cha, tag, want[1]['corr_start'],
                          want[1]['corr_end'])
        ctx.expect(len(st) == 1, f'{where}-exact-count', f'{len(st)} {k}')
        compare(ctx, st[0], want, where+'-exact')
    groups = {}
    for k in model:
        groups.setdefault(k[:4], []).append(k)
    for g, ks in groups.items():
        st = cdb.get_data(g[1], g[2], g[3], g[0])
        got = {key(g[0], tr): tr for tr in st}
        ctx.expect(len(st) == len(ks) and set(got) == set(ks),
                   f'{where}-set', f'{len(st)} correlations read, '
                   f'{len(ks)} written for {g}')
        for k in ks:
            compare(ctx, got[k], model[k], where)


@scenario(quick=30, thorough=60)
def calendar(ctx):
    """Window start on every day of a year survives the time encoding."""
    from seismic.db.corr_hdf5 import CorrelationDataBase
    from seismic.correlate.stream import CorrStream
    year = int(1996 + ctx.idx)
    path = os.path.join(ctx.tmp(), 'cal.h5')
    t0 = UTCDateTime(year, 1, 1)
    nd = int((UTCDateTime(year+1, 1, 1)-t0)//86400)
    sec = float(ctx.rng.integers(0, 86400))
    days = ctx.rng.choice(nd, 60, replace=False).tolist() + [
        0, 58, 59, 60, 357, 358, 359, nd-1]
    model = {}
    st = CorrStream()
    for d in sorted(set(int(x) for x in days)):
        tr = synth.corr_trace(np.arange(3.)+d, start=t0+d*86400+sec,
                              length=float(ctx.pick([3600, 86400])))
        st.append(tr)
        model[key('s', tr)] = snapshot(tr)
    with CorrelationDataBase(path, corr_options=CO) as cdb:
        cdb.add_correlation(st, 's')
    with CorrelationDataBase(path, mode='r') as cdb:
        readall(ctx, cdb, model, 'calendar')
    ctx.note(year=year, days=len(model))
    ctx.sig(year)


@scenario(quick=40)
def bad_input(ctx):
    """Rejected objects and failed writes leave the content as it was."""
    from seismic.db.corr_hdf5 import CorrelationDataBase
    from obspy import Trace
    r = ctx.rng
    path = os.path.join(ctx.tmp(), 'db.h5')
    combos = ordered(r, 2)
    times = [synth.rand_time(r) for _ in range(3)]
    model = {}
    with CorrelationDataBase(path, corr_options=CO) as cdb:
        for _ in range(4):
            tr = rand_trace(ctx, combos, times)
            k = key('subdivision', tr)
            if k not in model:
                model[k] = snapshot(tr)
            cdb.add_correlation(tr)
        for bad in (np.zeros(3), [1], Trace(np.zeros(4)), None):
            ctx.raises(TypeError, lambda b=bad: cdb.add_correlation(b),
                       'type-accepted', str(type(bad)))
    before = open(path, 'rb').read()
    # read-only session cannot write
    with CorrelationDataBase(path) as cdb:
        try:
            cdb.add_correlation(rand_trace(ctx, combos, times), 'other')
        except (ValueError, OSError, RuntimeError):
            pass
    ctx.expect(open(path, 'rb').read() == before, 'read-only-written',
               'file changed in a session without options')
    with CorrelationDataBase(path, mode='r') as cdb:
        readall(ctx, cdb, model, 'after-bad-input')
    ctx.sig(len(model), str(times[0]))


@scenario(quick=24, thorough=100)
def compression(ctx):
    """Data are stored as compressed as asked for, levels are limited."""
    import warnings
    from seismic.db.corr_hdf5 import CorrelationDataBase
    level = [None, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 10, 15][ctx.idx % 13]
    name = level if level is None else f'gzip{level}'
    path = os.path.join(ctx.tmp(), 'db.h5')
    tr = synth.corr_trace(ctx.rng.standard_normal(50), start=UTCDateTime(0))
    model = {key('s', tr): snapshot(tr)}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with CorrelationDataBase(path, corr_options=CO,
                                 compression=name) as cdb:
            cdb.add_correlation(tr, 's')
    found = []

    def visit(n, d):
        if d.shape == (50,):
            found.append((d.compression, d.compression_opts))

    import h5py
    with h5py.File(path, 'r') as f:
        f.visititems(lambda n, d: visit(n, d)
                     if isinstance(d, h5py.Dataset) else None)
    ctx.eq(found, [(None, None)] if level is None else
           [('gzip', min(max(level, 1), 9))], 'compression', str(name))
    with CorrelationDataBase(path, mode='r') as cdb:
        readall(ctx, cdb, model, 'compression')

    def other():
        with CorrelationDataBase(path, corr_options=CO, compression=ctx.pick(
                ['lzf3', 'szip1', 'zip9'])):
            pass
    ctx.raises(ValueError, other, 'unknown-compression')
    ctx.event('compressed')
    ctx.sig(level)
