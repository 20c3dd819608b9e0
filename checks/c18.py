"""
Random correlation streams become matrices and streams again, matrices are
indexed, sliced, copied, saved and read at any point of a random history of
operations; a monitor identifies every correlation by its samples and compares
samples, window times, lag axis, codes, coordinates and the processing record
with plain records kept beside, and runs the rest of the history on the
original and on the object read back.
"""
import copy
import os
import pickle

import numpy as np

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'times with a resolution of microseconds',
    'matrices created from streams take all correlations with the sampling '
    'rate of the first one; streams with other differing properties are '
    'refused']
REQUIRED = {'rows': 3000, 'files': 200, 'single_rows': 50, 'slices': 500,
            'refused': 100, 'histories': 200, 'copies': 200}
COORD = ('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel', 'dist', 'az', 'baz')


def make(ctx, nmax=10, cha='one', nmin=1):
    rng = ctx.rng
    n = int(rng.integers(nmin, nmax))
    if rng.random() < .15:
        n = nmin
    npts = int(rng.integers(1, 40)) if rng.random() < .5 else int(
        2*rng.integers(10, 60)+1)
    sr = float(rng.choice([1, 5, 10, 25, 12.5, 100/3]))
    lag = -(npts//2)/sr if rng.random() < .7 else float(
        np.round(rng.uniform(-20, 5), 3))
    net, sta = ctx.pick([('A-B', 'X-Y'), ('XX-XX', 'STA1-STA1')])
    head = synth.corr_header(net=net, sta=sta, npts=npts, sr=sr,
                             start_lag=lag, rng=rng)
    t0 = synth.rand_time(rng, res=ctx.pick([1., 1e-4]))
    step = float(rng.choice([60, 1800, 3600, 7200.5]))
    recs = []
    for i in range(n):
        if rng.random() < .2:
            t0 += step*int(rng.integers(1, 100))
        le = step*float(rng.choice([1, 1, .5, 2]))
        recs.append(dict(
            start=t0+i*step, end=t0+i*step+le,
            loc=ctx.pick(['-', '00-', '00-10']) if rng.random() < .3 else '-',
            cha=ctx.pick(['HHZ-HHZ', 'HHZ-HHE', 'BHZ-BHZ'])
            if cha == 'any' else 'HHZ-HHZ',
            data=rng.standard_normal(npts)*10.**rng.integers(-12, 8)))
    recs = [recs[int(i)] for i in rng.permutation(n)]
    return head, recs


def to_stream(head, recs):
    from seismic.correlate.stream import CorrStream, CorrTrace
    from seismic.correlate.stats import CorrStats
    st = CorrStream()
    for r in recs:
        h = dict(head, corr_start=r['start'], corr_end=r['end'],
                 location=r['loc'], channel=r['cha'])
        st.append(CorrTrace(r['data'].copy(), _header=CorrStats(h)))
    return st


def judge_head(ctx, s, head, where):
    for k in ('network', 'station') + COORD:
        ctx.eq(s[k], head[k], 'header_entry', f'{where} {k}')
    ctx.eq(s['npts'], head['npts'], 'npts', where)
    for k, v in (('sampling_rate', head['sampling_rate']),
                 ('delta', 1/head['sampling_rate']),
                 ('start_lag', head['start_lag']),
                 ('end_lag', head['start_lag']
                  + (head['npts']-1)/head['sampling_rate'])):
        ctx.close(s[k], v, 'lag_axis', f'{where} {k}', rtol=1e-9, atol=1e-9)


def column(s, key, n):
    v = s[key]
    return [v]*n if isinstance(v, str) else list(v)


def judge_bulk(ctx, b, head, recs, where, order=True):
    """Every row of b is one of the records, with its times and codes."""
    n = len(recs)
    ctx.eq(b.data.shape, (n, head['npts']), 'matrix_shape', where)
    judge_head(ctx, b.stats, head, where)
    for k in ('corr_start', 'corr_end'):
        ctx.eq(len(b.stats[k]), n, 'row_times', where)
    loc = column(b.stats, 'location', n)
    cha = column(b.stats, 'channel', n)
    left = list(recs)
    for i in range(n):
        ctx.event('rows')
        if order:
            r = recs[i]
            ctx.expect(np.array_equal(b.data[i], r['data'], equal_nan=True),
                       'row_samples', f'{where} {i}')
        else:
            m = [r for r in left if np.array_equal(r['data'], b.data[i])]
            ctx.expect(m, 'row_samples', f'{where} {i}')
            r = m[0]
            left = [x for x in left if x is not r]
        ctx.eq((b.stats['corr_start'][i], b.stats['corr_end'][i]),
               (r['start'], r['end']), 'row_times', f'{where} {i}')
        ctx.eq((loc[i], cha[i]), (r['loc'], r['cha']), 'row_codes',
               f'{where} {i}')


def judge_stream(ctx, st, head, recs, where, order=True):
    ctx.eq(len(st), len(recs), 'stream_length', where)
    left = list(recs)
    for i, tr in enumerate(st):
        ctx.event('rows')
        if order:
            r = recs[i]
        else:
            m = [x for x in left if np.array_equal(x['data'], tr.data)]
            ctx.expect(m, 'trace_samples', f'{where} {i}')
            r = m[0]
            left = [x for x in left if x is not r]
        ctx.expect(np.array_equal(tr.data, r['data'], equal_nan=True),
                   'trace_samples', f'{where} {i}')
        s = tr.stats
        judge_head(ctx, s, head, where)
        ctx.eq((s.corr_start, s.corr_end, s.starttime, s.endtime),
               (r['start'], r['end'])*2, 'trace_times', where)
        ctx.eq((s.location, s.channel), (r['loc'], r['cha']), 'trace_codes',
               where)
        ctx.close(tr.times(), head['start_lag']
                  + np.arange(head['npts'])/head['sampling_rate'],
                  'trace_lags', where, rtol=1e-9, atol=1e-9)


@scenario(quick=1000, thorough=30000)
def matrices(ctx):
    """Stream, matrix, stream, matrix; some rows; mixing is refused."""
    rng = ctx.rng
    cha = ctx.pick(['one', 'any'])
    head, recs = make(ctx, cha=cha)
    st = to_stream(head, recs)
    ctx.sig(len(recs), head['npts'], cha)
    ctx.event('single_rows', len(recs) == 1)
    inplace = bool(rng.random() < .3)
    kw = {}
    if cha == 'one' and rng.random() < .5:
        kw['channel'] = 'HHZ-HHZ'
    elif cha == 'any' and rng.random() < .3:
        # wildcards that match all of the channels
        kw['channel'] = ctx.pick(
            ['*', '???-???'] + ['HH?-???'] * all(
                r['cha'].startswith('HH') for r in recs))
    if rng.random() < .3:
        kw['network'] = head['network']
    keep = st.copy()
    b = st.create_corr_bulk(inplace=inplace, **kw)
    judge_bulk(ctx, b, head, recs, 'matrix')
    ctx.eq(b.stats['ntrcs'], len(recs), 'ntrcs')
    if not inplace:
        judge_stream(ctx, st, head, recs, 'stream_after')
        # the matrix is no view of the stream
        b.data *= 2
        b.stats['corr_start'][0] += 5
        judge_stream(ctx, st, head, recs, 'stream_after_change')
        b = st.create_corr_bulk(inplace=False, **kw)
    back = b.create_corr_stream()
    judge_stream(ctx, back, head, recs, 'stream')
    judge_bulk(ctx, back.create_corr_bulk(inplace=False), head, recs,
               'matrix_again')
    ind = [int(i) for i in rng.integers(
        ctx.pick([0, -len(recs)]), len(recs), size=int(rng.integers(1, 6)))]
    judge_stream(ctx, b.create_corr_stream(ind), head,
                 [recs[i] for i in ind], 'stream_of_some')
    A, stats = keep._to_matrix()
    o = sorted(range(len(recs)), key=lambda i: recs[i]['start'])
    srt = [recs[i] for i in o]
    if len({str(r['start']) for r in recs}) == len(recs):
        for a, s, r in zip(A, stats, srt):
            ctx.expect(np.array_equal(a, r['data']), 'to_matrix')
            ctx.eq((s.corr_start, s.corr_end), (r['start'], r['end']),
                   'to_matrix')
    # unlike correlations
    if len(recs) < 2:
        return
    st = to_stream(head, recs)
    j = int(rng.integers(1, len(recs)))
    tr = st[j]
    k = ctx.pick(['sampling_rate', 'network', 'station', 'start_lag',
                  'npts', 'channel', *COORD])
    if k == 'npts':
        if head['npts'] == 1:
            return
        tr.data = np.append(tr.data, 1.)
    elif k == 'channel':
        if cha != 'any':
            return
        tr.stats.channel = 'EHZ-EHZ'
        d = ctx.pick(recs)['cha']
        sub = [r for i, r in enumerate(recs) if r['cha'] == d and i != j]
        if sub:
            judge_bulk(ctx, st.create_corr_bulk(channel=d, inplace=False),
                       head, sub, 'matrix_of_channel')
        return
    elif isinstance(tr.stats[k], str):
        tr.stats[k] = 'Q-Q'
    else:
        tr.stats[k] = tr.stats[k] + 1.
    ctx.event('refused')
    if k == 'sampling_rate':
        judge_bulk(ctx, st.create_corr_bulk(inplace=False), head,
                   [r for i, r in enumerate(recs) if i != j], 'other_rate')
    else:
        ctx.raises(ValueError, lambda: st.create_corr_bulk(inplace=False),
                   'mixed', k)


@scenario(quick=800, thorough=30000)
def rows(ctx):
    """Indexing by number, range, list and condition; slices by time."""
    rng = ctx.rng
    cha = ctx.pick(['one', 'any'])
    head, recs = make(ctx, cha=cha)
    n = len(recs)
    b = to_stream(head, recs).create_corr_bulk(inplace=False)
    ctx.sig(n, head['npts'], cha)
    b.stats.processing_bulk += ['something']
    i = int(rng.integers(-n, n))
    tr = b[i]
    judge_stream(ctx, [tr], head, [recs[i]], 'index')
    lo, hi = sorted(int(x) for x in rng.integers(-n-1, n+2, size=2))
    for sel, what in (
            (slice(lo, hi), 'range'),
            (slice(None, None, int(rng.choice([-2, -1, 2]))), 'step'),
            ([int(x) for x in rng.integers(-n, n, size=3)], 'list'),
            (rng.integers(-n, n, size=4), 'array'),
            (rng.random(n) < .5, 'condition')):
        want = [recs[int(k)] for k in np.arange(n)[sel]]
        c = b[sel]
        ctx.event('slices')
        if not want:
            ctx.eq(c.data.shape[0], 0, 'empty_selection')
            continue
        judge_bulk(ctx, c, head, want, what)
        ctx.eq(c.stats['ntrcs'], len(want), 'ntrcs', what)
        ctx.eq(list(c.stats.processing_bulk), ['something'],
               'processing_record', what)
    a, e = sorted((ctx.pick(recs)['start'], ctx.pick(recs)['end']))
    if a < e:
        c = b.slice(a, e, include_partial=False)
        want = [r for r in recs if r['start'] >= a and r['end'] <= e]
        ctx.event('slices')
        if want:
            judge_bulk(ctx, c, head, want, 'slice')
            ctx.eq(list(c.stats.processing_bulk), ['something'],
                   'processing_record', 'slice')
            c.stats.processing_bulk += ['more']
            c.data[:] = 0
            c.stats['corr_start'][0] += 1
    judge_bulk(ctx, b, head, recs, 'unchanged')
    ctx.eq(list(b.stats.processing_bulk), ['something'],
           'processing_record', 'unchanged')


def ops(ctx, b):
    """One random operation; returns its name or None."""
    rng = ctx.rng
    s = b.stats
    lo, hi = s['start_lag'], s['end_lag']
    k = ctx.pick(['normalize', 'clip', 'envelope', 'trim', 'taper',
                  'mirror', 'filter', 'resample', 'index', 'smooth',
                  'taper_center', 'decimate'])
    if k == 'normalize':
        t = ctx.pick(['energy', 'max', 'absmax', 'abssum'])
        return k, lambda x: x.normalize(normtype=t)
    if k == 'clip':
        return k, lambda x: x.clip(2.)
    if k == 'envelope':
        return k, lambda x: x.envelope()
    if k == 'trim' and s['npts'] > 6:
        d = (hi-lo)/4
        return k, lambda x: x.trim(lo+d, hi-d)
    if k == 'taper' and s['npts'] > 6:
        w = (hi-lo)/5
        return k, lambda x: x.taper(w)
    if k == 'taper_center' and lo < 0 < hi and s['npts'] > 12:
        w = min(-lo, hi)/2
        return k, lambda x: x.taper_center(w)
    if k == 'mirror':
        return k, lambda x: x.mirror()
    if k == 'filter' and s['npts'] > 6:
        f = s['sampling_rate']
        return k, lambda x: x.filter((.05*f, .3*f))
    if k == 'decimate' and s['npts'] > 12:
        f = s['sampling_rate']/2
        return k, lambda x: x.resample_time_axis(f)
    if k == 'resample':
        t = min(s['corr_start'])
        inc = (max(s['corr_end'])-t)/3
        st = [t + i*inc for i in range(4)]
        return k, lambda x: x.resample(list(st)) or x
    if k == 'index' and len(b.data) > 1:
        m = int(rng.integers(1, len(b.data)))
        return k, lambda x: x[:m]
    if k == 'smooth' and s['npts'] > 6:
        return k, lambda x: x.smooth(3, axis=0)
    return None


def same(ctx, x, y, where):
    ctx.eq(x.data.shape, y.data.shape, 'file_shape', where)
    ctx.close(x.data, y.data, 'file_samples', where, rtol=1e-12)
    ctx.eq(sorted(x.stats.keys()), sorted(y.stats.keys()), 'file_keys',
           where)
    for k in x.stats:
        a, b = x.stats[k], y.stats[k]
        if isinstance(a, (list, np.ndarray)) or isinstance(
                b, (list, np.ndarray)):
            ctx.eq(list(np.atleast_1d(np.array(a, dtype=object))),
                   list(np.atleast_1d(np.array(b, dtype=object))),
                   'file_header', f'{where} {k}')
        elif isinstance(a, float):
            ctx.close(b, a, 'file_header', f'{where} {k}', rtol=1e-12)
        else:
            ctx.eq(b, a, 'file_header', f'{where} {k}')


@scenario(quick=800, thorough=30000)
def files(ctx):
    """Saved at any point of a history and read back."""
    from seismic.correlate.stream import read_corr_bulk
    rng = ctx.rng
    cha = ctx.pick(['one', 'any'])
    head, recs = make(ctx, cha=cha)
    st = to_stream(head, recs)
    kw = {'channel': 'HHZ-HHZ'} if cha == 'one' and rng.random() < .5 else {}
    b = st.create_corr_bulk(inplace=False, **kw)
    ctx.event('single_rows', len(recs) == 1)
    if rng.random() < .3:
        b.data[rng.random(b.data.shape) < .1] = np.nan
    done = []
    for _ in range(int(rng.integers(0, 4))):
        o = ops(ctx, b)
        if o:
            b = o[1](b)
            done.append(o[0])
    path = os.path.join(ctx.tmp(), ctx.pick(['a.npz', 'b.c.npz', 'Ü x.npz']))
    keep = b.copy()
    b.save(path)
    ctx.event('files')
    same(ctx, keep, b, 'after saving')
    c = read_corr_bulk(path)
    same(ctx, keep, c, f'read after {done}')
    judge_types(ctx, b, c)
    # again
    c.save(path)
    same(ctx, keep, read_corr_bulk(path), 'second generation')
    os.remove(path)
    # both behave alike from now on
    later = []
    for _ in range(int(rng.integers(1, 4))):
        o = ops(ctx, b)
        if o:
            b = o[1](b)
            c = o[1](c)
            later.append(o[0])
    ctx.event('histories', bool(later))
    ctx.sig(tuple(done), tuple(later), len(recs))
    same(ctx, b, c, f'{done} | {later}')
    ctx.eq(list(c.stats.processing_bulk), list(b.stats.processing_bulk),
           'processing_record')
    for x, y in zip(b.create_corr_stream(), c.create_corr_stream()):
        ctx.eq((x.stats.corr_start, x.stats.corr_end, x.stats.location,
                x.stats.channel, x.stats.npts),
               (y.stats.corr_start, y.stats.corr_end, y.stats.location,
                y.stats.channel, y.stats.npts), 'stream_of_read')
        ctx.close(y.data, x.data, 'stream_of_read', rtol=1e-12)


def judge_types(ctx, b, c):
    ctx.eq(type(c.stats), type(b.stats), 'header_type')
    a, e = min(b.stats['corr_start']), max(b.stats['corr_end'])
    x, y = b.slice(a-1, e+1), c.slice(a-1, e+1)
    ctx.close(y.data, x.data, 'slice_of_read', rtol=1e-12)
    ctx.eq(list(y.stats['corr_start']), list(x.stats['corr_start']),
           'slice_of_read')


@scenario(quick=600, thorough=20000)
def headers(ctx):
    """Headers as arrays and times as numbers, forth and back."""
    from seismic.utils import miic_utils as m
    from seismic.correlate.stats import CorrStats
    rng = ctx.rng
    head, recs = make(ctx, cha='any')
    ctx.sig(head['npts'], len(recs), str(head['corr_start']))
    times = [r['start'] for r in recs]
    back = m.convert_timestamp_to_utcdt(m.convert_utc_to_timestamp(times))
    back = back if isinstance(back, list) else [back]
    ctx.eq(back, times, 'times')
    ctx.eq(m.convert_timestamp_to_utcdt(m.convert_utc_to_timestamp(
        times[0])), times[0], 'one_time')
    if rng.random() < .5:
        s = CorrStats(head)
    else:
        s = to_stream(head, recs).create_corr_bulk(inplace=False).stats
    if rng.random() < .5:
        s['remark'] = 'any thing'
        s['number'] = float(rng.standard_normal())
    keep = copy.deepcopy(s)
    d = m.save_header_to_np_array(s)
    ctx.eq(s, keep, 'header_changed')
    path = os.path.join(ctx.tmp(), 'h.npz')
    np.savez(path, **d)
    with np.load(path) as f:
        t = m.load_header_from_np_array(f)
    ctx.eq(sorted(t), sorted(s.keys()), 'header_keys')
    for k in s:
        a, b = s[k], t[k]
        if isinstance(a, list):
            b = list(b) if isinstance(b, (list, np.ndarray)) else [b]
        if isinstance(a, float):
            ctx.close(b, a, 'header_value', k, rtol=1e-15)
        else:
            ctx.eq(b, a, 'header_value', k)
    for f in (copy.copy, copy.deepcopy,
              lambda x: pickle.loads(pickle.dumps(x))):
        u = f(s)
        ctx.eq(u, s, 'header_copy')


@scenario(quick=600, thorough=20000)
def copies(ctx):
    """Changing a copy never changes the original and vice versa."""
    rng = ctx.rng
    head, recs = make(ctx, cha='any')
    st = to_stream(head, recs)
    b = st.create_corr_bulk(inplace=False)
    b.stats.processing_bulk += ['first']
    ctx.sig(len(recs), head['npts'])
    ctx.event('copies')
    c = b.copy()
    judge_bulk(ctx, c, head, recs, 'copy')
    back = bool(rng.random() < .5)
    x, y = (b, c) if back else (c, b)
    x.data += 1
    x.stats['corr_start'][0] += 100
    x.stats['corr_end'].append(0)
    x.stats['location'][0] = 'XX'
    x.stats.processing_bulk += ['second']
    x.stats['stla'] = 99.
    x.stats['start_lag'] -= 3
    judge_bulk(ctx, y, head, recs, 'original')
    ctx.eq(list(y.stats.processing_bulk), ['first'], 'processing_record')
    s2 = st.copy()
    judge_stream(ctx, s2, head, recs, 'stream_copy')
    x, y = (st, s2) if back else (s2, st)
    x[0].data[:] = 7
    x[-1].stats.corr_start += 1
    x[0].stats.channel = 'Q-Q'
    x.traces.append(x[0])
    judge_stream(ctx, y, head, recs, 'stream_original')
    tr = y[0].copy()
    tr.data += 1
    tr.stats.corr_end += 1
    judge_stream(ctx, y, head, recs, 'trace_original')
