"""
Random histories of assignments, updates, copies, pickles and conversions on
correlation headers, traces and matrices; after every step a monitor compares
all header entries with a bookkeeping model: reciprocal sampling interval and
rate, last lag = first lag + (samples - 1) intervals, window times and their
aliases, refused assignments leave everything as it was, copies are
independent, and the header of a matrix fits its shape. Printed summaries are
parsed and compared with the headers.
"""
import copy
import pickle

import numpy as np
from obspy import UTCDateTime

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = ['sampling intervals are positive numbers']
REQUIRED = {'header_steps': 3000, 'refused': 300, 'bulk_steps': 300,
            'trace_steps': 300, 'printed': 300, 'abridged': 10}
LINKED = ('sampling_rate', 'delta', 'npts', 'start_lag', 'corr_start',
          'corr_end')


class Model:
    """What a header has to say."""
    def __init__(self):
        self.sr, self.npts, self.lag = 1., 0, 0.
        self.cs = self.ce = UTCDateTime(0)
        self.other = {'calib': 1., 'network': '', 'station': '',
                      'location': '', 'channel': ''}

    def set(self, k, v):
        if k == 'sampling_rate':
            self.sr = float(v)
        elif k == 'delta':
            self.sr = 1./float(v)
        elif k == 'npts':
            self.npts = int(v)
        elif k == 'start_lag':
            self.lag = float(v)
        elif k == 'corr_start':
            self.cs = v
        elif k == 'corr_end':
            self.ce = v
        elif k == 'component':
            a, b = self.other['channel'].split('-')
            x, y = v.split('-')
            self.other['channel'] = f'{a[:-1]}{x}-{b[:-1]}{y}'
        else:
            self.other[k] = v

    def check(self, ctx, s, where):
        m = self
        ctx.event('header_steps')
        for get in (lambda k: s[k], lambda k: getattr(s, k)):
            ctx.close(get('sampling_rate'), m.sr, 'sampling_rate', where,
                      rtol=1e-12)
            ctx.close(get('delta')*get('sampling_rate'), 1., 'reciprocal',
                      where, rtol=1e-12)
            ctx.eq(get('npts'), m.npts, 'npts', where)
            ctx.eq(get('start_lag'), m.lag, 'start_lag', where)
            ctx.close(get('end_lag'), m.lag + max(m.npts-1, 0)/m.sr,
                      'end_lag', where, rtol=1e-9,
                      atol=1e-9*(abs(m.lag)+1/m.sr))
            for k in ('corr_start', 'starttime'):
                ctx.eq(get(k), m.cs, k, where)
            for k in ('corr_end', 'endtime'):
                ctx.eq(get(k), m.ce, k, where)
            for k, v in m.other.items():
                ctx.eq(get(k), v, 'other_entry', f'{where} {k}')
        known = set(m.other) | set(LINKED) | {
            'end_lag', 'starttime', 'endtime'}
        ctx.eq(set(s.keys()), known, 'entries', where)
        ctx.eq(s['id'], '.'.join(m.other[k] for k in (
            'network', 'station', 'channel')), 'id', where)
        if '-' in m.other['channel']:
            a, b = m.other['channel'].split('-')
            ctx.eq(s['component'], f'{a[-1]}-{b[-1]}', 'component', where)


def value(rng, k):
    if k == 'sampling_rate':
        return [lambda: float(rng.choice([.1, 1, 3, 10, 25, 100])),
                lambda: int(rng.integers(1, 200)),
                lambda: np.float32(rng.uniform(.1, 100)),
                lambda: '20'][int(rng.integers(4))]()
    if k == 'delta':
        return [lambda: float(rng.choice([.01, .04, .1, 1/3, 2.])),
                lambda: int(rng.integers(1, 5))][int(rng.integers(2))]()
    if k == 'npts':
        n = int(rng.integers(0, 2000))
        return [n, np.int64(n), float(n)][int(rng.integers(3))]
    if k == 'start_lag':
        return [float(rng.uniform(-100, 100)), int(rng.integers(-50, 50)),
                np.float64(rng.uniform(-9, 9)), 0][int(rng.integers(4))]
    if k in ('corr_start', 'corr_end'):
        return synth.rand_time(rng)
    if k == 'component':
        return '-'.join(rng.choice(list('ZNE123RT'), 2))
    if k == 'channel':
        return '-'.join(rng.choice(['HHZ', 'BHN', 'EH1', 'HH'], 2))
    if k in ('network', 'station', 'location'):
        return '-'.join([synth.code(rng, 1, 5), synth.code(rng, 1, 5)])
    return float(rng.uniform(-1e3, 1e3))


KEYS = list(LINKED) + ['network', 'station', 'location', 'channel', 'calib',
                       'stla', 'dist', 'az', 'my_entry']


@scenario(quick=4000, thorough=60000)
def header(ctx):
    """Histories of single assignments, updates, copies and pickles."""
    from seismic.correlate.stats import CorrStats
    rng = ctx.rng
    m = Model()
    d = {}
    for k in rng.permutation(KEYS)[:int(rng.integers(0, 10))]:
        k = str(k)
        d[k] = value(rng, k)
        m.set(k, d[k])
    s = CorrStats(d) if d or rng.random() < .5 else CorrStats()
    ctx.sig(tuple(d))
    m.check(ctx, s, 'init')
    hist = ['init']
    for _ in range(int(rng.integers(4, 16))):
        r = rng.random()
        old = None
        if r < .5:
            k = ctx.pick(KEYS + ['component'])
            if k == 'component' and '-' not in m.other['channel']:
                continue
            v = value(rng, k)
            hist.append(f'{k}={v!r}')
            if rng.random() < .5:
                s[k] = v
            else:
                setattr(s, k, v)
            m.set(k, v)
        elif r < .6:
            ks = [str(k) for k in rng.permutation(KEYS)[:3]]
            d = {k: value(rng, k) for k in ks}
            hist.append(f'update {d}')
            s.update(d)
            for k in ks:
                m.set(k, d[k])
        elif r < .78:
            k = ctx.pick(['end_lag', 'starttime', 'endtime'])
            v = value(rng, 'corr_start' if k != 'end_lag' else 'start_lag')
            hist.append(f'refused {k}')
            how = rng.random()

            def act():
                if how < .5:
                    s[k] = v
                else:
                    setattr(s, k, v)
            ctx.raises(AttributeError, act, 'derived_not_refused', k)
            ctx.event('refused')
        elif r < .84 and '-' in m.other['channel']:
            hist.append('bad component')

            def act2():
                s.component = 'Z'
            ctx.raises(ValueError, act2, 'bad_component')
        else:
            how = ctx.pick(['copy', 'deepcopy', 'pickle', 'ccopy', 'dict'])
            hist.append(how)
            old = s
            s = dict(copy=lambda: s.copy(), deepcopy=lambda: copy.deepcopy(s),
                     ccopy=lambda: copy.copy(s),
                     pickle=lambda: pickle.loads(pickle.dumps(s)),
                     dict=lambda: CorrStats(dict(s)))[how]()
            ctx.eq(type(s), CorrStats, 'copy_type', how)
            # 1/(1/rate) might differ in the last digit
            ctx.expect(s == old or how == 'dict', 'copy_equal', how)
        m.check(ctx, s, ' > '.join(hist[-4:]))
        if old is not None:
            # independence
            m2 = copy.deepcopy(m)
            old['start_lag'] = 77.7
            old['corr_start'] = UTCDateTime(5)
            old['network'] = 'changed'
            m2.check(ctx, s, 'after change of the original')


@scenario(quick=2000, thorough=40000)
def trace(ctx):
    """Correlation traces: data assignments change the derived entries."""
    from seismic.correlate.stream import CorrTrace
    rng = ctx.rng
    n = int(rng.integers(1, 300))
    sr = float(rng.choice([.5, 1, 10, 25, 40, 100]))
    lag = float(rng.uniform(-100, 10))
    tr = synth.corr_trace(rng.standard_normal(n), sr=sr, start_lag=lag,
                          rng=rng)
    ctx.sig(n, sr)
    for _ in range(5):
        r = rng.random()
        if r < .5:
            n = int(rng.integers(1, 300))
            x = rng.standard_normal(n)
            if rng.random() < .3:
                x = np.ma.array(x, mask=rng.random(n) < .2)
            tr.data = x
        elif r < .65:
            tr.stats.start_lag = lag = float(rng.uniform(-50, 50))
        elif r < .75:
            tr.stats.sampling_rate = sr = float(rng.choice([2, 20, 33]))
        elif r < .85:
            tr = pickle.loads(pickle.dumps(tr))
        elif r < .93:
            tr = tr.copy()
        else:
            tr = CorrTrace(tr.data, _header=tr.stats)
        s = tr.stats
        ctx.event('trace_steps')
        ctx.eq(s.npts, n, 'trace_npts')
        ctx.eq(len(tr.data), n, 'trace_data')
        ctx.close(s.end_lag, lag + (n-1)/sr, 'trace_end_lag', rtol=1e-9)
        ctx.close(tr.times(), lag + np.arange(n)/sr, 'trace_lags', rtol=1e-9)
        ctx.eq(s.corr_end - s.corr_start, 3600., 'trace_window')


def described(ctx, tr, line):
    """One line that states the header of one correlation."""
    s = tr.stats
    parts = [x.strip() for x in line.split('|')]
    ctx.event('printed')
    ctx.eq(parts[0], '.'.join((s.network, s.station, s.location, s.channel)),
           'summary', 'codes')
    a, b = [UTCDateTime(x) for x in parts[1].split(' - ')]
    ctx.eq((a.ns, b.ns), (s.corr_start.ns, s.corr_end.ns), 'summary',
           'window')
    x, num = parts[2].split(', ')
    q, unit = x.split()
    ctx.close(float(q), s.delta if unit == 's' else s.sampling_rate,
              'summary', 'rate', atol=.0501)
    ctx.eq(int(num.split()[0]), len(tr.data), 'summary', 'samples')
    masked = bool(np.ma.count_masked(tr.data))
    ctx.eq('(masked)' in line, masked, 'summary', 'masked')


@scenario(quick=400, thorough=8000)
def printed(ctx):
    """Printed summaries of headers, traces and streams state the headers."""
    from seismic.correlate.stream import CorrStream
    rng = ctx.rng
    n = ctx.pick([0, 1, 2, 5, 19, 20, 21, 22, 40])
    st = CorrStream()
    t0 = synth.rand_time(rng, res=ctx.pick([1., 1e-3]))
    for i in range(n):
        x = rng.standard_normal(int(rng.integers(1, 60)))
        tr = synth.corr_trace(
            x, start=t0 + float(rng.integers(-9999, 9999)), rng=rng,
            sr=float(rng.choice([.01, .05, .099, .1, .5, 1, 25, 100])),
            length=float(rng.choice([60, 3600, 86400.])),
            net=ctx.pick(['XX-XX', 'X-YY']),
            sta=ctx.pick(['A-B', 'A-LONG', 'ABCDE-FGHIJ']),
            cha=ctx.pick(['HHZ-HHZ', 'HHZ-BHN']))
        if rng.random() < .1:
            tr.data = np.ma.array(x, mask=rng.random(len(x)) < .3)
        st.append(tr)
    ctx.sig(n)
    for tr in st:
        described(ctx, tr, str(tr))
        txt = str(tr.stats)
        got = dict((a.strip(), b.strip()) for a, b in (
            x.split(':', 1) for x in txt.splitlines() if ':' in x))
        for k in ('network', 'station', 'location', 'channel', 'corr_start',
                  'corr_end', 'start_lag', 'end_lag', 'sampling_rate',
                  'delta', 'npts'):
            ctx.eq(got.get(k), str(tr.stats[k]), 'summary', f'header {k}')
    for ext in (False, True):
        lines = (st.__str__(extended=True) if ext else str(st)).splitlines()
        ctx.eq(int(lines[0].split()[0]), n, 'summary', 'number')
        shown = [x for x in lines if ' | ' in x]
        want = list(st) if ext or n <= 20 else [st[0], st[-1]]
        ctx.eq(len(shown), len(want), 'summary', 'lines')
        for x, tr in zip(shown, want):
            described(ctx, tr, x)
        if len(want) < n:
            ctx.event('abridged')
            ctx.expect(f'{n-2} other' in '\n'.join(lines), 'summary',
                       'number of those left out')


@scenario(quick=3000, thorough=40000)
def matrix(ctx):
    """Histories of operations on matrices: the header fits the data."""
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    sr = float(rng.choice([1, 4, 10, 25]))
    k = int(rng.integers(40, 150))
    lag = -int(rng.integers(0, k))/sr if rng.random() < .5 else -(k//2)/sr
    A = rng.standard_normal((n, k))
    t0 = synth.rand_time(rng, res=1.)
    ts = [t0 + 3600*i for i in range(n)]
    b = synth.corr_stream(A, ts, sr=sr, start_lag=lag).create_corr_bulk(
        inplace=False, channel='*' if rng.random() < .5 else 'HHZ-HHZ')
    hist = []
    for _ in range(int(rng.integers(2, 7))):
        s = b.stats
        old = copy.deepcopy(s)
        op = ctx.pick(['trim', 'mirror', 'resample', 'rate', 'slice', 'item',
                       'copy', 'stream', 'pickle', 'cycle', 'norm', 'file'])
        if s.npts < 20 and op in ('rate', 'trim', 'mirror'):
            continue
        hist.append(op)
        changed = ()
        if op == 'trim':
            a = s.start_lag + rng.uniform(0, .2)*s.npts*s.delta
            e = s.end_lag - rng.uniform(0, .2)*s.npts*s.delta
            b.trim(a, e)
        elif op == 'mirror':
            b.mirror()
        elif op == 'resample':
            m = int(rng.integers(1, 12))
            step = float(rng.choice([1800, 3600, 5000, 7200]))
            t = min(s.corr_start) - float(rng.choice([0, 1800, 4000]))
            b.resample([t + i*step for i in range(m)],
                       [t + (i+1)*step for i in range(m)])
            ctx.eq(b.data.shape[0], m, 'bins', str(hist))
            changed = ('rows',)
        elif op == 'rate':
            b.resample_time_axis(float(s.sampling_rate)/float(
                rng.choice([1, 2, 2.5])))
        elif op == 'slice':
            c = b.slice(min(s.corr_start), min(s.corr_start)+8000.)
            if not len(c.data):
                continue
            b = c
        elif op == 'item':
            b = b[0:int(rng.integers(1, len(b.data)+1))]
        elif op == 'copy':
            b = b.copy()
        elif op == 'pickle':
            b = pickle.loads(pickle.dumps(b))
        elif op in ('stream', 'cycle'):
            st = b.create_corr_stream()
            for i, tr in enumerate(st):
                ctx.eq(tr.stats.npts, b.data.shape[1], 'stream_npts',
                       str(hist))
                ctx.eq(tr.stats.corr_start, b.stats.corr_start[i],
                       'stream_start', str(hist))
                ctx.eq(tr.stats.starttime, tr.stats.corr_start,
                       'stream_alias', str(hist))
                ctx.close(tr.stats.end_lag, b.stats.end_lag,
                          'stream_end_lag', str(hist))
            if op == 'cycle':
                b = st.create_corr_bulk(inplace=False)
        elif op == 'norm':
            b.normalize()
        elif op == 'file':
            p = ctx.tmp() + '/b.npz'
            b.save(p)
            from seismic.correlate.stream import read_corr_bulk
            b = read_corr_bulk(p)
        s = b.stats
        w = ' > '.join(hist)
        ctx.event('bulk_steps')
        ctx.eq(b.data.ndim, 2, 'matrix_dimensions', w)
        r, c = b.data.shape
        ctx.eq(s.npts, c, 'matrix_npts', w)
        if op == 'slice' and s.ntrcs == old.ntrcs != r:
            ctx.fail('slice_ntrcs', w)
            s['ntrcs'] = r
        ctx.eq(s.ntrcs, r, 'matrix_rows', w)
        ctx.close(s.delta*s.sampling_rate, 1., 'matrix_reciprocal', w)
        ctx.close(s.end_lag, s.start_lag + (c-1)/s.sampling_rate,
                  'matrix_end_lag', w, rtol=1e-9, atol=1e-9)
        for q in ('corr_start', 'corr_end', 'location', 'channel'):
            if isinstance(s[q], (list, np.ndarray)):
                ctx.eq(len(s[q]), r, 'matrix_list_length', f'{w} {q}')
            else:
                ctx.eq(q, 'channel', 'matrix_list_lost', f'{w} {q}')
        ctx.eq(list(s.starttime), list(s.corr_start), 'matrix_alias', w)
        ctx.eq(list(s.endtime), list(s.corr_end), 'matrix_alias', w)
        for q in ('network', 'station', 'stla', 'evlo', 'dist', 'az'):
            ctx.eq(s[q], old[q], 'matrix_entry', f'{w} {q}')
    ctx.sig(tuple(hist))
