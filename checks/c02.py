"""
Directories of miniSEED files with random naming patterns, file lengths,
boundaries, gaps and neighbours are written by independent code; windows read
from them are compared sample by sample with the generated records.
"""
import calendar
import datetime
import os
import warnings

import numpy as np
from obspy import Stream, Trace, UTCDateTime, read

from vlib import synth
from vlib.core import scenario

ASSUMPTIONS = [
    'files hold the data of one unit of the finest time indicator of their '
    'pattern, up to some seconds at their ends',
    'all channels in one file span the same time (documented)',
    'a sample up to half an interval outside of the window may be returned',
    'windows without any data yield an empty stream']
REQUIRED = {'reads': 1200, 'samples_compared': 100000, 'across_files': 300,
            'empty': 60, 'gaps': 100, 'year_changes': 40, 'month_ends': 40,
            'patterns': 15, 'whole_files': 100, 'translated': 40,
            'edges': 100, 'hourly': 150, 'daily': 300, 'monthly': 60,
            'yearly': 40, 'refused': 60}
HOUR = 3600
DAY = 86400

# unit, descriptor, file name by independent means
PATTERNS = [
    ('day', None, lambda i, t: f'{t:%Y}/{i[0]}/{i[1]}/{i[3]}.D/' + '.'.join(
        i)+f'.D.{t:%Y}.{t:%j}'),
    ('day', ['%Y', '%NET', '%STA', ['%CHA', '.', '%j']],
     lambda i, t: f'{t:%Y}/{i[0]}/{i[1]}/{i[3]}.{t:%j}'),
    ('day', ['%net', ['%sta', '_', '%cha', '_', '%d', '.', '%m', '.', '%Y',
                      '.ms']],
     lambda i, t: f'{i[0].lower()}/{i[1].lower()}_{i[3].lower()}_{t.day:02d}.'
     f'{t.month:02d}.{t.year}.ms'),
    ('day', [['%NET', '%STA', '%LOC'], ['%Y', '-', '%m', '-', '%d', '_',
                                        '%CHA']],
     lambda i, t: f'{i[0]}{i[1]}{i[2]}/{t.date().isoformat()}_{i[3]}'),
    ('day', ['%Y', '%b', '%NET', ['%j', '_', '%STA', '_T_',
                                  "%CHA('HH','')", '.mseed']],
     lambda i, t: f'{t:%Y}/{calendar.month_abbr[t.month]}/{i[0]}/{t:%j}_'
     f'{i[1]}_T_{i[3].replace("HH", "")}.mseed'),
    ('day', ['%y', ['%-j', '.', "%STA('A','xy')", '.', '%CHA']],
     lambda i, t: f'{t.year % 100:02d}/{t.timetuple().tm_yday}.'
     f'{i[1].replace("A", "xy")}.{i[3]}'),
    ('day', ['%STA', ['%Y', '_', '%B', '_', '%d'], '%CHA'],
     lambda i, t: f'{i[1]}/{t.year}_{calendar.month_name[t.month]}_'
     f'{t.day:02d}/{i[3]}'),
    ('hour', ['%Y', '%j', ['%NET', '.', '%STA', '.', '%CHA', '.', '%H',
                           '.mseed']],
     lambda i, t: f'{t.year}/{t:%j}/{i[0]}.{i[1]}.{i[3]}.{t.hour:02d}.mseed'),
    ('hour', ['%NET', '%STA', ['%Y', '%m', '%d', 'T', '%H', '.', '%cha']],
     lambda i, t: f'{i[0]}/{i[1]}/{t:%Y%m%d}T{t.hour:02d}.{i[3].lower()}'),
    ('hour', ['%H', ['%STA', '_', '%Y', '.', '%j', '.', '%CHA']],
     lambda i, t: f'{t.hour:02d}/{i[1]}_{t.year}.{t:%j}.{i[3]}'),
    ('hour', ['%Y', '%j', ['%p', '_', '%I', '_', '%STA', '_', '%CHA']],
     lambda i, t: f'{t.year}/{t:%j}/{"PM" if t.hour > 11 else "AM"}_'
     f'{(t.hour-1) % 12+1:02d}_{i[1]}_{i[3]}'),
    ('half', ['%Y', '%m', '%d', ['%STA', '.', '%CHA', '.', '%p']],
     lambda i, t: f'{t.year}/{t:%m}/{t:%d}/{i[1]}.{i[3]}.'
     f'{"PM" if t.hour > 11 else "AM"}'),
    ('month', ['%Y', '%NET', ['%sta', '_', '%cha', '_', '%m']],
     lambda i, t: f'{t.year}/{i[0]}/{i[1].lower()}_{i[3].lower()}_'
     f'{t.month:02d}'),
    ('month', [['%b', '%y'], ['%STA', '.', '%CHA']],
     lambda i, t: f'{calendar.month_abbr[t.month]}{t.year % 100:02d}/'
     f'{i[1]}.{i[3]}'),
    ('year', ['%NET', ['%STA', '_', '%CHA', '_', '%Y', '.ms']],
     lambda i, t: f'{i[0]}/{i[1]}_{i[3]}_{t.year}.ms'),
    ('year', ['%y', ['%NET', '.', '%STA', '.', '%LOC', '.', '%CHA']],
     lambda i, t: f'{t.year % 100:02d}/'+'.'.join(i)),
    ('week', ['%Y', '%U', ['%STA', '.', '%CHA']],
     lambda i, t: f'{t.year}/{(t.timetuple().tm_yday+6-(t.weekday()+1) % 7)//7:02d}'
     f'/{i[1]}.{i[3]}'),
    ('day', ['%Y', '%NET', ['%STA', '.', '%j']],
     lambda i, t: f'{t.year}/{i[0]}/{i[1]}.{t:%j}'),
    ('hour', ['%Y', '%NET', ['%STA', '.', '%j', '.', '%H']],
     lambda i, t: f'{t.year}/{i[0]}/{i[1]}.{t:%j}.{t.hour:02d}'),
    ('none', ['all', ['%STA', '.', '%CHA']],
     lambda i, t: f'all/{i[1]}.{i[3]}')]


def floor(t, unit):
    """Start of the unit that contains t."""
    if unit == 'hour':
        return t.replace(minute=0, second=0, microsecond=0)
    t0 = t.replace(hour=0, minute=0, second=0, microsecond=0)
    if unit == 'half':
        return t0.replace(hour=t.hour//12*12)
    if unit == 'day':
        return t0
    if unit == 'week':
        # begins with a sunday and with the year
        t1 = t0-datetime.timedelta(days=(t0.weekday()+1) % 7)
        return max(t1, t0.replace(month=1, day=1))
    if unit == 'month':
        return t0.replace(day=1)
    if unit == 'year':
        return t0.replace(day=1, month=1)
    return datetime.datetime(1900, 1, 1)


def after(t, unit):
    """Start of the next unit."""
    t = floor(t, unit)
    step = {'hour': 1, 'half': 12}.get(unit, 24)
    if unit == 'none':
        return datetime.datetime(2200, 1, 1)
    u = t
    while floor(u, unit) == t:
        u += datetime.timedelta(hours=step)
    return floor(u, unit)


def span(rng, unit):
    """Interesting begin of the records and their duration (s), interval."""
    y = int(rng.integers(1996, 2030))
    t = datetime.datetime(y, 1, 1)+datetime.timedelta(
        days=int(rng.integers(0, 365)))
    kind = rng.choice(['any', 'year', 'month', 'leap'])
    if kind == 'year':
        t = datetime.datetime(y, 12, 30)
    elif kind == 'month':
        m = int(rng.integers(1, 13))
        t = datetime.datetime(y, m, calendar.monthrange(y, m)[1])
        t -= datetime.timedelta(days=int(rng.integers(0, 2)))
    elif kind == 'leap':
        t = datetime.datetime(int(rng.choice([2000, 2004, 2020, 2010])), 2,
                              27)
    if unit in ('hour', 'half'):
        t += datetime.timedelta(hours=int(rng.integers(20, 48)))
        return t, int(rng.integers(5, 40))*HOUR, float(rng.choice([10, 20]))
    if unit in ('month', 'year'):
        if unit == 'year':
            t = datetime.datetime(y, int(rng.choice([11, 12])), int(
                rng.integers(1, 31)))
        return t, int(rng.integers(40, 120))*DAY, float(rng.choice([3600,
                                                                    1800]))
    if unit == 'week':
        return t, int(rng.integers(10, 40))*DAY, 1800.
    return t, int(rng.integers(2, 8))*DAY, float(rng.choice([60, 300, 100]))


def make(ctx):
    """Write one archive; return what is in it."""
    rng = ctx.rng
    unit, fs, name = ctx.pick(PATTERNS)
    t0, dur, dt = span(rng, unit)
    off = float(ctx.pick([0, 0, 0, .5, dt/2, 1.003]))
    root = ctx.tmp()
    n = int(dur/dt)
    net, sta = ctx.pick([('AB', 'CDA'), ('X9', 'A1'), ('XX', 'STA')])
    loc = ctx.pick(['', '00'])
    chans = ['HHZ', 'HHE', 'BHZ'][:int(rng.integers(1, 4))]
    if fs is not None and any("'" in q for p in fs for q in p):
        ctx.event('translated')
    data = {}
    ok = np.ones(n, bool)
    for _ in range(int(rng.choice([0, 0, 1, 2]))):
        a = int(rng.integers(0, n))
        ok[a:a+int(rng.choice([1, 5, n//10+1, n//3]))] = False
    start = UTCDateTime(t0)+off
    # files may start somewhat early or late
    early = int(ctx.pick([0, 0, 0, 1, -1, 2]))
    files = {}
    ids = [(net, s, loc, cha) for s in (sta, 'OTH') for cha in chans]
    # other sensors, possibly in the same files
    ids += [(net, sta, '77', cha) for cha in chans[:1]]
    for i in ids:
        kind = ctx.pick([np.int32, np.float32, float])
        x = (rng.integers(-9999, 9999, n) if kind == np.int32 else
             rng.normal(size=n)).astype(kind)
        data[i] = x
        t = t0
        a = 0
        while a < n:
            nxt = after(t, unit)
            b = int(np.ceil((UTCDateTime(nxt)-start)/dt-1e-6))+early
            b = min(max(b, a), n)
            st = files.setdefault(name(i, t), Stream())
            for p, q in runs(ok, a, b):
                tr = Trace(x[p:q].copy())
                tr.stats.update(dict(zip(
                    ('network', 'station', 'location', 'channel'), i)))
                tr.stats.delta = dt
                tr.stats.starttime = start+p*dt
                st.append(tr)
            a, t = b, nxt
    for f, st in files.items():
        if st:
            f = os.path.join(root, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            st.write(f, format='MSEED', reclen=512 if rng.random() < .5
                     else 4096)
    fs = root if fs is None else [root]+fs
    return unit, fs, files, (net, sta, loc), data, ok, start, dt, t0, dur


def runs(ok, a, b):
    m = np.zeros(len(ok)+2, int)
    if b > a:
        m[a+1:b+1] = ok[a:b]
    e = np.flatnonzero(np.diff(m))
    return list(zip(e[::2], e[1::2]))


def collect(ctx, st, i, x, ok, start, dt, what):
    """How often each sample was returned."""
    g = np.zeros(len(x), int)
    for tr in st:
        ctx.eq((tr.stats.network, tr.stats.station, tr.stats.location,
                tr.stats.channel), i, 'codes', what)
        ctx.expect(abs(tr.stats.delta-dt) < 1e-9*dt, 'rate', what)
        k = (tr.stats.starttime-start)/dt
        ctx.expect(abs(k-round(k))*dt < 2e-4, 'sample_times', f'{what} {tr}')
        k = int(round(k))
        m = np.ma.getmaskarray(tr.data)
        if k < 0 or k+len(m) > len(x):
            p = np.flatnonzero(~m)
            ctx.expect(len(p) == 0 or (k+p[0] >= 0 and k+p[-1] < len(x)),
                       'invented', f'{what} {tr}')
        for p in np.flatnonzero(~m):
            if 0 <= k+p < len(x):
                g[k+p] += 1
                ctx.expect(ok[k+p] and np.asarray(tr.data)[p] == x[k+p],
                           'values', f'{what} sample {k+p}')
    ctx.event('samples_compared', int(g.sum()))
    return g


@scenario(quick=600, thorough=6000, timeout=240, weight=4)
def windows(ctx):
    """Windows anywhere, across files and at their edges."""
    from seismic.trace_data.waveform import FS_Client, read_from_filesystem
    rng = ctx.rng
    unit, fs, files, base, data, ok, start, dt, t0, dur = make(ctx)
    n = len(ok)
    names = [f for f, st in files.items() if st]
    ctx.event('patterns')
    ctx.event({'hour': 'hourly', 'half': 'hourly', 'day': 'daily',
               'week': 'monthly', 'month': 'monthly', 'year': 'yearly',
               'none': 'daily'}[unit], 8)
    for _ in range(8):
        i = base+(ctx.pick(sorted({k[3] for k in data})),)
        x = data[i]
        kind = ctx.pick(['any', 'sample', 'edge', 'single', 'outside'])
        length = dur*10**rng.uniform(-2.5, 0)
        a = UTCDateTime(t0)+dur*rng.uniform(-.05, .95)
        if kind in ('sample', 'single'):
            a = start+int(rng.integers(0, n))*dt
            length = np.ceil(length/dt)*dt
            if kind == 'single':
                length = float(ctx.pick([dt, dt/4, 2*dt]))
        elif kind == 'edge':
            e = UTCDateTime(after((UTCDateTime(t0)+dur*rng.uniform(
                0, .9)).datetime, unit))
            if not UTCDateTime(t0) <= e <= UTCDateTime(t0)+dur:
                e = UTCDateTime(t0)+dur/2
            k = int(ctx.pick([-2, -1, 0, 1]))
            if rng.random() < .5:
                a = e+k*dt+ctx.pick([0, start-UTCDateTime(t0)])
            else:
                length = float(ctx.pick([dt, 5*dt, dur/3]))
                a = e+k*dt-length
            ctx.event('edges')
        elif kind == 'outside':
            a = UTCDateTime(t0)+dur*ctx.pick([-3, 2])
            length = dur/5
        # whole microseconds
        a = UTCDateTime(ns=int(round(a.ns, -3)))
        b = UTCDateTime(ns=int(round((a+length).ns, -3)))
        what = f'{unit} {fs[1:] if isinstance(fs, list) else "SDS"} {a} {b}'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if rng.random() < .5:
                st = FS_Client(fs).get_waveforms(*i, a, b)
            else:
                st = read_from_filesystem('.'.join(i), a.datetime,
                                          b.datetime, fs)
        g = collect(ctx, st, i, x, ok, start, dt, what)
        p = max(int(np.ceil((a-start)/dt-1e-5)), 0)
        q = min(int(np.floor((b-start)/dt+1e-5))+1, n)
        q = max(p, q)
        ctx.expect(np.array_equal(g[p:q], ok[p:q].astype(int)), 'samples',
                   f'{what}: {g[p:q].sum()} of {ok[p:q].sum()} samples')
        for tr in st:
            ctx.expect(tr.stats.starttime >= a-.501*dt and
                       tr.stats.endtime <= b+.501*dt, 'outside',
                       f'{what}: {tr}')
        if not ok[p:q].any():
            ctx.event('empty')
        elif not ok[p:q].all():
            ctx.event('gaps')
        if unit != 'none' and floor(a.datetime, unit) != floor(
                b.datetime, unit):
            ctx.event('across_files')
        if a.year != b.year:
            ctx.event('year_changes')
        if a.month != b.month:
            ctx.event('month_ends')
        ctx.event('reads')
    ctx.sig(unit, len(names), str(start), dt)


@scenario(quick=120, thorough=2000, timeout=240, weight=3)
def whole(ctx):
    """Without trimming all samples of the files are returned."""
    from seismic.trace_data.waveform import FS_Client
    rng = ctx.rng
    unit, fs, files, base, data, ok, start, dt, t0, dur = make(ctx)
    i = base+(ctx.pick(sorted({k[3] for k in data})),)
    a = UTCDateTime(t0)+float(np.round(dur*rng.uniform(0, .9)))
    b = a+float(np.round(min(dur*.3, max(2*dt, dur*rng.random()*.3))))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        st = FS_Client(fs).get_waveforms(*i, a, b, trim=False)
    what = f'{unit} {fs[1:] if isinstance(fs, list) else "SDS"} {a} {b}'
    g = collect(ctx, st, i, data[i], ok, start, dt, what)
    ctx.expect(g.max(initial=0) <= 1, 'twice', what)
    p = max(int(np.ceil((a-start)/dt-1e-5)), 0)
    q = min(int(np.floor((b-start)/dt+1e-5))+1, len(ok))
    ctx.expect(q <= p or np.array_equal(g[p:q], ok[p:q].astype(int)),
               'samples', what)
    ctx.event('whole_files')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        st = FS_Client(fs).get_waveforms(*base, 'QQQ', a, b)
    ctx.eq(len(st), 0, 'other_channel', what)
    from seismic.trace_data.waveform import read_from_filesystem
    ctx.raises(AssertionError, lambda: read_from_filesystem(
        '.'.join(i), a, b, fs), 'not_datetime')
    ctx.event('refused')
    # files are only read
    f = ctx.pick([f for f, s in files.items() if s] or [None])
    if f:
        root = fs if isinstance(fs, str) else fs[0]
        ctx.expect(len(read(os.path.join(root, f))) >= 1, 'file', f)
    ctx.sig(unit, str(a), str(b))
