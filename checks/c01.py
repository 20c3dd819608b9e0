"""
Random histories of downloads, local reads, restarts and look-ups run against
a waveform store with a synthetic data centre. A model remembers which samples
were delivered; every answer and, at the end, every file of the archive is
compared with it sample by sample.
"""
import fnmatch
import glob
import hashlib
import os
import warnings

import numpy as np
from obspy import Inventory, Stream, Trace, UTCDateTime, read
from obspy.clients.fdsn.header import FDSNNoDataException

from vlib import synth
from vlib.core import scenario

ASSUMPTIONS = [
    'the data centre always delivers the same values for the same time',
    'times in miniSEED files are exact to 0.1 ms',
    'a sample up to half an interval outside of the window may be returned',
    'parts of a requested window at the edges of gaps of the data centre are '
    'requested again',
    'archives are written by one process at a time and writing is not '
    'interrupted']
REQUIRED = {'requests': 500, 'served_locally': 100, 'downloads': 200,
            'no_data': 20, 'samples_compared': 200000, 'gaps_kept': 50,
            'files_verified': 300, 'across_midnight': 100, 'restarts': 60,
            'read_only': 60, 'responses': 200, 'listings': 100,
            'time_ranges': 100, 'merged_files': 100, 'disjoint': 50,
            'inventories': 60, 'edges': 100, 'mass_downloads': 100,
            'mass_days': 200}
# whole seconds per sample
DAY = 86400


class Centre:
    """Data centre with fixed content."""

    def __init__(self, rng, nsta=2):
        self.calls = []
        self.t0 = UTCDateTime(synth.rand_time(rng, res=1.).date)
        if rng.random() < .4:
            # around new year
            self.t0 = UTCDateTime(self.t0.year, 12, 30)
        self.days = 4
        self.chan = {}
        stas = synth.stations(rng, nsta, tricky=False)
        if len(stas) > 1 and rng.random() < .3:
            # the same station code in two networks
            stas[1] = (['ZZ', 'QQ'][stas[0][0] == 'ZZ'], stas[0][1])
        self.coord = {s: synth.coords(rng) for s in stas}
        self.t0 += 0
        for s in stas:
            for cha in rng.choice(['HHZ', 'HHE', 'BHZ', 'HDF'], size=int(
                    rng.integers(1, 3)), replace=False):
                loc = str(rng.choice(['', '00', '10']))
                dt = float(rng.choice([10, 20, 60, 30]))
                off = float(rng.choice([0, 0, .5, 3.25, 9.123]))
                n = int(self.days*DAY/dt)
                kind = [np.int32, np.float32, float][int(rng.integers(3))]
                x = (rng.integers(-10**5, 10**5, n) if kind == np.int32
                     else rng.normal(size=n)).astype(kind)
                ok = np.ones(n, bool)
                for _ in range(int(rng.choice([0, 1, 1, 2]))):
                    a = int(rng.integers(0, n))
                    ok[a:a+int(rng.choice([1, 30, 600, 2*n//self.days]))] = 0
                self.chan[s+(loc, str(cha))] = dict(
                    dt=dt, off=off, x=x, ok=ok,
                    gain=float(2**rng.integers(0, 20)))

    def index(self, c, start, end):
        """Samples inside of the window."""
        a = int(np.ceil((start-self.t0-c['off'])/c['dt']-1e-6))
        b = int(np.floor((end-self.t0-c['off'])/c['dt']+1e-6))
        a = min(max(a, 0), len(c['x']))
        return a, max(a, min(b+1, len(c['x'])))

    def match(self, network, station, location, channel):
        if location == '--':
            location = ''
        return [k for k in self.chan if all(
            fnmatch.fnmatchcase(x, y) for x, y in zip(
                k, (network, station, location, channel)))]

    def get_waveforms(self, network, station, location, channel, starttime,
                      endtime, **kw):
        self.calls.append(('w', starttime, endtime))
        st = Stream()
        for k in self.match(network, station, location, channel):
            c = self.chan[k]
            a, b = self.index(c, starttime, endtime)
            for i, j in runs(c['ok'], a, b):
                tr = Trace(c['x'][i:j].copy())
                tr.stats.update(dict(zip(
                    ('network', 'station', 'location', 'channel'), k)))
                tr.stats.delta = c['dt']
                tr.stats.starttime = self.t0+c['off']+i*c['dt']
                st.append(tr)
        if not st:
            raise FDSNNoDataException('No data available for request.')
        return st

    def get_stations(self, network='*', station='*', location='*',
                     channel='*', level='response', **kw):
        from obspy.core.inventory import Channel, Network, Response, Station
        self.calls.append(('s', network, station, channel))
        nets = {}
        for n, s, lo, c in self.match(network, station, location, channel):
            la, lon, el = self.coord[n, s]
            r = Response.from_paz([], [], self.chan[n, s, lo, c]['gain'],
                                  input_units='M/S', output_units='COUNTS')
            ch = Channel(c, lo, la, lon, el, 0, response=r, azimuth=0,
                         dip=-90, start_date=UTCDateTime(1980, 1, 1))
            nets.setdefault(n, {}).setdefault(s, []).append(ch)
        return Inventory([Network(n, stations=[Station(
            s, *self.coord[n, s], channels=cs,
            start_date=UTCDateTime(1980, 1, 1),
            creation_date=UTCDateTime(1980, 1, 1))
            for s, cs in ss.items()]) for n, ss in nets.items()],
            source='check')


def complete(centre, c, stored, start, end):
    """All that exists is archived, up to both ends of the window."""
    a = int(np.ceil((start-centre.t0-c['off'])/c['dt']-1e-6))
    b = int(np.floor((end-centre.t0-c['off'])/c['dt']+1e-6))
    return bool(0 <= a <= b < len(stored) and stored[a] and stored[b] and (
        stored[a:b+1] == c['ok'][a:b+1]).all())


def edges(ctx, c, st, start, end, what):
    """What is not asked for must reach both ends of the window."""
    a = min((tr.stats.starttime for tr in st), default=None)
    b = max((tr.stats.endtime for tr in st), default=None)
    tol = c['dt']+1e-3
    ctx.expect(a is not None and a-tol <= start and end <= b+tol,
               'incomplete', f'{what}: only {a} to {b} although not asked')
    ctx.event('edges')


def runs(ok, a, b):
    """Contiguous spans of ok inside of [a, b)."""
    m = np.zeros(len(ok)+2, int)
    if b > a:
        m[a+1:b+1] = ok[a:b]
    e = np.flatnonzero(np.diff(m))
    return list(zip(e[::2], e[1::2]))


def snapshot(path):
    out = {}
    for root, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.join(root, d)] = None
        for f in files:
            with open(os.path.join(root, f), 'rb') as fh:
                out[os.path.join(root, f)] = hashlib.sha1(
                    fh.read()).hexdigest()
    return out


def check_stream(ctx, centre, st, got, what, start=None, end=None):
    """Compare samples with the centre, collect their indices."""
    n = 0
    for tr in st:
        k = (tr.stats.network, tr.stats.station, tr.stats.location,
             tr.stats.channel)
        if k not in centre.chan:
            ctx.fail('codes', f'{what}: {tr.id}')
            continue
        c = centre.chan[k]
        ctx.expect(abs(tr.stats.delta-c['dt']) < 1e-9*c['dt'], 'rate',
                   f'{what}: {tr}')
        i = (tr.stats.starttime-centre.t0-c['off'])/c['dt']
        ctx.expect(abs(i-round(i))*c['dt'] < 2e-4, 'sample_times',
                   f'{what}: {tr}')
        i = int(round(i))
        j = i+tr.stats.npts
        ctx.expect(not np.ma.is_masked(tr.data), 'masked', f'{what}: {tr}')
        if i < 0 or j > len(c['x']):
            ctx.fail('invented', f'{what}: {tr}')
            continue
        ctx.expect(np.array_equal(np.asarray(tr.data), c['x'][i:j])
                   and c['ok'][i:j].all(), 'values', f'{what}: {tr}')
        if start is not None:
            ctx.expect(tr.stats.starttime >= start-.501*c['dt'] and
                       tr.stats.endtime <= end+.501*c['dt'], 'outside',
                       f'{what} {start} {end}: {tr}')
        g = got.setdefault(k, np.zeros(len(c['x']), int))
        g[i:j] += 1
        n += j-i
    ctx.event('samples_compared', n)


def window(ctx, centre, c=None):
    rng = ctx.rng
    length = float(ctx.pick([60, 600, 3600, 6*3600, DAY, 1.5*DAY, 2.2*DAY]))
    a = float(rng.uniform(-.2*DAY, centre.days*DAY))
    kind = ctx.pick(['any', 'whole', 'day', 'sample', 'midnight'])
    if kind == 'whole':
        a = float(np.round(a))
    elif kind == 'day':
        a = float(np.round(a/DAY)*DAY)
    elif kind == 'midnight':
        a = float(np.round(a/DAY)*DAY)-length/2
    elif kind == 'sample' and c is not None:
        a = float(np.round(a/c['dt'])*c['dt']+c['off'])
        length = float(np.ceil(length/c['dt'])*c['dt'])
    start = centre.t0+a
    return start, start+length


@scenario(quick=120, thorough=2500, timeout=240, weight=6)
def history(ctx):
    """Downloads, reads and restarts over several stations and days."""
    from seismic.trace_data.waveform import Store_Client
    rng = ctx.rng
    centre = Centre(rng, int(rng.integers(1, 4)))
    path = ctx.tmp()
    keys = list(centre.chan)
    stored = {k: np.zeros(len(c['x']), bool) for k, c in centre.chan.items()}
    ro = False
    sc = Store_Client(centre, path)
    ops = []
    last = None
    for step in range(int(rng.integers(4, 14))):
        op = ctx.pick(['get']*6+['restart', 'read_only', 'local', 'list'])
        ops.append(op)
        what = f'step {step} {op}'
        if op == 'restart':
            sc, ro = Store_Client(centre, path), False
            ctx.event('restarts')
            continue
        if op == 'read_only':
            sc, ro = Store_Client(centre, path, read_only=True), True
            continue
        if op == 'list':
            listing(ctx, centre, sc, stored)
            continue
        k = ctx.pick(keys)
        c = centre.chan[k]
        start, end = window(ctx, centre, c)
        if last and rng.random() < .3:
            # the same again or a part of it
            k, start, end = last
            c = centre.chan[k]
            if rng.random() < .5:
                start += float(rng.uniform(0, .4))*(end-start)
                end -= float(rng.uniform(0, .4))*(end-start)
            ctx.event('again')
        last = k, start, end
        loc = ctx.pick([k[2], k[2], '*'])
        ks = centre.match(k[0], k[1], loc, k[3])
        before = snapshot(path) if ro else None
        ncall = len(centre.calls)
        resp = ctx.pick([True, True, False])
        got = {}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if op == 'local':
                st = sc._load_local(k[0], k[1], loc, k[3], start, end, resp,
                                    False)
            else:
                st = sc.get_waveforms(k[0], k[1], loc, k[3], start, end,
                                      resp)
        remote = [x for x in centre.calls[ncall:] if x[0] == 'w']
        what += f' {k} {start} {end} remote {len(remote)}'
        check_stream(ctx, centre, st, got, what, start, end)
        for q in got:
            ctx.expect(q in ks, 'other_channel', f'{what}: {q}')
        inside = {q: centre.index(centre.chan[q], start, end) for q in ks}
        for q, (a, b) in inside.items():
            g = got.get(q, np.zeros(len(stored[q]), int))
            ctx.expect(g.max(initial=0) <= 1, 'twice', what)
            if remote:
                miss = centre.chan[q]['ok'][a:b] & (g[a:b] == 0)
            else:
                miss = stored[q][a:b] & (g[a:b] == 0)
                ctx.expect(not (g[a:b] > stored[q][a:b]).any(), 'not_stored',
                           what)
            ctx.expect(not miss.any(), 'missing',
                       f'{what}: {miss.sum()} of {b-a} samples')
            if (~centre.chan[q]['ok'][a:b]).any() and g[a:b].any():
                ctx.event('gaps_kept')
        ctx.event('requests')
        if op == 'local':
            ctx.eq(len(centre.calls), ncall, 'asked_centre', what)
        elif not remote:
            ctx.event('served_locally')
            edges(ctx, c, st, start, end, what)
        else:
            ctx.event('downloads')
            if len(ks) == 1:
                ctx.expect(not complete(centre, c, stored[k], start, end),
                           'asked_again', f'{what}: all is archived')
            if not st:
                ctx.event('no_data')
        if start.julday != end.julday:
            ctx.event('across_midnight')
        if ro:
            ctx.event('read_only')
            after = snapshot(path)
            d = sorted(x for x in set(before) | set(after)
                       if before.get(x, 0) != after.get(x, 0))
            ctx.eq(d, [], 'read_only_changed', what)
        elif remote:
            for q, (a, b) in inside.items():
                # at least this was delivered
                stored[q][a:b] |= centre.chan[q]['ok'][a:b]
        if resp:
            for tr in st:
                q = (tr.stats.network, tr.stats.station, tr.stats.location,
                     tr.stats.channel)
                r = getattr(tr.stats, 'response', None)
                if op == 'get' or remote:
                    known = True
                else:
                    known = False
                if r is None and known:
                    ctx.fail('no_response', f'{what} {tr.id}')
                elif r is not None and q in centre.chan:
                    ctx.expect(abs(
                        r.instrument_sensitivity.value
                        / centre.chan[q]['gain']-1) < 1e-6, 'response',
                        f'{what} {tr.id}')
                    ctx.event('responses')
    verify(ctx, centre, path, stored, ' '.join(ops))
    ctx.sig(ops, len(keys))


def verify(ctx, centre, path, stored, what):
    """Every file of the archive against the model."""
    got = {}
    for f in sorted(glob.glob(path+'/mseed/*/*/*/*/*')):
        st = read(f)
        y, n, s, cd, base = f.split(os.path.sep)[-5:]
        p = base.split('.')
        for tr in st:
            ctx.eq((n, s, cd, p[0], p[1], p[2], p[3], p[4]),
                   (tr.stats.network, tr.stats.station,
                    tr.stats.channel+'.D', tr.stats.network,
                    tr.stats.station, tr.stats.location, tr.stats.channel,
                    'D'), 'file_name', f)
            d0 = UTCDateTime(year=int(p[5]), julday=int(p[6]))
            ctx.expect(y == p[5] and tr.stats.starttime >= d0-1e-3
                       and tr.stats.endtime <= d0+DAY+1e-3, 'file_day',
                       f'{base}: {tr}')
        one = {}
        check_stream(ctx, centre, st, one, f'{what} file {base}')
        for k, g in one.items():
            ctx.expect(g.max() <= 1, 'stored_twice', f'{what} {base}')
            got[k] = got.get(k, 0)+g
        ctx.event('files_verified')
        if len(st) > 1:
            ctx.event('disjoint')
    for k, s in stored.items():
        g = got.get(k, np.zeros(len(s), int))
        m = s & (g == 0)
        ctx.expect(not m.any(), 'lost', f'{what}: {k} {m.sum()} samples')


def listing(ctx, centre, sc, stored):
    """Stations, first and last day agree with the content."""
    have = {}
    for k, s in stored.items():
        if s.any():
            i = np.flatnonzero(s)
            c = centre.chan[k]
            t = [centre.t0+c['off']+int(j)*c['dt'] for j in (i[0], i[-1])]
            h = have.setdefault(k[:2], t)
            have[k[:2]] = [min(h[0], t[0]), max(h[1], t[1])]
    nets = sorted({k[0] for k in centre.chan})
    for net in [None]+nets:
        want = sorted(list(k) for k in have if net in (None, k[0]))
        ctx.event('listings')
        if not want:
            ctx.raises(FileNotFoundError,
                       lambda: sc.get_available_stations(net), 'no_stations')
        else:
            ctx.eq(sorted(sc.get_available_stations(net)), want, 'stations',
                   str(net))
    for k in {k[:2] for k in centre.chan}:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            a, b = sc._get_times(*k)
        ctx.event('time_ranges')
        if k not in have:
            ctx.expect(a is None and b is None and len(w), 'times',
                       f'{k} {a} {b}')
            continue
        t0, t1 = have[k]
        ctx.expect(a is not None and a <= t0+1e-3 and t0-a < DAY, 'first',
                   f'{k}: {a} {t0}')
        # the last sample may also be stored with the next day
        ctx.expect(b is not None and t1-1e-3 <= b <= t1+DAY+1e-3, 'last',
                   f'{k}: {b} {t1}')


class Mass:
    """Stand-in for the mass downloader of obspy."""
    centre = written = None

    def __init__(self, providers=None, **kw):
        self.providers = providers

    def download(self, domain, restrictions, mseed_storage,
                 stationxml_storage, **kw):
        r, c = restrictions, self.centre
        keys = c.match(*('*' if x is None else x for x in (
            r.network, r.station, r.location, r.channel)))
        box = domain.get_query_parameters()
        near = []
        for k in keys:
            la, lo, _ = c.coord[k[:2]]
            if not (box['minlatitude'] <= la <= box['maxlatitude'] and
                    box['minlongitude'] <= lo <= box['maxlongitude']):
                continue
            near.append(k)
        got = set()
        for start, end in r:
            for k in near:
                try:
                    st = c.get_waveforms(*k, start, end)
                except FDSNNoDataException:
                    continue
                if r.reject_channels_with_gaps and len(st) > 1:
                    continue
                n = sum(tr.stats.npts for tr in st)*c.chan[k]['dt']
                if n < r.minimum_length*(end-start):
                    continue
                f = mseed_storage(*k, start, end)
                if f is True:
                    continue
                os.makedirs(os.path.dirname(f), exist_ok=True)
                st.write(f, format='MSEED')
                a, b = c.index(c.chan[k], start, end)
                self.written[k][a:b] |= c.chan[k]['ok'][a:b]
                got.add(k[:2])
        for n, s in sorted(got):
            c.get_stations(n, s).write(
                os.path.join(stationxml_storage, f'{n}.{s}.xml'),
                format='STATIONXML')


@scenario(quick=120, thorough=2000, timeout=200, weight=3)
def mass(ctx):
    """Downloads of many stations at once, extended and interleaved."""
    from unittest import mock
    from seismic.trace_data import waveform
    rng = ctx.rng
    centre = Centre(rng, int(rng.integers(1, 4)))
    path = ctx.tmp()
    stored = {k: np.zeros(len(c['x']), bool) for k, c in centre.chan.items()}
    Mass.centre, Mass.written = centre, stored
    sc = waveform.Store_Client(centre, path)
    mine = set()    # days for which the file is from a mass download
    ops = []

    def days(a, b):
        d = UTCDateTime(a.date)
        while d < b:
            yield d
            d += DAY

    def exists(k, d):
        return os.path.exists(
            f'{path}/mseed/{d.year}/{k[0]}/{k[1]}/{k[3]}.D/{k[0]}.{k[1]}.'
            f'{k[2]}.{k[3]}.D.{d.year}.{d.julday:03d}')
    for step in range(int(rng.integers(2, 7))):
        k = ctx.pick(list(centre.chan))
        c = centre.chan[k]
        start, end = window(ctx, centre, c)
        op = ctx.pick(['mass', 'mass', 'mass', 'get', 'restart'])
        if not step:
            op = 'mass'
        ops.append(op)
        what = f'step {step} {op} {start} {end}'
        if op == 'restart':
            sc = waveform.Store_Client(centre, path)
            continue
        if op == 'get':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                n = len(centre.calls)
                sc.get_waveforms(*k, start, end)
            if any(x[0] == 'w' for x in centre.calls[n:]):
                a, b = centre.index(c, start, end)
                stored[k][a:b] |= c['ok'][a:b]
            continue
        kw = {}
        box = [-90., 90., -180., 180.]
        for i, (q, name) in enumerate(zip(k, (
                'network', 'station', 'location', 'channel'))):
            if rng.random() < .3:
                kw[name] = q
        if rng.random() < .2:
            la, lo, _ = centre.coord[k[:2]]
            box = [la-1, la+1, lo-1, lo+1]
        want = [q for q in centre.match(*(kw.get(x, '*') for x in (
            'network', 'station', 'location', 'channel')))
            if box[0] <= centre.coord[q[:2]][0] <= box[1]
            and box[2] <= centre.coord[q[:2]][1] <= box[3]]
        old = {(q, d.ns) for q in centre.chan for d in days(start, end)
               if exists(q, d)}
        files = snapshot(path+'/mseed')
        with mock.patch.object(waveform, 'MassDownloader', Mass):
            try:
                sc.download_waveforms_mdl(
                    start, end, clients=['X'], minlat=box[0], maxlat=box[1],
                    minlon=box[2], maxlon=box[3], **kw)
            except Exception:
                # there is no station at all
                if glob.glob(path+'/inventory/*'):
                    raise
        ctx.event('mass_downloads')
        new = snapshot(path+'/mseed')
        ctx.eq({f: h for f, h in new.items() if f in files}, files,
               'overwritten', what)
        for q in want:
            v = centre.chan[q]
            for d in days(start, end):
                if (q, d.ns) in old and (q, d.ns) not in mine:
                    continue
                mine.add((q, d.ns))
                a, b = centre.index(v, max(d, start), min(d+DAY, end))
                m = v['ok'][a:b] & ~stored[q][a:b]
                ctx.expect(not m.any(), 'not_downloaded',
                           f'{what}: {q} {d.date} {m.sum()} samples')
                ctx.event('mass_days')
        for q in set(centre.chan)-set(want):
            ctx.expect(not [f for f in new if f not in files and
                            '/'+'.'.join(q)+'.D.' in f], 'not_requested',
                       f'{what}: {q}')
        inv = sc.inventory
        for q in want:
            if stored[q].any():
                ctx.expect(len(inv.select(*q)), 'no_inventory',
                           f'{what}: {q}')
    # the archive is a regular one
    verify(ctx, centre, path, stored, ' '.join(ops))
    sc = waveform.Store_Client(None, path, read_only=True)
    for q, v in centre.chan.items():
        for _ in range(3):
            start, end = window(ctx, centre, v)
            st = sc._load_local(*q, start, end, False, False)
            got = {}
            check_stream(ctx, centre, st, got, 'archive', start, end)
            a, b = centre.index(v, start, end)
            g = got.get(q, np.zeros(len(stored[q]), int))[a:b]
            ctx.expect(np.array_equal(g, stored[q][a:b]), 'archive',
                       f'{q} {start} {end}: {g.sum()} samples of '
                       f'{stored[q][a:b].sum()}')
    ctx.sig(ops, len(centre.chan))


@scenario(quick=120, thorough=2500, timeout=200, weight=3)
def same_day(ctx):
    """Many overlapping, repeated and unordered downloads of a day or two."""
    from seismic.trace_data.waveform import Store_Client
    rng = ctx.rng
    centre = Centre(rng, 1)
    path = ctx.tmp()
    sc = Store_Client(centre, path)
    k = ctx.pick(list(centre.chan))
    c = centre.chan[k]
    stored = {q: np.zeros(len(v['x']), bool) for q, v in centre.chan.items()}
    spans = []
    t = centre.t0+DAY*int(rng.integers(0, 3))
    for _ in range(int(rng.integers(2, 9))):
        kind = ctx.pick(['new', 'new', 'again', 'inside', 'beside', 'over',
                         'around'])
        if kind == 'new' or not spans:
            a = t+float(rng.uniform(0, 1.2*DAY))
            b = a+float(ctx.pick([c['dt'], 600, 3600, 20000]))
        else:
            s = ctx.pick(spans)
            d = s[1]-s[0]
            a, b = {'again': s, 'inside': (s[0]+d/4, s[1]-d/4),
                    'beside': (s[1], s[1]+d) if rng.random() < .5 else
                    (s[0]-d, s[0]),
                    'around': (s[0]-c['dt']*int(rng.integers(0, 12)),
                               s[1]+c['dt']*int(rng.integers(0, 12))),
                    'over': (s[0]-d/3, s[1]+d/3)}[kind]
        if b <= a:
            continue
        spans.append((a, b))
        n = len(centre.calls)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            st = sc.get_waveforms(*k, a, b, ctx.pick([True, False]))
        got = {}
        check_stream(ctx, centre, st, got, f'{kind} {a} {b}', a, b)
        i, j = centre.index(c, a, b)
        asked = any(x[0] == 'w' for x in centre.calls[n:])
        if asked:
            ctx.expect(not complete(centre, c, stored[k], a, b),
                       'asked_again', f'{kind} {a} {b}')
            stored[k][i:j] |= c['ok'][i:j]
            ctx.event('downloads')
        else:
            ctx.event('served_locally')
            edges(ctx, c, st, a, b, kind)
        want = c['ok'] if asked else stored[k]
        g = got.get(k, np.zeros(len(c['x']), int))
        ctx.expect(np.array_equal(g[i:j], want[i:j].astype(int)), 'samples',
                   f'{kind} {a} {b}: {g[i:j].sum()} of {want[i:j].sum()}')
        ctx.event('requests')
        ctx.event('merged_files')
        if rng.random() < .2:
            sc = Store_Client(centre, path)
            ctx.event('restarts')
    # everything at once, locally
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        st = Store_Client(None, path, True)._load_local(
            *k, centre.t0-60, centre.t0+centre.days*DAY, False, False)
    got = {}
    check_stream(ctx, centre, st, got, 'all')
    g = got.get(k, np.zeros(len(c['x']), int))
    ctx.expect(np.array_equal(g, stored[k].astype(int)), 'all_samples',
               f'{g.sum()} of {stored[k].sum()}')
    verify(ctx, centre, path, stored, 'same day')
    listing(ctx, centre, sc, stored)
    ctx.sig(len(spans), c['dt'], c['off'], str(c['x'].dtype))


@scenario(quick=80, thorough=1500)
def responses(ctx):
    """Responses asked for once are known later, for every channel."""
    from seismic.trace_data.waveform import Store_Client
    rng = ctx.rng
    centre = Centre(rng, int(rng.integers(1, 4)))
    path = ctx.tmp()
    sc = Store_Client(centre, path)
    known = set()
    order = list(centre.chan)*2
    rng.shuffle(order)
    for k in [tuple(k) for k in order]:
        c = centre.chan[k]
        i = np.flatnonzero(c['ok'])
        if not len(i):
            continue
        t = centre.t0+c['off']+int(ctx.pick(list(i[:50])))*c['dt']
        n = len(centre.calls)
        if rng.random() < .3:
            inv = sc.select_inventory_or_load_remote(*k[:2])
            asked = [x for x in centre.calls[n:] if x[0] == 's']
            ctx.expect(not (asked and any(q[:2] == k[:2] for q in known)),
                       'asked_again', f'{k}')
            if asked:
                known |= {q for q in centre.chan if q[:2] == k[:2]}
            q = {(m.code, s.code) for m in inv for s in m}
            ctx.eq(q, {k[:2]}, 'inventory', str(k))
        else:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                st = sc.get_waveforms(*k, t, t+5*c['dt'])
            ctx.expect(len(st) > 0, 'no_data', f'{k}')
            for tr in st:
                r = getattr(tr.stats, 'response', None)
                ctx.expect(r is not None and abs(
                    r.instrument_sensitivity.value/c['gain']-1) < 1e-6,
                    'response', f'{k} {r}')
                ctx.event('responses')
            asked = [x for x in centre.calls[n:] if x[0] == 's']
            ctx.expect(not (asked and k in known), 'asked_again', str(k))
            known.add(k)
        if rng.random() < .5:
            # what is known survives a new session
            sc = Store_Client(centre, path)
            ctx.event('restarts')
            gains = {(m.code, s.code, h.location_code, h.code):
                     h.response.instrument_sensitivity.value
                     for m in sc.inventory for s in m for h in s}
            for q in known:
                ctx.expect(abs(gains.get(q, 0)/centre.chan[q]['gain']-1)
                           < 1e-6, 'inventory_lost', f'{q}: {gains}')
                ctx.event('inventories')
    ctx.sig(len(order), len(known))


@scenario(quick=60, thorough=800)
def foreign(ctx):
    """Other folders in the archive do not disturb; file names for others."""
    from seismic.trace_data.waveform import Store_Client
    rng = ctx.rng
    centre = Centre(rng, 2)
    path = ctx.tmp()
    sc = Store_Client(centre, path)
    stored = {q: np.zeros(len(v['x']), bool) for q, v in centre.chan.items()}
    for k, c in centre.chan.items():
        if rng.random() < .7:
            a = centre.t0+float(rng.uniform(0, 3*DAY))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sc.get_waveforms(*k, a, a+7200)
            i, j = centre.index(c, a, a+7200)
            stored[k][i:j] |= c['ok'][i:j]
    for d in rng.choice(['temp', 'tmp', 'old/XX/YY', '.git', 'logs/a/b'],
                        size=2, replace=False):
        os.makedirs(f'{path}/mseed/{d}', exist_ok=True)
    listing(ctx, centre, sc, stored)
    for k, c in centre.chan.items():
        t = centre.t0+int(rng.integers(0, 4))*DAY+float(
            rng.uniform(0, DAY-1))
        if not hasattr(sc, '_get_mseed_storage'):
            break
        f = sc._get_mseed_storage(*k, t, t+600)
        want = (f'{path}/mseed/{t.year}/{k[0]}/{k[1]}/{k[3]}.D/'
                f'{k[0]}.{k[1]}.{k[2]}.{k[3]}.D.{t.year}.{t.julday:03d}')
        if os.path.isfile(want):
            ctx.expect(f is True, 'download_again', f'{f}')
        else:
            ctx.eq(os.path.realpath(str(f)), os.path.realpath(want),
                   'storage', '')
    ctx.raises(AssertionError, lambda: Store_Client(
        centre, path+'/missing'), 'missing_folder')
    ctx.sig(len(centre.chan))
