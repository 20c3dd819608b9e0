"""
The whole workflow on simulated records: noise sources around the stations and
a medium whose multiply scattered arrivals come earlier or later after changes
of velocity at known times. The records are written as miniSEED with station
responses, a YAML file holds all parameters, and correlator and monitor run as
a user runs them; a monitor compares the files of results with the imposed
changes: sign, size and time, for every combination, side and choice of
conditioning. Clock errors of one station have to appear with their sign in
every combination with that station and nowhere else. The parameter files that come
with the package are used in the same way, with directory, codes and dates
changed.
"""
import glob
import os
import warnings

import numpy as np
import yaml
from obspy import UTCDateTime

from vlib import archive, refcorr, synth
from vlib.core import scenario

ASSUMPTIONS = [
    'the wave field is diffuse: every source is heard by both receivers of '
    'one combination, directly at one and through the medium at the other',
    'changes are recovered to 0.9 per cent, clock errors to 0.3 samples: '
    'twice what the length of the simulated noise leads to',
    'values are relative to the mean of all times, which is the reference']
REQUIRED = {'changes_recovered': 350, 'combinations': 50, 'undefined': 8,
            'yaml_projects': 18, 'same_station': 12, 'clock_errors': 30,
            'right_clocks': 10, 'several_components': 3, 'coherences': 50,
            'coherence_falls': 20, 'one_side': 8, 'example_files': 2}
REPO = os.environ.get('VERIF_REPO', '/repo')
PP = 'seismic.correlate.preprocessing_'
SLOT = 1800


def arrivals(rng):
    t = rng.uniform(1.5, 24, 90)
    a = rng.standard_normal(90)*np.exp(-t/15)
    return t, a/np.sqrt(np.sum(a**2))


def convolve(x, g, sr, change):
    """Arrivals of g after a relative change of the velocity."""
    n = len(x)+int(40*sr)
    f = np.fft.rfftfreq(n, 1/sr)
    t, a = g
    G = np.zeros(len(f), complex)
    for u, v in zip(t*np.exp(-change), a):
        G += v*np.exp(-2j*np.pi*f*u)
    # nothing close to the Nyquist frequency
    G[f > .45*sr] = 0
    return np.fft.irfft(np.fft.rfft(x, n)*G, n)[:len(x)]


class World:
    def __init__(self, ctx, nsta, chans, method, sides='both',
                 changing=True):
        rng = self.rng = ctx.rng
        self.sr = float(ctx.pick([8., 10.]))
        self.slots = int(rng.integers(7, 10))
        self.t0 = synth.rand_time(rng, res=1.)
        self.n = int(self.slots*SLOT*self.sr)
        self.m = int(SLOT*self.sr)
        stas = sorted(synth.stations(rng, nsta), key='.'.join)
        self.coord = {s: synth.coords(rng) for s in stas}
        self.ids = sorted((n, s, c) for n, s in stas for c in chans)
        # most of the time nothing changes
        self.late = self.slots-int(rng.integers(2, 4))
        # autocorrelations contain the arrivals from every other station
        self.common = method == 'allSimpleCombinations'
        self.change, self.back = {}, {}
        self.rec = {i: np.zeros(self.n) for i in self.ids}
        self.lost = {}
        for i, j in refcorr.pairs(self.ids, method):
            a, b = self.ids[i], self.ids[j]
            key = self.medium(a, b)
            if key not in self.change:
                c = np.zeros(self.slots)
                if changing:
                    for k in range(self.late, self.slots):
                        c[k] = float(rng.choice([-1, 1])*rng.uniform(
                            .008, .03))
                self.change[key] = c
                # waves in the other direction, on the other side
                self.back[key] = c if sides == 'both' or self.common \
                    else c*rng.uniform(-1, .3)
            g = arrivals(rng)
            x, y = rng.standard_normal((2, self.n))
            self.rec[a] += x
            if i == j:
                self.rec[a] += self.through(x, g, self.change[key])
            else:
                self.rec[b] += y
                # waves that arrive later at the second one: right side
                there, back = self.change[key], self.back[key]
                if sides == 'left':
                    there, back = back, there
                self.rec[b] += self.through(x, g, there)
                self.rec[a] += self.through(y, g, back)
        self.amp = {i: 10.**rng.uniform(-9, 3) for i in self.ids}

    def medium(self, a, b):
        return () if self.common else tuple(sorted({a[:2], b[:2]}))

    def through(self, x, g, change):
        out = np.zeros(self.n)
        for c in set(change):
            y = convolve(x, g, self.sr, c)
            for k in np.flatnonzero(change == c):
                s = slice(k*self.m, (k+1)*self.m)
                out[s] = y[s]
        return out

    def delay(self, sta, seconds, first):
        """The clock of a station is late from a time slot on."""
        k = first*self.m
        for i in self.ids:
            if i[:2] == sta:
                x = self.rec[i]
                n = len(x)+1000
                f = np.fft.rfftfreq(n, 1/self.sr)
                y = np.fft.irfft(np.fft.rfft(x, n)*np.exp(
                    -2j*np.pi*f*seconds), n)[:len(x)]
                x[k:] = y[k:]

    def lose(self, sta, slot):
        self.lost.setdefault(sta, set()).add(slot)

    def write(self, path):
        from obspy import Trace
        out = []
        for i in self.ids:
            keep = np.ones(self.slots, bool)
            for k in self.lost.get(i[:2], ()):
                keep[k] = False
            e = np.flatnonzero(np.diff(np.r_[0, keep.astype(int), 0]))
            for a, b in zip(e[::2], e[1::2]):
                tr = Trace((self.rec[i][a*self.m:b*self.m]*self.amp[i]
                            ).astype(np.float32))
                tr.stats.update(synth.stats(
                    *i, self.t0+a*SLOT, tr.stats.npts, self.sr, coord=None))
                tr.stats.npts = len(tr.data)
                out.append(tr)
                archive.write_sds(path, out)
        archive.write_inventory(path, synth.inventory(
            sorted(self.coord), self.coord,
            sorted({i[2] for i in self.ids})))


def conditioning(ctx, sr, same):
    """Steps that keep the phases."""
    rng = ctx.rng
    pre, td, fd = [], [], []
    if rng.random() < .4:
        pre.append(dict(function=PP+'stream.stream_filter', args=dict(
            ftype='bandpass', filter_option=dict(freqmin=.1, freqmax=.4*sr))))
    if rng.random() < .5:
        td.append(dict(function=PP+'td.taper', args=dict(
            type='cosine_taper', p=.02)))
    if rng.random() < .5:
        td.append(dict(function=PP+'td.detrend', args=dict(type='linear')))
    if rng.random() < .4:
        td.append(dict(function=PP+'td.TDfilter', args=dict(
            type='bandpass', freqmin=.2, freqmax=.35*sr)))
    q = rng.random()
    if q < .25:
        td.append(dict(function=PP+'td.clip', args=dict(std_factor=2.5)))
    elif q < .45:
        td.append(dict(function=PP+'td.signBitNormalization', args={}))
    elif q < .6:
        td.append(dict(function=PP+'td.zeroPadding', args=dict(
            type='nextFastLen')))
    # the spectrum is all there is in an autocorrelation
    if rng.random() < .4 and not same:
        fd.append(dict(function=PP+'fd.spectralWhitening', args=dict(
            joint_norm=False)))
    if rng.random() < .3:
        fd.append(dict(function=PP+'fd.FDfilter', args=dict(
            flimit=[.1, .2, .38*sr, .42*sr])))
    return pre, td, fd


def project(ctx, w, path, method, sides):
    """Parameters as they are written to a file."""
    rng = ctx.rng
    pre, td, fd = conditioning(ctx, w.sr, any(
        a == b for a, b in expected(w, method).values()))
    n = int(ctx.pick([1, 1, 2]))
    o = archive.options(
        path, w.t0, w.t0+w.slots*SLOT, sr=w.sr, read_len=n*SLOT,
        read_inc=n*SLOT, corr_len=int(ctx.pick([600, 900, 300])),
        corr_inc=int(ctx.pick([600, 900, 300])), method=method, length=30,
        pre=pre, td=td, fd=fd, separate=bool(rng.random() < .5),
        subdiv=bool(rng.random() < .3), normalize=bool(rng.random() < .7))
    o['co']['subdivision']['corr_inc'] = o['co']['subdivision']['corr_len']
    lo = .25
    span = dict(start_date=str(w.t0), end_date=str(w.t0+w.slots*SLOT),
                win_len=SLOT, date_inc=SLOT)
    ref = dict(win_inc=0, method='mean', percentile=50)
    o['dv'] = dict(
        span, subdir='vel_change', plot_vel_change=False, freq_min=lo,
        freq_max=.32*w.sr, tw_start=float(ctx.pick([3., 4.])),
        tw_len=float(ctx.pick([16., 18.])), sides=sides, compute_tt=False,
        rayleigh_wave_velocity=1., stretch_range=.06, stretch_steps=61,
        return_sim_mat=True, dt_ref=dict(ref), preprocessing=[],
        postprocessing=[])
    o['wfc'] = dict(
        span, subdir='wfc', freq_min=lo, freq_max=.32*w.sr, tw_start=4.,
        tw_len=15., dt_ref=dict(ref), preprocessing=[], save_comps=True)
    return o


def simulate(ctx, w, path, method, sides='both'):
    """From records to correlations."""
    w.write(path)
    o = project(ctx, w, path, method, sides)
    if ctx.rng.random() < .6:
        par = os.path.join(path, 'params.yaml')
        with open(par, 'w') as fh:
            yaml.safe_dump(o, fh)
        ctx.event('yaml_projects')
    else:
        par = o
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        archive.correlator(path, par).pxcorr()
    archive.close_logs()
    return o, par


def expected(w, method):
    """{(networks, stations, channels): the nodes}"""
    return {tuple('-'.join(x) for x in zip(w.ids[i], w.ids[j])):
            (w.ids[i], w.ids[j]) for i, j in refcorr.pairs(w.ids, method)}


@scenario(quick=40, thorough=600, timeout=300, weight=10)
def velocity(ctx):
    """Changes of velocity come out as they were put in."""
    from seismic.monitor.monitor import Monitor
    from seismic.monitor.dv import read_dv
    from seismic.monitor.wfc import read_wfc
    rng = ctx.rng
    method = ctx.pick(['betweenStations', 'betweenStations',
                       'autoComponents', 'betweenComponents',
                       'allSimpleCombinations'])
    nsta, chans = {
        'betweenStations': ctx.pick([(2, ['HHZ']), (3, ['HHZ']),
                                     (2, ['HHN', 'HHZ'])]),
        'autoComponents': ctx.pick([(1, ['HHZ']), (2, ['HHZ'])]),
        'betweenComponents': (1, ['HHE', 'HHZ']),
        'allSimpleCombinations': (2, ['HHZ'])}[method]
    sides = ctx.pick(['both', 'both', 'left', 'right'])
    w = World(ctx, nsta, chans, method, sides)
    if rng.random() < .5:
        w.lose(ctx.pick(sorted(w.coord)), int(rng.integers(w.slots)))
    path = ctx.tmp()
    o, par = simulate(ctx, w, path, method, sides)
    if sides != 'both':
        ctx.event('one_side')
    ctx.note(method=method, ids=w.ids, sr=w.sr, slots=w.slots, lost=str(
        w.lost), dv=o['dv'], co=o['co'])
    ctx.sig(method, nsta, len(chans), w.sr, o['dv']['sides'], w.slots)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        m = Monitor(par)
        m.compute_velocity_change_bulk()
        m.compute_waveform_coherence_bulk()
    archive.close_logs()
    want = expected(w, method)
    states = {}
    got = {os.path.basename(f)[3:-4]: f for f in glob.glob(
        f'{path}/vel_change/DV-*.npz')}
    ctx.eq(sorted(got), sorted('.'.join(k) for k in want), 'files', method)
    if len(chans) > 1:
        ctx.event('several_components')
    coh = {os.path.basename(f)[4:].split('.f0')[0]: f for f in glob.glob(
        f'{path}/wfc/WFC-*.npz')}
    for key, (a, b) in want.items():
        dv = read_dv(got['.'.join(key)])
        ctx.event('combinations')
        if a[:2] == b[:2]:
            ctx.event('same_station')
        true = w.change[w.medium(a, b)]
        gone = np.zeros(w.slots, bool)
        for s in (a, b):
            for k in w.lost.get(s[:2], ()):
                gone[k] = True
        ctx.eq([t.timestamp for t in dv.stats.corr_start],
               [w.t0.timestamp+k*SLOT for k in range(w.slots)], 'times',
               str(key))
        ctx.eq(np.isnan(dv.value).tolist(), gone.tolist(), 'undefined',
               str(key))
        ctx.event('undefined', int(gone.sum()))
        states['.'.join(key)] = true, gone
        early = ~gone & (true == 0)
        zero = np.median(dv.value[early])
        ctx.note(value=dv.value, corr=dv.corr, true=true, key=key)
        ctx.expect(abs(zero) <= .035, 'reference', f'{zero}')
        err = []
        for k in np.flatnonzero(~gone):
            ctx.event('changes_recovered')
            # the value is the negative change of the velocity
            err.append(abs(dv.value[k]-zero+true[k]))
            ctx.expect(err[-1] <= .009, 'value',
                       f'{key} slot {k}: {zero-dv.value[k]} imposed {true[k]}'
                       f' similarity {dv.corr[k]}')
        geo = dv.stats
        ctx.close([geo.stla, geo.stlo, geo.stel], w.coord[a[:2]],
                  'coordinates', 'first station', rtol=1e-6)
        ctx.close([geo.evla, geo.evlo, geo.evel], w.coord[b[:2]],
                  'coordinates', 'second station', rtol=1e-6)
    ctx.expect(len(coh) >= 1, 'coherence_files', str(sorted(coh)))
    for name, f in coh.items():
        if '.av' in name:
            continue
        ctx.expect(name in got, 'coherence_files', name)
        c = np.asarray(read_wfc(f)['reftr_0'])[0]
        true, gone = states[name]
        ctx.event('coherences')
        ctx.eq(np.isnan(c).tolist(), gone.tolist(), 'coherence',
               f'{name} undefined')
        early = ~gone & (true == 0)
        for k in np.flatnonzero(~gone & (np.abs(true) > .015)):
            if early.sum() > 2*(~gone & ~early).sum():
                ctx.event('coherence_falls')
                ctx.expect(c[k] < c[early].min(), 'coherence',
                           f'{name} slot {k} of {true}: {c}')


@scenario(quick=16, thorough=300, timeout=300, weight=10)
def clocks(ctx):
    """Errors of one clock appear in the combinations of that station."""
    from seismic.db.corr_hdf5 import CorrelationDataBase
    rng = ctx.rng
    method = 'betweenStations'
    w = World(ctx, int(ctx.pick([2, 3])), ['HHZ'], method, changing=False)
    bad = ctx.pick(sorted(w.coord))
    late = float(rng.choice([-1, 1])*rng.uniform(.5, 6))/w.sr
    w.delay(bad, late, w.late)
    path = ctx.tmp()
    o, par = simulate(ctx, w, path, method)
    want = expected(w, method)
    ctx.note(ids=w.ids, late=late, bad=bad, co=o['co'], slots=w.slots,
             first=w.late)
    ctx.sig(len(w.ids), w.sr, w.slots, bad == min(w.coord))
    files = {os.path.basename(f): f for f in glob.glob(f'{path}/corr/*.h5')}
    for (net, sta, cha), (a, b) in want.items():
        f = f'{net}.{sta}.h5'
        if f not in files:
            f = f'{net}.{sta}.{cha}.h5'
        with CorrelationDataBase(files[f], None, 'r') as db:
            st = db.get_data(net, sta, cha, 'subdivision')
        cb = st.create_corr_bulk(inplace=False)
        starts = [w.t0+k*SLOT for k in range(w.slots)]
        cb.normalize(normtype='absmax')
        cb.resample(starts, [t+SLOT for t in starts])
        cb.filter((.25, .32*w.sr))
        ref = cb.data[:w.late].mean(axis=0)
        q = 1/(10*w.sr)
        dt = cb.copy().measure_shift(
            ref_trc=ref, shift_range=100*q, shift_steps=201,
            tw=[[1., 15.]], sides='both', return_sim_mat=True)
        true = np.zeros(w.slots)
        if bad in (a[:2], b[:2]):
            # positive values: features of the data come earlier
            true[w.late:] = late if bad == a[:2] else -late
            ctx.event('clock_errors', w.slots-w.late)
        else:
            ctx.event('right_clocks', w.slots)
        for k in range(w.slots):
            ctx.expect(abs(dt.value[k]-true[k]) <= .3/w.sr, 'clock',
                       f'{sta} slot {k}: {dt.value[k]} imposed {true[k]} '
                       f'similarity {dt.corr[k]}')
        # correcting brings the data back
        c = cb.copy().correct_shift(dt)
        ctx.expect(len(c.data) == w.slots, 'rows', 'corrected')
        t = np.abs(np.linspace(
            c.stats.start_lag, c.stats.end_lag, c.stats.npts))
        sel = (t > 1) & (t < 15)
        good = [np.corrcoef(x[sel], ref[sel])[0, 1] for x in c.data]
        ctx.expect(min(good) > .6, 'corrected', f'{sta}: {good}')


@scenario(quick=2, thorough=16, timeout=600, weight=60)
def examples(ctx):
    """The parameter files that come with the package can be used."""
    from seismic.monitor.monitor import Monitor
    from seismic.monitor.dv import read_dv
    from seismic.monitor.wfc import read_wfc
    from obspy import Trace
    rng = ctx.rng
    name = ('examples/params.yaml', 'params_example.yaml')[ctx.idx % 2]
    with open(os.path.join(REPO, name)) as fh:
        o = yaml.safe_load(fh)
    net, sta = o['net']['network'], o['net']['station']
    sta = [sta] if isinstance(sta, str) else sta[:2]
    cha = 'HH' + (o['net']['component'] or 'Z')
    # 50 hours of data
    sr = float(o['co']['sampling_rate'])
    hours = 50
    t0 = UTCDateTime(o['co']['read_start'])
    t0 -= t0.timestamp % 86400
    n = int(3600*hours*sr)
    common = rng.standard_normal(n)
    trs = []
    for s in sta:
        tr = Trace((common+rng.standard_normal(n)).astype(np.float32))
        tr.stats.update(synth.stats(net, s, cha, t0, n, sr))
        tr.stats.npts = n
        trs.append(tr)
    path = ctx.tmp()
    archive.write_sds(path, trs)
    # stations close to each other
    coord = {(net, s): (50+.01*i, 10+.01*i, 90.) for i, s in enumerate(sta)}
    archive.write_inventory(path, synth.inventory(
        sorted(coord), coord, [cha]))
    o['proj_dir'] = path
    o['co']['read_end'] = str(t0+hours*3600)
    for k in ('dv', 'wfc'):
        o[k].update(start_date=str(t0), end_date=str(t0+hours*3600),
                    date_inc=3600, win_len=3600)
    o['wfc']['tw_start'] = o['wfc']['tw_start'][::6]
    o['dv']['stretch_steps'] = 101
    par = os.path.join(path, 'params.yaml')
    with open(par, 'w') as fh:
        yaml.safe_dump(o, fh)
    ctx.note(name=name)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        archive.correlator(path, par).pxcorr()
        m = Monitor(par)
        m.compute_velocity_change_bulk()
        m.compute_waveform_coherence_bulk()
    archive.close_logs()
    a, b = sorted(sta)[0], sorted(sta)[-1]
    code = f'{net}-{net}.{a}-{b}.{cha}-{cha}'
    dv = read_dv(f'{path}/{o["dv"]["subdir"]}/DV-{code}.npz')
    ctx.eq([t.timestamp for t in dv.stats.corr_start],
           [t0.timestamp+3600*k for k in range(hours)], 'times', name)
    ctx.expect(np.isfinite(dv.value[2:46]).all(), 'example', str(dv.value))
    ctx.expect(np.shape(dv.sim_mat) == (hours, 101), 'example', 'matrix')
    pics = os.listdir(f'{path}/{o["fig_subdir"]}')
    ctx.eq(len(pics), int(bool(o['dv']['plot_vel_change'])), 'example',
           'figures')
    files = glob.glob(f'{path}/{o["wfc"]["subdir"]}/WFC-*.npz')
    ctx.eq(len(files), len(o['wfc']['freq_min'])*len(o['wfc']['tw_start'])
           * (1+bool(o['wfc']['save_comps'])), 'example', 'coherence files')
    for f in files[:5]:
        ctx.eq(np.shape(read_wfc(f)['reftr_0']), (1, hours), 'example',
               'coherence')
    ctx.event('example_files')
    ctx.sig(name)
