"""Projects with a correlation database for the monitoring workflow."""
import copy
import os

import numpy as np

from vlib import synth

CO = dict(subdir='corr', preProcessing=[], subdivision=dict(
    corr_len=3600, corr_inc=3600, recombine_subdivision=False,
    delete_subdivision=False), corr_args=dict(lengthToSave=100.))


class Project:
    """
    Random database: several files, channels, times, gaps, defects.

    combos: {(net, sta, cha): dict(starts, data, stats keywords)}
    """

    def __init__(self, ctx, wave, nfile=None, days=None, defects=True,
                 chans=None, sr=None, save_len=None):
        rng = ctx.rng
        self.ctx = ctx
        self.root = ctx.tmp() + '/proj'
        os.makedirs(self.root + '/corr')
        self.sr = sr or float(rng.choice([4., 5., 10.]))
        self.half = int(rng.choice([100, 130, 160]))
        self.inc = 3600.
        self.days = days or int(rng.integers(1, 4))
        self.t0 = synth.rand_time(rng, res=1.)
        self.t0 -= self.t0.timestamp % 86400
        self.n = int(self.days*86400/self.inc)
        self.step = .003
        self.lag = np.arange(-self.half, self.half+1)/self.sr
        # stretch in steps, the same during each quarter of a day
        self.level = rng.integers(-3, 4, self.days*4)
        self.combos = {}
        stas = synth.stations(rng, 4)
        pairs = [(a, b) for i, a in enumerate(stas) for b in stas[i:]]
        pairs = [pairs[i] for i in rng.permutation(len(pairs))][
            :nfile or int(rng.integers(1, 4))]
        chans = chans or ['HHZ-HHZ', 'HHN-HHZ', 'HHE-HHE']
        for pair in pairs:
            # files and groups hold the codes in alphabetical order
            (n1, s1), (n2, s2) = sorted(pair, key='.'.join)
            kw = dict(net=f'{n1}-{n2}', sta=f'{s1}-{s2}')
            if f'{n1}-{n2}.{s1}-{s2}' in [f'{k[0]}.{k[1]}'
                                          for k in self.combos]:
                continue
            pos = dict(zip(('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel'),
                           synth.coords(rng)+synth.coords(rng)))
            pos.update(dist=float(rng.uniform(0, 6)), az=10., baz=190.)
            if rng.random() < .3:
                # also far below the sea level
                pos.update(stel=float(rng.uniform(-6000, 4000)),
                           evel=float(rng.uniform(-6000, 4000)))
            k = int(rng.integers(1, len(chans)+1))
            for cha in [chans[i] for i in rng.permutation(len(chans))][:k]:
                self.add(wave, kw, cha, pos)
        self.save_len = save_len or self.half/self.sr
        self.written = {}

    def add(self, wave, kw, cha, pos):
        rng = self.ctx.rng
        r = wave(rng, self.sr, self.half/self.sr)
        keep = rng.random(self.n) < rng.choice([.5, .9, 1.])
        # quarters of a day without any data
        for q in range(self.days*4):
            if rng.random() < .15:
                keep[6*q:6*q+6] = False
        if keep.sum() < 4:
            keep[:] = True
        idx = np.where(keep)[0]
        data = np.array([r(self.lag*np.exp(-self.level[i//6]*self.step))
                         for i in idx])
        data += .02*np.std(data)*rng.standard_normal(data.shape)
        data *= 10.**rng.integers(-2, 3, size=(len(idx), 1))
        data = data.astype(np.float32)
        self.combos[(kw['net'], kw['sta'], cha)] = dict(
            idx=idx, data=data, pos=pos, wave=r,
            starts=[self.t0+i*self.inc for i in idx])

    def file(self, net, sta):
        return f'{self.root}/corr/{net}.{sta}.h5'

    def write(self, only=None):
        from seismic.db.corr_hdf5 import CorrelationDataBase
        from seismic.correlate.stream import CorrStream
        co = copy.deepcopy(CO)
        co['corr_args']['lengthToSave'] = self.save_len
        for (net, sta, cha), c in self.combos.items():
            if only is not None and (net, sta, cha) not in only:
                continue
            rng = self.ctx.rng
            trs = []
            for t, d in zip(c['starts'], c['data']):
                trs.append(synth.corr_trace(
                    d, net=net, sta=sta, cha=cha, start=t, length=self.inc,
                    sr=self.sr, start_lag=float(self.lag[0]),
                    extra=c['pos'], loc='-'))
            trs = [trs[i] for i in rng.permutation(len(trs))]
            with CorrelationDataBase(self.file(net, sta), co, 'a') as db:
                db.add_correlation(CorrStream(trs), 'subdivision')

    def options(self, **kw):
        out = dict(
            proj_dir=self.root, log_subdir='log', log_level='ERROR',
            fig_subdir='fig', co=copy.deepcopy(CO),
            net=dict(network='*', station='*'),
            dv=self.dv(), wfc=self.wfc())
        out.update(kw)
        return out

    def span(self):
        return dict(start_date=str(self.t0),
                    end_date=str(self.t0+self.days*86400),
                    date_inc=21600, win_len=21600)

    def dv(self):
        return dict(
            subdir='vel_change', plot_vel_change=False, freq_min=.03*self.sr,
            freq_max=.2*self.sr, tw_start=2., tw_len=10., sides='both',
            compute_tt=False, rayleigh_wave_velocity=1., stretch_range=.06,
            stretch_steps=41, return_sim_mat=True,
            dt_ref=dict(win_inc=0, method='mean', percentile=50),
            preprocessing=[], postprocessing=[]) | self.span()

    def wfc(self):
        return dict(
            subdir='wfc', freq_min=.03*self.sr, freq_max=.2*self.sr,
            tw_start=2., tw_len=8., dt_ref=dict(
                win_inc=0, method='mean', percentile=50),
            preprocessing=[], save_comps=True) | self.span()

    def bulk(self, key, starts, length, select=None):
        """Averages of normalised correlations in windows of length."""
        from seismic.correlate.stream import CorrBulk
        from seismic.correlate.stats import CorrStats
        c = self.combos[key]
        A = np.array(c['data'])
        ok = np.ones(len(A), bool) if select is None else np.array(
            [select(t) for t in c['starts']])
        with np.errstate(all='ignore'):
            A = A/np.max(np.abs(A), axis=1, keepdims=True)
        out = np.full((len(starts), A.shape[1]), np.nan)
        t = np.array([s.timestamp for s in c['starts']])
        for i, s in enumerate(starts):
            use = ok & (t >= s) & (t < s+length)
            if use.any():
                out[i] = np.mean(A[use].astype(float), axis=0)
        from obspy import UTCDateTime
        h = synth.corr_header(
            net=key[0], sta=key[1], cha=key[2], length=length,
            npts=A.shape[1], sr=self.sr, start_lag=float(self.lag[0]))
        h.update(c['pos'])
        st = CorrStats(h)
        st['corr_start'] = [UTCDateTime(s) for s in starts]
        st['corr_end'] = [UTCDateTime(s+length) for s in starts]
        st['location'] = ['-']*len(starts)
        st['ntrcs'] = len(starts)
        return CorrBulk(out, stats=st)
