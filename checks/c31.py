"""
Spectrograms of streams and of archives are compared with spectra computed
window by window from the generated signals: exactly, where no change of the
sampling rate is involved, and by level, place and frequency of the energy for
whole archives with decimation, instrument response, gaps and different
lengths of the chunks read at a time, by one and by several processes.
"""
import json
import os
import signal
import subprocess
import sys
import warnings

import numpy as np
import scipy.interpolate
import scipy.signal
from obspy import Stream, Trace, UTCDateTime

from vlib import archive, synth
from vlib.core import Inconclusive, ROOT, scenario

ASSUMPTIONS = [
    'the windows of a chunk start at its first sample and include the sample '
    'at their end',
    'windows with missing samples and chunks without data are left out',
    'changing the sampling rate to a fraction that is not an integer '
    'attenuates by up to two thirds of the amplitude below half of the new '
    'Nyquist frequency (spectral window and interpolation of obspy)',
    'processes are started with the installed mpirun on one machine']
REQUIRED = {'columns_recomputed': 500, 'gaps': 100, 'left_out': 100,
            'defective': 60, 'noise_columns': 90, 'sine_columns': 90,
            'decimated': 20, 'with_response': 15, 'increments': 60,
            'uneven_increments': 15, 'multi_process_runs': 3, 'refused': 80,
            'overlapping': 30}


def welch(x, sr):
    """One-sided power spectral density of half-overlapping segments."""
    n = min(256, len(x))
    w = .5-.5*np.cos(2*np.pi*np.arange(n)/n)
    S = []
    for i in range(0, len(x)-n+1, n-n//2):
        y = x[i:i+n]
        S.append(np.abs(np.fft.rfft((y-y.mean())*w))**2)
    S = np.mean(S, 0)/(sr*(w**2).sum())
    if n % 2:
        S[1:] *= 2
    else:
        S[1:-1] *= 2
    return np.arange(len(S))*sr/n, S


def condition(x, sr):
    """Detrend and high pass."""
    x = np.asarray(x, float)
    t = np.arange(len(x))
    if len(x) > 1:
        x = x-np.polyval(np.polyfit(t-t.mean(), x, 1), t-t.mean())
    sos = scipy.signal.butter(4, .01/(.5*sr), 'highpass', output='sos')
    return scipy.signal.sosfilt(sos, x)


def column(x, sr):
    f, S = welch(x, sr)
    f2 = np.logspace(-3, np.log10(f.max()), 512)
    return f2, scipy.interpolate.PchipInterpolator(f, S)(f2)


def make_chunk(ctx, t, n, sr, W, tpl):
    """A stream of contiguous pieces and its samples (nan in gaps)."""
    rng = ctx.rng
    x = rng.normal(size=n)*10**rng.uniform(-12, 8)
    kind = ctx.pick([float, float, np.float32, np.int32])
    if kind != np.float32:
        x += ctx.pick([0, 0, 1e3])+ctx.pick([0, .01])*np.arange(n)
    if kind == np.int32:
        x = np.round(x*ctx.pick([1, 100]))
        x[0] += 10
    x = x.astype(kind)
    cuts = [0, n]
    gaps = np.zeros(n, bool)
    for _ in range(int(rng.choice([0, 0, 1, 2, 3]))):
        a = int(rng.integers(1, n-2))
        b = min(n-1, a+int(rng.choice([1, 2, W//3, W, 2*W+1])))
        gaps[a:b] = True
    e = np.flatnonzero(np.diff(np.concatenate([[True], gaps, [True]]).astype(
        int)))
    cuts = list(zip(e[::2], e[1::2]))
    st = Stream()
    y = np.full(n, np.nan)
    for a, b in cuts:
        tr = Trace(x[a:b].copy())
        tr.stats.update(tpl)
        tr.stats.sampling_rate = sr
        tr.stats.starttime = t+a/sr
        st.append(tr)
        y[a:b] = condition(x[a:b], sr)
    if len(st) > 1:
        rng.shuffle(st.traces)
        if rng.random() < .5:
            st.merge()
    return st, y


@scenario(quick=250, thorough=4000, weight=1)
def exact(ctx):
    """Every column is the spectrum of the samples of its window."""
    from seismic.utils.raw_analysis import spct_series_welch
    rng = ctx.rng
    sr = float(ctx.pick([1, 2, 5, 10, 4, .5]))
    W = int(ctx.pick([20, 100, 255, 256, 300, 512, 700]))
    if rng.random() < .3:
        W = int(rng.integers(20, 900))
        sr = float(ctx.pick([sr, 8, 20, 12.5, 40, .25]))
    win = W/sr
    if win == int(win) and rng.random() < .5:
        win = int(win)
    t0 = synth.rand_time(rng, res=1.)
    tpl = {'network': 'AB', 'station': 'C', 'channel': 'HHZ'}
    want, chunks = [], []
    t = t0
    for _ in range(int(rng.integers(1, 6))):
        kind = ctx.pick(['data']*5+['empty', 'bad'])
        n = int(rng.integers(W//2, 6*W))
        if kind == 'empty':
            chunks.append(Stream())
            ctx.event('defective')
        elif kind == 'bad':
            # too low a sampling rate for the requested frequency
            tr = Trace(rng.normal(size=n))
            tr.stats.update(tpl)
            tr.stats.sampling_rate = sr*.5
            tr.stats.starttime = t
            chunks.append(Stream([tr]))
            ctx.event('defective')
        else:
            st, y = make_chunk(ctx, t, n, sr, W, tpl)
            chunks.append(st)
            if np.isnan(y).any():
                ctx.event('gaps')
            for i in range(0, n-W, W):
                z = y[i:i+W+1]
                if np.isnan(z).any():
                    ctx.event('left_out')
                    continue
                want.append((t+i/sr, z))
        if rng.random() < .12:
            # the next stream has data of the same times, too
            ctx.event('overlapping')
            continue
        t += n/sr+float(ctx.pick([0, 10, 3600]))
    order = np.arange(len(chunks))
    if rng.random() < .3:
        rng.shuffle(order)
    ctx.sig(sr, W, len(chunks), len(want), list(order))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        gen = iter([chunks[i] for i in order])
        if not want:
            ctx.raises(ValueError, lambda: spct_series_welch(
                gen, win, sr/2, False), 'nothing')
            ctx.event('refused')
            return
        # memory with other content than zero
        [np.full(8*W, 1e30*i) for i in range(5)]
        f, t, S = spct_series_welch(gen, win, sr/2, False)
    ctx.eq(len(t), len(want), 'columns', f'{sr} {W}')
    ctx.expect(S.shape == (512, len(t)), 'shape', str(S.shape))
    want.sort(key=lambda w: w[0])
    for i, (u, z) in enumerate(want):
        ctx.expect(abs(t[i]-u) < 1e-3/sr, 'time', f'{t[i]} {u}')
        f2, s = column(z, sr)
        # those of the same time in any order
        for j in range(i+1, len(want)):
            if want[j][0] - u > 1e-3/sr:
                break
            s3 = column(want[j][1], sr)[1]
            if np.abs(S[:, i]-s3).sum() < np.abs(S[:, i]-s).sum():
                want[i], want[j] = want[j], want[i]
                s = s3
        ctx.close(f, f2, 'frequency', f'{sr} {W}', rtol=1e-9)
        ctx.expect(f.max() <= sr/2*(1+1e-12), 'frequency_limit', str(f.max()))
        ctx.close(S[:, i], s, 'spectrum', f'column {i} of {len(want)}',
                  rtol=1e-4, atol=1e-5*np.abs(s).max()+1e-18)
        ctx.event('columns_recomputed')


def station(ctx):
    return {'network': ctx.pick(['AB', 'X9']), 'station': ctx.pick(
        ['S', 'IR1', 'LONGY']), 'channel': ctx.pick(['HHE', 'HHZ', 'BDF']),
        'location': ctx.pick(['', '00'])}


def write(ctx, x, t0, sr, tpl, gaps=()):
    """Archive of the samples without those in gaps, other stations too."""
    path = ctx.tmp()
    trs = []
    keep = np.ones(len(x), bool)
    for a, b in gaps:
        keep[a:b] = False
    e = np.flatnonzero(np.diff(np.concatenate([[0], keep.astype(int), [0]])))
    for a, b in zip(e[::2], e[1::2]):
        tr = Trace(x[a:b].copy())
        tr.stats.update(tpl)
        tr.stats.sampling_rate = sr
        tr.stats.starttime = t0+a/sr
        trs.append(tr)
    for k in ('network', 'station', 'channel'):
        tr = Trace(ctx.rng.normal(size=len(x))*1e9)
        tr.stats.update(tpl)
        tr.stats[k] = 'HHX' if k == 'channel' else 'QQ'
        tr.stats.sampling_rate = sr
        tr.stats.starttime = t0
        trs.append(tr)
    archive.write_sds(path, trs)
    return path


def respond(path, tpl, gain):
    """Inventory of a sensor with flat velocity response."""
    from obspy.core.inventory import (
        Channel, Inventory, Network, Response, Station)
    r = Response.from_paz([], [], gain, input_units='M/S',
                          output_units='COUNTS')
    c = Channel(tpl['channel'], tpl['location'], 10, 20, 0, 0, response=r,
                start_date=UTCDateTime(1990, 1, 1))
    s = Station(tpl['station'], 10, 20, 0, channels=[c],
                start_date=UTCDateTime(1990, 1, 1))
    n = Network(tpl['network'], stations=[s])
    archive.write_inventory(path, Inventory([n], source='check'))


@scenario(quick=120, thorough=1200, timeout=300, weight=5)
def place(ctx):
    """Energy at the right time and frequency and of the right level."""
    rng = ctx.rng
    fmax = float(ctx.pick([1, 2, 2.5, 5]))
    factor = ctx.pick([1, 1, 2, 4, 5, 2.5, int(rng.integers(3, 16))])
    sr = 2*fmax*factor
    W = int(ctx.pick([1000, 1500, 2000]))
    m = int(rng.integers(3, 8))
    win = W/(2*fmax)
    if (win*sr) % 1 or win % 1:
        win = float(np.round(win))
    wn = int(win*sr)
    t0 = UTCDateTime(int(synth.rand_time(rng, res=1.).timestamp))
    if rng.random() < .5:
        # across midnight
        t0 = UTCDateTime(t0.year, t0.month, t0.day)+86400-win*ctx.pick([1, 2])
    n = m*wn+1+int(3*factor)
    kind = ctx.pick(['noise', 'sine'])
    x = np.zeros(n)
    par = []
    tt = np.arange(n)/sr
    for k in range(m):
        a = 10**rng.uniform(0, 1.5)
        f0 = fmax*rng.uniform(.1, .45)
        s = slice(k*wn, (k+1)*wn+1)
        if kind == 'noise':
            x[s] = rng.normal(size=len(x[s]))*a
        else:
            # equally strong to not leak
            a = 10*rng.uniform(1, 1.5)
            x[s] = a*np.sin(2*np.pi*f0*tt[s]+rng.uniform(0, 6))
            x[s] += rng.normal(size=len(x[s]))*.01
        par.append((a, f0))
    lost = set()
    gaps = []
    if rng.random() < .4:
        k = int(rng.integers(1, m))
        a = k*wn+int(rng.integers(5, wn//2))
        gaps = [(a, a+int(rng.integers(1, wn//3)))]
        lost.add(k)
        ctx.event('gaps')
    gain = None
    tpl = station(ctx)
    if rng.random() < .4:
        gain = 10**rng.uniform(-2, 6)
        ctx.event('with_response')
    path = write(ctx, x, t0, sr, tpl, gaps)
    if gain:
        respond(path, tpl, gain)
    sc = archive.client(path, read_only=ctx.pick([True, False]))
    inc = int(ctx.pick([m, m, 1, 2]))*win
    if gaps or gain:
        # one chunk: a gap only affects its own window, tapered once
        inc = m*win
    # the window must be part of the data
    end = t0+m*win
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f, t, S = sc.compute_spectrogram(
            tpl['network'], tpl['station'], tpl['channel'], t0, end, win,
            freq_max=fmax, read_increment=inc,
            remove_response=gain is not None)
    if factor != 1:
        ctx.event('decimated')
    what = f'{kind} fmax {fmax} factor {factor} m {m} inc {inc/win}'
    got = {int(np.round((u-t0)/win)): i for i, u in enumerate(t)}
    for u in t:
        k = np.round((u-t0)/win)
        ctx.expect(abs(u-t0-k*win) <= 1/sr, 'grid', f'{what} {u-t0}')
    ctx.eq(len(got), len(t), 'repeated', what)
    full = [k for k in range(m) if k not in lost]
    # new samples may start later after a gap
    late = [k for k in full if k-1 in lost or k == m-1]
    must = [k for k in full if not (lost and factor != 1 and k in late)]
    ctx.expect(set(must) <= set(got) and set(got) <= set(full), 'columns',
               f'{what}: {sorted(got)} of {full}')
    ctx.expect(abs(f.max()-fmax) < 1e-6*fmax, 'frequency_limit',
               f'{f.max()} {fmax}')
    ctx.sig(what, gain is None, bool(gaps))
    lo, hi = (.6, 1.5) if factor == int(factor) else (.08, 1.5)
    band = (f > .1*fmax) & (f < .45*fmax)
    for k, i in got.items():
        a, f0 = par[k]
        g2 = (gain or 1)**2
        if gain and k in (0, m-1):
            # tapered before removing the response
            continue
        s = S[:, i]*g2
        if kind == 'noise':
            w = np.gradient(f)[band]
            r = np.sum(s[band]*w)/w.sum()/(2*a**2/sr)
            ctx.expect(lo <= r <= hi, 'level', f'{what}: column {k} {r}')
            ctx.event('noise_columns')
        else:
            pk = f[np.argmax(s)]
            ctx.expect(abs(pk-f0) < 2*fmax/256*1.5+.03*f0, 'peak',
                       f'{what}: column {k} {pk} {f0}')
            # hann window, between two frequencies at worst
            r = s.max()/(a**2/2/(1.5*2*fmax/256))
            ctx.expect(.45*lo <= r <= hi, 'level', f'{what}: column {k} {r}')
            far = np.abs(f-f0) > 12*fmax/256
            far &= f > .05*fmax
            ctx.expect(s[far].max() < 1e-2*s.max(), 'elsewhere',
                       f'{what}: column {k} {s[far].max()/s.max()}')
            ctx.event('sine_columns')


@scenario(quick=45, thorough=900, timeout=300, weight=4)
def increments(ctx):
    """The length of the chunks does not matter, nothing after the end."""
    rng = ctx.rng
    fmax = float(ctx.pick([1, 2, 5]))
    factor = int(ctx.pick([1, 1, 2, 4]))
    sr = 2*fmax*factor
    win = int(ctx.pick([300, 600, 500]))
    m = int(rng.integers(4, 12))
    extra = int(ctx.pick([0, 0, win*3]))
    t0 = UTCDateTime(int(synth.rand_time(rng, res=1.).timestamp))
    x = rng.normal(size=int((m*win+extra)*sr)+1+int(5*sr))
    for k in range(m):
        x[int(k*win*sr):int((k+1)*win*sr)] *= 10**rng.uniform(0, 1)
    tpl = station(ctx)
    path = write(ctx, x, t0, sr, tpl)
    sc = archive.client(path, read_only=True)
    end = t0+m*win
    res = []
    for inc in [m*win, int(rng.integers(1, m))*win,
                int(rng.integers(1, m))*win+int(rng.integers(1, win)),
                10*m*win]:
        if inc % win:
            ctx.event('uneven_increments')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res.append((inc,)+sc.compute_spectrogram(
                tpl['network'], tpl['station'], tpl['channel'], t0, end, win,
                freq_max=fmax, read_increment=inc, remove_response=False))
        ctx.event('increments')
    ctx.sig(fmax, factor, win, m, extra, [r[0] for r in res])
    for inc, f, t, S in res:
        what = f'win {win} inc {inc} factor {factor} {m}'
        n = np.round([(u-t0)/win for u in t]).astype(int)
        ctx.eq(list(n), list(range(m)), 'columns', what)
        ctx.expect(all(abs(u-t0-k*win) <= 1/sr for u, k in zip(t, n)),
                   'grid', what)
        ctx.expect(len(set(n)) == len(n), 'repeated', what)
        ctx.expect(n.min() >= 0 and n.max() < m, 'outside',
                   f'{what} {n.min()} {n.max()}')
        ctx.close(f, res[0][1], 'frequency', what)
        b = (f > .1*fmax) & (f < .8*fmax)
        one = {k: res[0][3][b, i].mean() for i, k in enumerate(
            np.round([(u-t0)/win for u in res[0][2]]).astype(int))}
        for i, k in enumerate(n):
            if k in one:
                # filters start anew with every chunk
                r = S[b, i].mean()/one[k]
                ctx.expect(.85 < r < 1.18, 'depends', f'{what} {k} {r}')
    ctx.raises(ValueError, lambda: sc.compute_spectrogram(
        tpl['network'], tpl['station'], tpl['channel'], t0, end, win,
        read_increment=win-1), 'increment_too_short')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.raises(ValueError, lambda: sc.compute_spectrogram(
            tpl['network'], tpl['station'], tpl['channel'], t0+40*86400,
            end+40*86400, win, fmax, remove_response=False), 'no_data')
        ctx.raises(ValueError, lambda: sc.compute_spectrogram(
            tpl['network'], tpl['station'], tpl['channel'], t0,
            end, win, sr, remove_response=False), 'rate_too_low')
    ctx.event('refused', 3)


@scenario(quick=8, thorough=30, timeout=400, weight=20)
def ranks(ctx):
    """Several processes return what one returns."""
    rng = ctx.rng
    fmax, win = 2., 300
    sr = 4.
    m = int(rng.integers(5, 14))
    t0 = UTCDateTime(int(synth.rand_time(rng, res=1.).timestamp))
    x = rng.normal(size=int(m*win*sr)+1)
    a = int(rng.integers(1, len(x)-200))
    tpl = station(ctx)
    inc = int(rng.integers(1, 4))*win
    gaps = [(a, a+100)] if rng.random() < .6 else []
    if rng.random() < .5 and inc < (m-1)*win:
        # nothing at all for the first process
        gaps.append((0, int((inc+5)*sr)))
        ctx.event('late_data')
    path = write(ctx, x, t0, sr, tpl, gaps)
    opt = {'path': path, 'net': tpl['network'], 'sta': tpl['station'],
           'cha': tpl['channel'], 'start': str(t0), 'end': str(t0+m*win),
           'win': win, 'fmax': fmax, 'inc': inc}
    sc = archive.client(path, read_only=True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f, t, S = sc.compute_spectrogram(
            tpl['network'], tpl['station'], tpl['channel'], t0, t0+m*win, win,
            freq_max=fmax, read_increment=inc, remove_response=False)
    optf, out = path+'/opt.json', path+'/out.npz'
    with open(optf, 'w') as fh:
        json.dump(opt, fh)
    src = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')
    n = int(rng.integers(2, 5))
    cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(n),
           sys.executable, os.path.join(ROOT, 'vlib', 'spcdriver.py'), src,
           optf, out]
    env = dict(os.environ, TMPDIR=ctx.tmp(), PYTHONHASHSEED='random',
               OMPI_MCA_btl_base_warn_component_unused='0',
               OMPI_MCA_mpi_yield_when_idle='1',
               OMPI_MCA_rmaps_base_oversubscribe='1')
    q = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, text=True, start_new_session=True, cwd=path)
    try:
        o, err = q.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(q.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, err = q.communicate()
        if 'started' not in o:
            raise Inconclusive('processes did not start: '+err[-300:])
        ctx.fail('deadlock', f'{n} processes did not finish')
        return
    if 'started' not in o and 'Traceback' not in err:
        raise Inconclusive(f'mpirun failed {q.returncode}: {err[-500:]}')
    ctx.expect(q.returncode == 0 and o.count('finished') == n, 'failed',
               f'{n} processes: {q.returncode} {err[-1500:]}')
    ctx.event('multi_process_runs')
    z = np.load(out)
    ctx.eq([str(u) for u in t], list(z['t']), 'ranks', f'{n} times')
    ctx.close(z['f'], f, 'ranks', f'{n} frequencies')
    ctx.close(z['S'], S, 'ranks', f'{n} spectra', rtol=1e-9)
    ctx.sig(n, m, inc)
