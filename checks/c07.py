"""
Random records (different lengths, starts on and between samples, constant,
spiky and long ones) are correlated by the real Correlator and compared at
every lag with a double-precision time-domain sum over the defined lags;
wavelets with known arrival times give the physical lag independent of the
sampling offset; metamorphic runs swap, scale and add records.
"""
import os

import numpy as np
from obspy import Stream, Trace, UTCDateTime
from scipy import fftpack
from scipy.fft import next_fast_len

from vlib.core import scenario
from vlib import synth, archive

ASSUMPTIONS = ['single precision: 2e-5 of the maximum is accepted']
REQUIRED = {'lags_compared': 10000, 'autocorrelations': 20,
            'subsample_pairs': 20, 'odd_padding': 5, 'unequal_lengths': 10,
            'offset_pairs': 20}
TD = 'seismic.correlate.preprocessing_td.'
FD = 'seismic.correlate.preprocessing_fd.'


def engine(ctx, sr, length, td=(), fd=(), center=False, normalize=True):
    root = ctx.tmp()
    d = os.path.join(root, 'mseed', '2015', 'XX', 'A', 'HHZ.D')
    if not os.path.isdir(d):
        os.makedirs(d)
        open(os.path.join(d, 'XX.A..HHZ.D.2015.001'), 'w').close()
    o = archive.options(root, '2015-01-01', '2015-01-02', sr=sr,
                        length=length, td=td, fd=fd, center=center,
                        normalize=normalize, method='allCombinations')
    return archive.correlator(root, o)


def make_stream(datas, starts, sr):
    st = Stream()
    for i, (d, t) in enumerate(zip(datas, starts)):
        st.append(Trace(np.array(d, dtype=np.float32), header=dict(
            network='XX', station=f'S{i:02d}', channel='HHZ',
            starttime=t, sampling_rate=sr)))
    return st


def run(c, datas, starts, sr, combis):
    c.options['combinations'] = list(combis)
    cst = c._pxcorr_inner(make_stream(datas, starts, sr), None)
    return cst


def values(ctx, cst, combis):
    """(data, first lag) in computation order i -> j."""
    out = []
    ctx.eq(len(cst), len(combis), 'number', 'correlations returned')
    for tr, (i, j) in zip(cst, combis):
        d, sl = np.array(tr.data, dtype=float), tr.stats.start_lag
        want = f'S{min(i, j):02d}-S{max(i, j):02d}'
        ctx.eq(tr.stats.station, want, 'codes')
        if i > j:
            d = d[::-1]
            sl = -tr.stats.end_lag
        out.append((d, sl))
    return out


def xcorr(a, b, lo, hi):
    """sum_n a[n] b[n+k] for k = lo..hi."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    full = np.convolve(a[::-1], b)       # index k + len(a) - 1
    out = np.zeros(hi-lo+1)
    for m, k in enumerate(range(lo, hi+1)):
        q = k + len(a) - 1
        if 0 <= q < len(full):
            out[m] = full[q]
    return out


def records(ctx, n, lmin, lmax, sr):
    out = []
    for _ in range(n):
        k = int(ctx.rng.integers(lmin, lmax+1))
        r = ctx.rng.random()
        if r < .5:
            d = ctx.rng.standard_normal(k)
        elif r < .65:
            d = synth.coda(ctx.rng, k, sr, (sr/20, sr/5))
        elif r < .75:
            d = np.zeros(k)
            d[int(ctx.rng.integers(k))] = 1.
        elif r < .85:
            # energy at the Nyquist frequency and offset
            d = (-1.)**np.arange(k)*ctx.rng.normal() + ctx.rng.normal()
            d += .1*ctx.rng.standard_normal(k)
        else:
            d = np.cumsum(ctx.rng.standard_normal(k))
        d = d*10**ctx.rng.uniform(-12, 8)
        out.append(d.astype(np.float32))
    if len(out[-1]) and ctx.chance(.5):
        out[-1] = np.resize(out[-1], max(len(o) for o in out))
    return out


def rand_combis(ctx, n, m):
    al = [(i, j) for i in range(n) for j in range(n)]
    o = ctx.rng.permutation(len(al))[:m]
    return [al[int(i)] for i in o]


@scenario(quick=350, thorough=4000)
def direct(ctx):
    """Integer-sample starts: equal to the time-domain sum."""
    sr = ctx.pick([1., 2., 5., 10., 10., 25., 20., 2.5, .4, 12.5, 100.])
    n = int(ctx.rng.integers(1, 7))
    big = ctx.chance(.1)
    D = records(ctx, n, 2, 3000 if big else 150, sr)
    length = ctx.pick([1, 2., 3.7, 5, 10, .9, 4.04, 12.25, 1.1, 2.2, .55])
    if ctx.chance(.25):
        sr = float(np.round(ctx.rng.uniform(.5, 60), 1))
    if ctx.chance(.3):
        length = float(np.round(ctx.rng.uniform(1/sr, 12), 2))
    center = ctx.chance(.25)
    norm = ctx.chance(.6)
    t0 = synth.rand_time(ctx.rng)
    off = [int(o) for o in (
        ctx.rng.integers(-3, 4, n) if ctx.chance(.6) else
        ctx.rng.integers(0, 400, n))]
    if center or ctx.chance(.3):
        off = [0]*n
    td = ctx.chance(.3)
    steps = [{'function': TD+'detrend', 'args': {'type': 'constant'}}] if td else []
    combis = rand_combis(ctx, n, int(ctx.rng.integers(1, 12)))
    c = engine(ctx, sr, length, steps, center=center, normalize=norm)
    ctx.note(sr=sr, lengths=[len(d) for d in D], lengthToSave=length,
             offsets=off, combis=combis, center=center, normalize=norm)
    ctx.sig(sr, tuple(map(len, D)), length, tuple(off), center, norm, td)
    starts = [t0 + o/sr for o in off]
    cst = run(c, D, starts, sr, combis)
    S = int(np.ceil(round(length*sr, 9)))
    npts = max(len(d) for d in D)
    if next_fast_len(npts + S) % 2:
        ctx.event('odd_padding')
    if len({len(d) for d in D}) > 1:
        ctx.event('unequal_lengths')
    X = []
    for d in D:
        x = np.zeros(npts)
        x[:len(d)] = d
        X.append(x-x.mean() if td else x)
    for (d, sl), (i, j) in zip(values(ctx, cst, combis), combis):
        r = off[i]-off[j]
        ctx.event('offset_pairs', r != 0)
        # the axis takes up whole samples of the offset, up to rounding
        q = int(round((sl + (S + r)/sr)*sr))
        ctx.close(sl, (q-S-r)/sr, 'first_lag', f'offset {r}', rtol=1e-5,
                  atol=1e-5)
        ctx.expect(abs(q) <= (r != 0), 'first_lag', f'{sl} for offset {r}')
        want = xcorr(X[i], X[j], q-S, q+S)
        if q:
            # may be affected by wrap around
            want[[0, -1]] = d[[0, -1]]*(
                np.sqrt(np.sum(X[i]**2)*np.sum(X[j]**2)) if norm else 1.)
        E = np.sqrt(np.sum(X[i]**2)*np.sum(X[j]**2))
        if E == 0 or not np.isfinite(E):
            continue
        if norm:
            want = want/E
            ctx.expect(np.max(np.abs(d)) <= 1+2e-5, 'bounded',
                       f'normalised correlation of {np.max(np.abs(d))}')
            if i == j:
                ctx.event('autocorrelations')
                ctx.close(d[S], 1., 'auto', 'autocorrelation at zero lag',
                          rtol=2e-5)
        tol = 2e-5*(1. if norm else E)
        # demean leaves rounding noise of the removed offset
        if td:
            s = (np.abs(np.sum(D[i])/npts)*np.sqrt(npts)
                 / (np.sqrt(np.sum(X[i]**2))+1e-30)
                 + np.abs(np.sum(D[j])/npts)*np.sqrt(npts)
                 / (np.sqrt(np.sum(X[j]**2))+1e-30))
            if s > 100:
                continue
            tol *= 1+s
        ctx.close(d, want, 'values', f'pair {i},{j}', rtol=0, atol=tol)
        ctx.event('lags_compared', len(d))
    for tr in cst:
        ctx.eq(tr.stats.npts, 2*S+1, 'length')
        ctx.close(tr.stats.sampling_rate, sr, 'sampling_rate')
        ctx.close(tr.stats.end_lag, tr.stats.start_lag + 2*S/sr, 'end_lag',
                  atol=1e-5)


def wavelet(t, s, f):
    return np.exp(-.5*(t/s)**2)*np.cos(2*np.pi*f*t)


@scenario(quick=250, thorough=2500)
def physical(ctx):
    """Wavelets at known times: lag axis for starts between samples."""
    sr = ctx.pick([5., 10., 20., 25.])
    dt = 1/sr
    n = int(ctx.rng.integers(300, 500))
    s = ctx.rng.uniform(3.5, 6)*dt
    f = ctx.rng.uniform(0, .12)*sr
    center = ctx.chance(.4)
    length = ctx.pick([4, 5.3, 6, 8])
    k = int(ctx.rng.integers(2, 5))
    t0 = synth.rand_time(ctx.rng)
    # sample times on a grid of 1/64 of a sample, absolute arrival times
    frac = [float(x)/64*dt for x in ctx.rng.integers(0, 64, k)]
    extra = [float(x)*dt for x in ctx.rng.integers(-4, 5, k)]
    o = [a+b for a, b in zip(frac, extra)]
    arr = [n/2*dt + float(ctx.rng.uniform(-1, 1)) for _ in range(k)]
    D = [wavelet(oo + np.arange(n)*dt - a, s, f) for oo, a in zip(o, arr)]
    combis = rand_combis(ctx, k, 6)
    c = engine(ctx, sr, length, center=center)
    starts = [t0+oo for oo in o]
    # what the file format can hold
    o = [float(t-t0) for t in starts]
    ctx.note(sr=sr, offsets=o, arrivals=arr, center=center)
    ctx.sig(sr, tuple(o), center, f, s)
    cst = run(c, D, starts, sr, combis)
    tt = (np.arange(4001)-2000)*dt/8
    S = int(np.ceil(round(length*sr, 9)))
    for (d, sl), (i, j) in zip(values(ctx, cst, combis), combis):
        lag = sl + np.arange(len(d))*dt
        # theoretical autocorrelation of the wavelet at lag - true delay
        w = wavelet(tt, s, f)
        G = np.array([np.sum(w*wavelet(tt+x, s, f))
                      for x in lag-(arr[j]-arr[i])])/np.sum(w*w)
        ctx.close(d, G, 'physical_lag',
                  f'pair {i},{j} offset {o[i]-o[j]:.4f} s', rtol=0,
                  atol=2e-4)
        if center:
            ctx.close(sl, -S/sr, 'first_lag', 'centred', atol=1e-6)
        else:
            # the axis absorbs whole samples only
            ctx.expect(abs(sl + S/sr + (o[i]-o[j])) < dt+1e-5,
                       'first_lag', f'{sl} for offset {o[i]-o[j]}')
        ctx.event('subsample_pairs', abs((o[i]-o[j])/dt % 1) > 1e-6)
        ctx.event('lags_compared', len(d))


@scenario(quick=200, thorough=2000)
def metamorphic(ctx):
    """Swapping, scaling, adding records; missing samples count as zero."""
    sr = ctx.pick([5., 10., 25., 2.5])
    n = int(ctx.rng.integers(2, 6))
    D = records(ctx, n, 40, 200, sr)
    D = [d+(np.float32(1e-3)*np.max(np.abs(d))
            * ctx.rng.standard_normal(len(d))).astype(np.float32)
         for d in D]
    length = ctx.pick([1, 2.5, 4])
    norm = ctx.chance(.7)
    dt = 1/sr
    off = [float(x)/16*dt for x in ctx.rng.integers(-40, 40, n)]
    t0 = synth.rand_time(ctx.rng)
    starts = [t0+o for o in off]
    combis = rand_combis(ctx, n, 6)
    fd = []
    if ctx.chance(.4):
        fd = [{'function': FD+'spectralWhitening', 'args': {}}]
    c = engine(ctx, sr, length, fd=fd, normalize=norm)
    ctx.note(lengths=[len(d) for d in D], offsets=off, norm=norm,
             whiten=bool(fd))
    ctx.sig(tuple(map(len, D)), tuple(off), norm, bool(fd), sr)
    base = values(ctx, run(c, D, starts, sr, combis), combis)

    def tol(i):
        return 5e-5*max(1e-30, float(np.max(np.abs(base[i][0]))),
                        1. if norm else 0.)
    # swapped
    sw = [(j, i) for i, j in combis]
    for m, (a, b) in enumerate(zip(
            base, values(ctx, run(c, D, starts, sr, sw), sw))):
        if abs((off[combis[m][0]]-off[combis[m][1]])/dt % 1) < 1e-9:
            ctx.close(a[0], b[0][::-1], 'swap', 'swapped records', rtol=0,
                      atol=tol(m))
            ctx.close(a[1], -(b[1] + (len(b[0])-1)*dt), 'swap_lag',
                      atol=1e-5)
    # in reverse order: independent of the position and of other pairs
    rv = [(n-1-i, n-1-j) for i, j in combis][::-1]
    got = run(c, D[::-1], starts[::-1], sr, rv)
    for m, tr in enumerate(list(got)[::-1]):
        i, j = combis[m]
        d = tr.data if n-1-i <= n-1-j else tr.data[::-1]
        ctx.close(d, base[m][0], 'order', 'order of the records', rtol=0,
                  atol=tol(m))
    # one pair alone
    m = int(ctx.rng.integers(len(combis)))
    i, j = combis[m]
    npts = max(len(d) for d in D)

    def pad(d):
        return np.concatenate((d, np.zeros(npts-len(d), np.float32)))
    if i != j:
        lo, hi = min(i, j), max(i, j)
        one = [(0, 1)] if i < j else [(1, 0)]
        got = run(c, [pad(D[lo]), pad(D[hi])], [starts[lo], starts[hi]],
                  sr, one)[0]
        d = got.data if i < j else got.data[::-1]
    else:
        d = run(c, [pad(D[i])], [starts[i]], sr, [(0, 0)])[0].data
    ctx.close(d, base[m][0], 'alone', 'pair computed alone', rtol=0,
              atol=tol(m))
    # scaled
    f = [float(10**x)*ctx.pick([1, -1]) for x in ctx.rng.uniform(-12, 8, n)]
    # the product of two records is not subject to underflow (single
    # precision)
    f = [q*max(1., 1e-15/abs(q*np.max(np.abs(d)))) for q, d in zip(f, D)]
    got = values(ctx, run(c, [d*np.float32(q) for d, q in zip(D, f)],
                          starts, sr, combis), combis)
    for m, (i, j) in enumerate(combis):
        if norm or fd:
            w = np.sign(f[i]*f[j])*base[m][0]
            t = tol(m)
        else:
            w = f[i]*f[j]*base[m][0]
            t = tol(m)*abs(f[i]*f[j])*10
        ctx.close(got[m][0], w, 'scale', f'scaled by {f[i]}, {f[j]}',
                  rtol=1e-4, atol=max(t, 1e-30))
    # undefined samples count as zero
    D0, Dn = [np.array(d) for d in D], [np.array(d) for d in D]
    for a, b in zip(D0, Dn):
        k = int(ctx.rng.integers(0, len(a)//3))
        s = int(ctx.rng.integers(0, len(a)-k))
        a[s:s+k] = 0
        b[s:s+k] = np.nan
    g0 = run(c, D0, starts, sr, combis)
    gn = run(c, Dn, starts, sr, combis)
    for a, b in zip(g0, gn):
        ctx.close(b.data, a.data, 'nan', 'missing samples', rtol=1e-6)


@scenario(quick=80, thorough=800)
def spectral_step(ctx):
    """Pre-processing steps act before the product, one record each."""
    sr = ctx.pick([5., 10.])
    n = int(ctx.rng.integers(2, 5))
    D = [ctx.rng.standard_normal(int(ctx.rng.integers(60, 300)))
         for _ in range(n)]
    length = ctx.pick([2, 3, 5])
    S = int(length*sr)
    fl = sorted(float(x) for x in ctx.rng.uniform(.02, .48, 4)*sr)
    sign = ctx.chance(.5)
    white = ctx.chance(.5)
    td = [{'function': TD+'signBitNormalization', 'args': {}}] if sign \
        else []
    fd = [{'function': FD+'spectralWhitening', 'args': {}}] if white else []
    fd.append({'function': FD+'FDfilter', 'args': {'flimit': fl}})
    combis = rand_combis(ctx, n, 5)
    norm = ctx.chance(.5)
    c = engine(ctx, sr, length, td, fd, normalize=norm)
    ctx.note(flimit=fl, sign=sign, white=white, lengths=[len(d) for d in D])
    ctx.sig(tuple(fl), sign, white, norm)
    t0 = synth.rand_time(ctx.rng)
    got = values(ctx, run(c, D, [t0]*n, sr, combis), combis)
    npts = max(map(len, D))
    N = next_fast_len(npts + S)
    if N != fftpack.next_fast_len(npts + S):
        # what is a fast length depends on the implementation, and spectra
        # are changed at its frequencies
        ctx.nontrivial = False
        return
    F = np.fft.rfftfreq(N, 1/sr)
    W = np.interp(F, [fl[0], fl[1], fl[2], fl[3]], [0, 1, 1, 0])
    ramp = (F > fl[0]) & (F < fl[3])
    B = []
    for d in D:
        x = np.zeros(npts)
        x[:len(d)] = d
        if sign:
            x = np.sign(x)
        b = np.fft.rfft(x, N)
        if white:
            if np.min(np.abs(b[1:])) < 1e-4*np.max(np.abs(b)):
                # phase is not defined in single precision
                ctx.nontrivial = False
                return
            b = b/np.maximum(np.abs(b), 1e-9*np.max(np.abs(b)))
            b[0] = 0
        B.append(b)
    # ramps are only required to be monotone: use passband plus ramps as a
    # bound and compare exactly if all ramps fall between frequency bins
    inside = (F >= fl[1]) & (F <= fl[2])
    exact = np.array_equal(inside, ramp)
    for (d, sl), (i, j) in zip(got, combis):
        M = np.conj(B[i])*B[j]
        P = np.abs(M)
        full = np.sum(P*inside)
        out = np.fft.irfft(M*inside, N)
        out = np.concatenate((out[-S:], out[:S+1]))
        ei = np.array([np.sum(np.abs(B[q][inside])**2) for q in (i, j)])
        ea = np.array([np.sum(np.abs(B[q][ramp])**2) for q in (i, j)])
        # whatever the ramp, deviation is bounded by the ramp energy
        slack = 2*np.sum(P*(ramp & ~inside))/N
        if norm:
            lo, hi = 2*np.sqrt(ei.prod())/N, 2*np.sqrt(ea.prod())/N
            if lo == 0:
                continue
            ctx.expect(np.max(np.abs(d)) <= 1+2e-4, 'bounded',
                       f'{np.max(np.abs(d))}')
            if i == j:
                ctx.close(d[S], 1., 'auto', rtol=2e-4)
            if exact or hi/lo < 1.0001:
                ctx.close(d*lo, out, 'fd_values', f'pair {i},{j}', rtol=0,
                          atol=slack+2e-4*full/N+1e-9)
                ctx.event('lags_compared', len(d))
        else:
            ctx.close(d, out, 'fd_values', f'pair {i},{j}', rtol=0,
                      atol=slack+2e-4*(full/N+1e-9))
            ctx.event('lags_compared', len(d))
