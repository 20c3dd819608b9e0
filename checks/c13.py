"""
Spectra of random and pathological traces (zero traces, empty bins, very
different amplitudes, even and odd numbers of samples) go through the spectral
steps; bins are compared with definitions written independently, every trace
also on its own and in other company.
"""
import numpy as np

from vlib.core import scenario

REQUIRED = {'bins': 100000, 'empty_bins': 1000, 'zero_spectra': 50,
            'odd': 100, 'joint': 100, 'ramps': 100}
ASSUMPTIONS = ['amplitudes within the range of normal numbers']


def step(name):
    import seismic.correlate.preprocessing_fd as fd
    return getattr(fd, name)


def spectra(ctx, m=None):
    rng = ctx.rng
    m = m or int(rng.integers(1, 8))
    n = int(rng.integers(6, 600))
    sr = float(rng.choice([1, 5, 25, 100]))
    x = rng.standard_normal((m, n))*10.**rng.integers(-15, 12, (m, 1))
    B = np.fft.rfft(x, axis=1)
    kinds = []
    for i in range(m):
        k = str(rng.choice(['full', 'full', 'full', 'zero', 'holes',
                            'colour', 'dc']))
        kinds.append(k)
        if k == 'zero':
            B[i] = 0
            ctx.event('zero_spectra')
        elif k == 'holes':
            B[i, rng.random(B.shape[1]) < .3] = 0
            ctx.event('empty_bins', (B[i] == 0).sum())
        elif k == 'colour':
            B[i] *= 10.**(-6*np.linspace(0, 1, B.shape[1]))
        elif k == 'dc':
            B[i, 0] = 1e6*np.abs(B[i]).max()
    B = B.astype(np.complex64 if rng.random() < .6 else np.complex128)
    par = {'freqs': np.fft.rfftfreq(n, 1/sr), 'sampling_rate': sr}
    ctx.note(n=n, sr=sr, kinds=kinds, dtype=str(B.dtype))
    ctx.sig(n, m, sr, tuple(kinds))
    ctx.event('bins', B.size)
    if n % 2:
        ctx.event('odd')
    return n, sr, B, par, kinds


def alone(ctx, name, B, args, par, out, group=1):
    fn = step(name)
    ctx.eq(out.shape, B.shape, 'shape', name)
    ctx.expect(np.isfinite(out).all(), 'not_finite', f'{name} {args}')
    for i in range(0, len(B), group):
        ctx.close(fn(B[i:i+group].copy(), dict(args), dict(par)),
                  out[i:i+group], 'trace_alone', f'{name} {args} {i}',
                  rtol=2e-6)
    if group == 1:
        p = ctx.rng.permutation(len(B))
        ctx.close(fn(B[p].copy(), dict(args), dict(par)), out[p],
                  'trace_order', f'{name} {args}', rtol=2e-6)


@scenario(quick=1500, thorough=40000)
def whitening(ctx):
    n, sr, B, par, kinds = spectra(ctx)
    args = {} if ctx.chance(.6) else {'joint_norm': False}
    out = step('spectralWhitening')(B.copy(), args, par)
    alone(ctx, 'spectralWhitening', B, args, par, out)
    z = B == 0
    z[:, 0] = True
    ctx.expect(not np.any(out[z]), 'not_zero', 'empty bins and zero '
               'frequency are zero')
    want = B[~z].astype(complex)
    ctx.close(out[~z], want/np.abs(want), 'whitened', rtol=2e-6)


@scenario(quick=800, thorough=20000)
def joint(ctx):
    n, sr, B, par, kinds = spectra(ctx, 3*int(ctx.rng.integers(1, 5)))
    out = step('spectralWhitening')(B.copy(), {'joint_norm': True}, par)
    alone(ctx, 'spectralWhitening', B, {'joint_norm': True}, par, out, 3)
    ctx.event('joint')
    for i in range(0, len(B), 3):
        b = B[i:i+3].astype(complex)
        a = np.abs(b).mean(axis=0)
        want = np.where(a > 0, b/np.where(a > 0, a, 1), 0)
        want[:, 0] = 0
        ctx.close(out[i:i+3], want, 'joint', rtol=4e-6)


@scenario(quick=1500, thorough=40000)
def onebit(ctx):
    n, sr, B, par, kinds = spectra(ctx)
    out = step('FDsignBitNormalization')(B.copy(), {}, par)
    alone(ctx, 'FDsignBitNormalization', B, {}, par, out)
    x = np.fft.irfft(B.astype(complex), n, axis=1)
    y = np.fft.irfft(out.astype(complex), n, axis=1)
    for i in range(len(B)):
        if kinds[i] == 'zero':
            ctx.eq(np.abs(y[i]).max(), 0., 'zero_spectrum')
            continue
        ok = np.abs(x[i]) > 1e-4*np.abs(x[i]).max()
        ctx.close(y[i][ok], np.sign(x[i])[ok], 'signs', f'n={n}', rtol=1e-4)


@scenario(quick=1500, thorough=40000)
def fdfilter(ctx):
    n, sr, B, par, kinds = spectra(ctx)
    f = par['freqs']
    df = f[1]
    lim = np.sort(ctx.rng.uniform(0, .5*sr, 4))
    if ctx.chance(.3):
        lim = np.sort(ctx.rng.choice(f, 4))
    if lim[1]-lim[0] < 1.5*df or lim[3]-lim[2] < 1.5*df or \
            lim[2]-lim[1] < 1.5*df:
        return
    args = {'flimit': [float(q) for q in lim]}
    ctx.note(flimit=args['flimit'])
    out = step('FDfilter')(B.copy(), dict(args), par)
    alone(ctx, 'FDfilter', B, args, par, out)
    w = np.array(step('FDfilter')(
        np.ones((1, len(f)), complex), dict(args), par))[0]
    ctx.close(out, B*w, 'weights', rtol=4e-6)
    ctx.expect(np.abs(w.imag).max() == 0, 'phase')
    w = w.real
    h = .51*df
    ctx.expect(np.all((w >= 0) & (w <= 1+1e-12)), 'range')
    ctx.close(w[(f >= lim[1]+h) & (f <= lim[2]-h)], 1+0*f[
        (f >= lim[1]+h) & (f <= lim[2]-h)], 'pass_band', f'{lim} df={df}')
    ctx.expect(not np.any(w[(f < lim[0]-h) | (f > lim[3]+h)]), 'stop_band',
               f'{lim} df={df}')
    up = w[f <= (lim[1]+lim[2])/2]
    dn = w[f >= (lim[1]+lim[2])/2]
    ctx.expect(np.all(np.diff(up) >= -1e-12), 'ramp', f'{lim} {up}')
    ctx.expect(np.all(np.diff(dn) <= 1e-12), 'ramp', f'{lim} {dn}')
    # the ramp is a cosine between the limits
    for a, b, sgn in ((lim[0], lim[1], 1), (lim[3], lim[2], -1)):
        if abs(b-a) < 8*df:
            continue
        ctx.event('ramps')
        i = (f > min(a, b)) & (f < max(a, b))
        want = .5*(1-np.cos(np.pi*(f[i]-a)/(b-a)))
        ctx.close(w[i], want, 'ramp_shape', f'{lim} df={df}', rtol=0,
                  atol=2.5*df/abs(b-a))
