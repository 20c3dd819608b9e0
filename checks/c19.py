"""
Matrices whose rows are known functions of lag run through random histories of
trimming, mirroring, resampling, decimating and other operations on random lag
axes (symmetric, one-sided, asymmetric, off the sample grid); after every step
a monitor evaluates these functions at the lags the header states and compares
them with the samples, and the header with an independent model of the axis.
"""
import numpy as np

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'limits outside of the lag axis leave the matrix as it is (documented)',
    'mirroring leaves an axis without a sample at zero lag or without lags on '
    'both sides as it is (documented)',
    'resampling is judged for signals well below the new Nyquist frequency '
    'that vanish at both ends of the lag axis',
    'downsampling by an integer factor may drop the last sample']
REQUIRED = {'steps': 3000, 'trimmed': 400, 'mirrored': 200, 'resampled': 200,
            'limits_on_samples': 200, 'refused': 100}


class Axis:
    """Lags of the samples, in exact arithmetic as far as possible."""
    def __init__(self, lag, n, sr):
        self.lag, self.n, self.sr = lag, n, sr

    def times(self):
        return self.lag + np.arange(self.n)/self.sr

    def trim(self, a, b):
        i = int(np.ceil(np.round((a-self.lag)*self.sr, 5)))
        j = int(np.floor(np.round((b-self.lag)*self.sr, 5)))
        if i < 0 or j > self.n-1:
            return None
        return i, j


def rand_axis(ctx, small=False):
    rng = ctx.rng
    sr = float(rng.choice([1, 2, 5, 10, 25, 50, 100, 12.5, 1/3, 100/3, 7]))
    n = int(rng.integers(2, 30)) if small else int(rng.integers(400, 1200))
    k = int(rng.integers(6))
    if k == 0:
        n += 1 - n % 2
        lag = -(n//2)/sr
    elif k == 1:
        lag = 0.
    elif k == 2:
        lag = -(n-1)/sr
    elif k == 3:
        lag = -int(rng.integers(0, n))/sr
    elif k == 4:
        lag = float(np.round(rng.uniform(-n, n/2)))/sr
    else:
        # zero lag between two samples
        lag = -(int(rng.integers(0, n)) + float(
            rng.choice([.5, .25, .01])))/sr
    if k > 2 and rng.random() < .3:
        # round-off of the header
        lag = lag*(1+1e-15)
    return Axis(lag, n, sr)


def bulk(ctx, ax, A):
    t0 = synth.rand_time(ctx.rng, res=1.)
    return synth.bulk(A, [t0+3600*i for i in range(len(A))], sr=ax.sr,
                      start_lag=ax.lag, rng=ctx.rng)


def judge_axis(ctx, stats, data, ax, where):
    ctx.event('steps')
    ctx.eq(data.shape[-1], ax.n, 'samples', where)
    ctx.eq(stats['npts'], ax.n, 'npts', where)
    tol = 1e-6/ax.sr
    ctx.close(stats['sampling_rate'], ax.sr, 'sampling_rate', where,
              rtol=1e-9)
    ctx.close(stats['delta'], 1/ax.sr, 'delta', where, rtol=1e-9)
    ctx.close(stats['start_lag'], ax.lag, 'first_lag', where, atol=tol)
    ctx.close(stats['end_lag'], ax.lag+(ax.n-1)/ax.sr, 'last_lag', where,
              atol=tol)


@scenario(quick=5000, thorough=100000)
def trimming(ctx):
    """Exactly the lags inside the limits stay, with their values."""
    from seismic.monitor.trim import corr_mat_trim
    rng = ctx.rng
    ax = rand_axis(ctx, small=True)
    m = int(rng.integers(1, 4))
    A = rng.standard_normal((m, ax.n))*10.**ctx.pick([0, -12, 8])
    b = bulk(ctx, ax, A)
    for _ in range(int(rng.integers(1, 4))):
        t = ax.times()
        lim = []
        for _ in range(2):
            x = float(ctx.pick(t))
            r = rng.random()
            if r < .5:
                x += float(rng.choice([.5, -.5, .3, -.01, .999]))/ax.sr
            elif r < .6:
                x += float(rng.choice([-1e-9, 1e-9]))/ax.sr
            lim.append(x)
        a, e = sorted(lim)
        if rng.random() < .1:
            a, e = (a-3*ax.n/ax.sr, e) if rng.random() < .5 else (
                a, e+3*ax.n/ax.sr)
        ij = ax.trim(a, e)
        if ij is not None and ij[1] < ij[0]:
            # no lags inside
            continue
        ctx.event('limits_on_samples', bool(
            np.any(np.abs(t-a) < 1e-6/ax.sr)
            or np.any(np.abs(t-e) < 1e-6/ax.sr)))
        ctx.note(a=a, e=e, lag=ax.lag, n=ax.n, sr=ax.sr)
        ctx.sig(ax.n, a, e)
        before = b.data.copy()
        k = int(rng.integers(3))
        if k == 0:
            d, s = corr_mat_trim(b.data.copy(), b.stats.copy(), a, e)
        elif k == 1:
            # a single correlation
            d, s = corr_mat_trim(b.data[0].copy(), b.stats.copy(), a, e)
            d = d[None, :]
            before_d = before[:1]
        else:
            c = b.copy()
            c.trim(a, e)
            d, s = c.data, c.stats
        if k != 1:
            before_d = before
        if ij is None:
            ctx.event('refused')
            new = Axis(ax.lag, ax.n, ax.sr)
            want = before_d
        else:
            ctx.event('trimmed')
            i, j = ij
            new = Axis(ax.lag+i/ax.sr, j-i+1, ax.sr)
            want = before_d[:, i:j+1]
        judge_axis(ctx, s, d, new, f'trim {a} {e}')
        ctx.expect(np.array_equal(d, want), 'trimmed_values')
        ctx.expect(np.array_equal(b.data, before), 'input_changed')
        b.trim(a, e)
        ax = new
        judge_axis(ctx, b.stats, b.data, ax, 'object')
        ctx.eq(len(b.stats['corr_start']), m, 'rows')
        tr = b.create_corr_stream()[0]
        ctx.close(tr.times(), ax.times(), 'trace_lags', atol=1e-6/ax.sr)


def mirror(ax, A):
    """The mean over both sides, or what is there of one."""
    z = -ax.lag*ax.sr
    if abs(z-round(z)) > 1e-4:
        return None
    z = int(round(z))
    if z <= 0 or ax.n-1-z <= 0:
        return None
    n = max(z, ax.n-1-z)+1
    out = np.zeros((len(A), n))
    for k in range(n):
        v = [A[:, i] for i in {z-k, z+k} if 0 <= i < ax.n]
        out[:, k] = np.mean(v, axis=0)
    return Axis(0., n, ax.sr), out


@scenario(quick=5000, thorough=100000)
def mirroring(ctx):
    """Samples at opposite lags are averaged, also after trimming."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    ax = rand_axis(ctx, small=True)
    A = rng.standard_normal((int(rng.integers(1, 4)), ax.n))
    b = bulk(ctx, ax, A)
    if rng.random() < .4:
        i, j = sorted(int(x) for x in rng.integers(0, ax.n, size=2))
        t = ax.times()
        b.trim(t[i], t[j])
        A = A[:, i:j+1]
        ax = Axis(ax.lag+i/ax.sr, j-i+1, ax.sr)
    ctx.note(lag=ax.lag, n=ax.n, sr=ax.sr)
    ctx.sig(ax.lag, ax.n, ax.sr)
    want = mirror(ax, A)
    if want is None:
        ctx.event('refused')
        want = (ax, A)
    else:
        ctx.event('mirrored')
    if rng.random() < .5:
        keep = b.stats.copy()
        d, s = P.corr_mat_mirror(b.data, b.stats)
        ctx.expect(np.array_equal(b.data, A), 'input_changed')
        ctx.eq(b.stats, keep, 'input_header_changed')
    else:
        b.mirror()
        d, s = b.data, b.stats
    judge_axis(ctx, s, d, want[0], 'mirror')
    ctx.close(d, want[1], 'mirrored_values', rtol=1e-12)


class Row:
    """A sum of wavelets as a function of lag."""
    def __init__(self, rng, a, b, f):
        k = int(rng.integers(1, 4))
        # wavelets vanish at the limits of the axis
        self.c = rng.uniform(a+4.5/f, b-4.5/f, size=k)
        self.f = f*rng.uniform(.8, 1.2, size=k)
        self.p = rng.uniform(0, 2*np.pi, size=k)
        self.a = rng.uniform(.5, 1, size=k)

    def __call__(self, t):
        t = np.asarray(t)[:, None]
        x = (t-self.c)*self.f
        return (self.a*np.cos(2*np.pi*x+self.p)*np.exp(-.5*x**2)).sum(1)


@scenario(quick=2000, thorough=40000)
def histories(ctx):
    """Sequences of operations on rows that are functions of lag."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    ax = rand_axis(ctx)
    f = .03*ax.sr
    t = ax.times()
    rows = [Row(rng, t[0], t[-1], f) for _ in range(int(rng.integers(1, 4)))]
    b = bulk(ctx, ax, np.array([r(t) for r in rows]))
    funcs = list(rows)
    sr0 = ax.sr
    # rows that changed in the interior only
    done = []
    cut = False
    for _ in range(int(rng.integers(1, 5))):
        k = ctx.pick(['trim', 'mirror', 'resample', 'decimate', 'scale'])
        t = ax.times()
        if k == 'trim' and ax.n > 60:
            i = int(rng.integers(0, ax.n//5))
            j = int(rng.integers(4*ax.n//5, ax.n))
            a, e = t[i]-.3/ax.sr*(i > 0), t[j]
            b.trim(a, e)
            ax = Axis(t[i], j-i+1, ax.sr)
            cut = True
        elif k == 'mirror':
            z = mirror(ax, np.zeros((1, ax.n)))
            if z is None:
                b.mirror()
                judge_axis(ctx, b.stats, b.data, ax, f'{done} no mirror')
                continue
            a, e = ax.lag, ax.lag+(ax.n-1)/ax.sr
            both = min(-a, e)
            funcs = [mirrored(g, both, a, e, 1e-3/ax.sr) for g in funcs]
            b.mirror()
            ax = z[0]
            # the mean steps where one side ends
            cut = True
        elif k in ('resample', 'decimate') and not cut:
            if k == 'decimate':
                fac = float(rng.choice([2, 3, 4]))
                new = ax.sr/fac
            else:
                new = ax.sr*float(rng.choice([.9, .8, .75, .6, .4, .35]))
                if rng.random() < .5 and ax.sr >= 5:
                    new = float(np.round(new, 1))
            if new < sr0/4.01 or new > ax.sr:
                continue
            dec = abs(ax.sr/new - round(ax.sr/new)) < 1e-9
            try:
                if rng.random() < .3:
                    b.data, b.stats = P.corr_mat_resample_or_decimate(
                        b.data, b.stats, new)
                else:
                    b.resample_time_axis(new)
            except TypeError:
                # no common multiple of both intervals (documented)
                ctx.event('refused')
                return
            n = b.data.shape[1]
            # the new axis covers the old one
            full = ax.n*new/ax.sr
            ctx.expect(full - 1 - 1e-6 - dec <= n <= full + 1 + 1e-6,
                       'resampled_length', f'{ax.n} {ax.sr} {new} {n}')
            ctx.event('resampled')
            ax = Axis(ax.lag, n, new)
        elif k == 'scale':
            w = ctx.pick(['max', 'energy'])
            c = b.copy()
            c.normalize(normtype=w)
            judge_axis(ctx, c.stats, c.data, ax, w)
            c.envelope()
            judge_axis(ctx, c.stats, c.data, ax, 'envelope')
            c.filter((.005*ax.sr, .2*ax.sr))
            judge_axis(ctx, c.stats, c.data, ax, 'filter')
            c.taper(3/ax.sr)
            judge_axis(ctx, c.stats, c.data, ax, 'taper')
            c.smooth(3, axis=0)
            judge_axis(ctx, c.stats, c.data, ax, 'smooth')
            continue
        else:
            continue
        done.append(k)
        judge_axis(ctx, b.stats, b.data, ax, str(done))
        want = np.array([g(ax.times()) for g in funcs])
        ctx.close(b.data, want, 'value_at_lag', str(done), rtol=5e-3,
                  atol=5e-3)
    ctx.sig(tuple(done), ax.n, ax.sr, ax.lag)
    ctx.note(done=str(done))
    st = b.create_corr_stream()
    for tr, g in zip(st, funcs):
        ctx.close(tr.times(), ax.times(), 'trace_lags', atol=1e-6/ax.sr)


def mirrored(g, both, a, e, tol):
    def h(t):
        r, le = g(t), g(-t)
        one = le if -a > e else r
        return np.where(t <= both + tol, (r+le)/2, one)
    return h


@scenario(quick=200, thorough=4000)
def refused(ctx):
    """Higher rates and the same rate."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    ax = rand_axis(ctx, small=True)
    A = rng.standard_normal((2, ax.n))
    b = bulk(ctx, ax, A)
    ctx.sig(ax.lag, ax.n, ax.sr)
    ctx.event('refused')
    ctx.raises(ValueError, lambda: b.copy().resample_time_axis(ax.sr*1.5),
               'upsampling')
    ctx.raises(ValueError, lambda: P.corr_mat_decimate(
        A.copy(), b.stats.copy(), 0), 'factor')
    b.resample_time_axis(ax.sr)
    judge_axis(ctx, b.stats, b.data, ax, 'same rate')
    ctx.expect(np.array_equal(b.data, A), 'same_rate')
