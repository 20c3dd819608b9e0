"""
Rows and one to fourteen references are one wavefield stretched by known
factors, given in random order. The panel of single measurements is compared
with independent measurements, the combination with an own implementation of
the inverse-variance weighted least-squares alignment and, on clean data, with
the factors that were applied; permuted references must give the same.
"""
import numpy as np

from vlib.core import scenario
from vlib import synth
from checks.c21 import wavefield, consistent

ASSUMPTIONS = [
    'offsets between references follow from the differences of the values '
    'weighted by their inverse variance (Weaver et al. 2011), the mean of all '
    'offsets is zero, and offsets are rounded to the grid',
    'values of a reference that is moved leave the ends of the grid undefined',
    'offsets within 1e-6 of half a grid step may be rounded either way']
REQUIRED = {'panels': 150, 'combined': 300, 'many_references': 60,
            'values_recovered': 400, 'undefined_rows': 60, 'permuted': 60,
            'single_reference': 60, 'single_row': 20, 'moved': 200}


def setup(ctx, noise, nref=None, spread=.4, uneven=False):
    rng = ctx.rng
    sr = float(rng.choice([1, 5, 10, 25]))
    half = int(rng.integers(70, 110))
    t = np.arange(-half, half+1)/sr
    r = wavefield(rng, sr, half/sr)
    nref = nref or int(rng.choice([2, 3, 4, 5, 10, 11, 14]))
    if nref >= 10:
        ctx.event('many_references')
    srange = float(rng.choice([.03, .06]))
    steps = int(rng.choice([31, 41, 61]))
    grid = np.linspace(-srange, srange, steps)
    step = grid[1]-grid[0]
    q = steps//2
    e = rng.integers(-int(q*spread), int(q*spread)+1, nref)
    m = int(rng.choice([1, 2, 4, 6]))
    v = rng.integers(-int(q*spread), int(q*spread)+1, m)
    refs = np.array([r(t*np.exp(-k*step)) for k in e])
    A = np.array([r(t*np.exp(-k*step)) for k in v])
    sd = np.std(A)
    f = g = 1.
    if uneven:
        # measurements and references of different quality
        f = 10.**rng.uniform(-1, .5, size=(m, 1))
        g = 10.**rng.uniform(-1, 1, size=(nref, 1))
    A = A + noise*sd*f*rng.standard_normal(A.shape)
    refs = refs + .3*noise*sd*g*rng.standard_normal(refs.shape)
    A = A*10.**rng.integers(-12, 10, size=(m, 1))
    refs = refs*10.**rng.integers(-12, 10, size=(nref, 1))
    bad = np.zeros(m, bool)
    for i in range(m):
        if m > 1 and rng.random() < .2:
            A[i], bad[i] = np.nan, True
            ctx.event('undefined_rows')
    if bad.all():
        A[0], bad[0] = r(t*np.exp(-v[0]*step)), False
    if m == 1:
        ctx.event('single_row')
    last = int(half*np.exp(-2*srange))-2
    first = int(rng.integers(0, last-48))
    tw = [np.arange(first, int(rng.integers(first+45, last+1)))]
    sides = ctx.pick(['both', 'left', 'right'])
    kw = dict(tw=tw, stretch_range=srange, stretch_steps=steps, sides=sides)
    t0 = synth.rand_time(rng, res=1.)
    b = synth.bulk(A, [t0+600*i for i in range(m)], sr=sr,
                   start_lag=float(t[0]), length=600., rng=rng)
    ctx.note(nref=nref, e=e.tolist(), v=v.tolist(), bad=bad.tolist(),
             sides=sides, steps=steps, srange=srange, noise=noise)
    return dict(b=b, A=A, refs=refs, e=e, v=v, bad=bad, kw=kw, grid=grid,
                step=step, m=m, nref=nref, r=r, t=t)


def combine(panel, grid, bad):
    """Own alignment; returns similarity matrix and offsets in steps."""
    n = len(panel)
    step = grid[1]-grid[0]
    vals = np.array([np.atleast_1d(p['value']) for p in panel])
    cors = np.array([np.atleast_1d(p['corr']) for p in panel])
    rows, rhs, wts = [], [], []
    for j in range(n):
        for k in range(n):
            if j == k:
                continue
            ok = ~bad
            c1, c2 = cors[j][ok], cors[k][ok]
            with np.errstate(all='ignore'):
                w = 1/((1-c1**2)/(4*c1**2)+(1-c2**2)/(4*c2**2))
            d = np.sum(w*(vals[j]-vals[k])[ok])/np.sum(w)
            row = np.zeros(n)
            row[k], row[j] = 1, -1
            rows.append(row)
            rhs.append(d)
            wts.append(np.sum(w*(c1+c2))/np.sum(w))
    G = np.array(rows)
    W = np.sqrt(np.array(wts))
    if not (np.isfinite(W).all() and np.isfinite(rhs).all()):
        return None, None
    # offsets with zero mean
    G = np.vstack((G*W[:, None], np.ones(n)))
    x = np.linalg.lstsq(G, np.append(W*np.array(rhs), 0), rcond=None)[0]
    x = x/step
    S = np.full((n, len(bad), len(grid)), np.nan)
    for k, p in enumerate(panel):
        q = int(np.around(x[k]))
        src = np.atleast_2d(p['sim_mat'])
        for c in range(len(grid)):
            if 0 <= c-q < len(grid):
                S[k, :, c] = src[:, c-q]
    with np.errstate(all='ignore'):
        tot = np.nansum(S, axis=0)
        cnt = np.sum(~np.isnan(S), axis=0)
        return np.where(cnt > 0, tot/np.maximum(cnt, 1), np.nan), x


def tie(x):
    return np.any(np.abs(np.abs(x-np.floor(x))-.5) < 1e-6)


@scenario(quick=150, thorough=4000)
def panels(ctx):
    """Each reference alone, and the combination of them."""
    from seismic.monitor import stretch_mod as sm
    rng = ctx.rng
    s = setup(ctx, float(rng.choice([.1, .3])))
    A, refs = s['A'].copy(), s['refs'].copy()
    p = sm.multi_ref_vchange(A, refs, **s['kw'])
    ctx.expect(np.array_equal(A, s['A'], equal_nan=True) and np.array_equal(
        refs, s['refs']), 'data_changed', 'multi_ref_vchange')
    ctx.eq(sorted(p), sorted(f'reftr_{k}' for k in range(s['nref'])), 'keys',
           'multi_ref_vchange')
    alone = []
    for k in range(s['nref']):
        one = sm.time_stretch_estimate(A.copy(), ref_trc=s['refs'][k].copy(),
                                       **s['kw'])
        alone.append(one)
        ctx.event('panels')
        for key in ('corr', 'value', 'sim_mat', 'second_axis'):
            ctx.close(p[f'reftr_{k}'][key], one[key], 'differs_from_single',
                      f'reference {k} of {s["nref"]} {key}', rtol=1e-12)
    # a panel in another order of insertion is the same panel
    keys = list(p)
    rng.shuffle(keys)
    dv = sm.estimate_reftr_shifts_from_dt_corr(
        {k: p[k] for k in keys}, return_sim_mat=True)
    want, x = combine(alone, s['grid'], s['bad'])
    if want is not None and not tie(x):
        ctx.event('combined')
        ctx.close(dv['sim_mat'], want, 'combination',
                  f'{s["nref"]} references, offsets {x}', rtol=1e-9,
                  atol=1e-9)
    ctx.sig(s['nref'], s['m'], bool(s['bad'].any()))


@scenario(quick=300, thorough=8000)
def combination(ctx):
    """Object form against the own alignment, on noisy data."""
    rng = ctx.rng
    s = setup(ctx, float(rng.choice([.05, .2, .5])),
              spread=float(rng.choice([.2, .6])),
              uneven=bool(rng.random() < .6))
    b = s['b'].copy()
    refs = s['refs'].copy()
    dv = b.stretch(ref_trc=refs, return_sim_mat=True, **s['kw'])
    ctx.expect(np.array_equal(b.data, s['A'], equal_nan=True)
               and np.array_equal(refs, s['refs']), 'data_changed', 'stretch')
    consistent(ctx, dv, s['grid'], s['bad'], f'{s["nref"]} references',
               sim=False)
    ok = np.flatnonzero(~s['bad'])
    for i in ok:
        S = dv.sim_mat[i]
        ctx.close(float(dv.corr[i]), float(np.nanmax(S)), 'corr_is_maximum',
                  '', rtol=1e-12)
        ctx.close(float(dv.value[i]), float(dv.second_axis[np.nanargmax(S)]),
                  'value_at_maximum', '', rtol=1e-12)
    alone = []
    for k in range(s['nref']):
        d = s['b'].copy().stretch(ref_trc=s['refs'][k].copy(),
                                  return_sim_mat=True, **s['kw'])
        alone.append(dict(value=d.value, corr=d.corr, sim_mat=d.sim_mat))
    want, x = combine(alone, s['grid'], s['bad'])
    if want is None or tie(x):
        return
    ctx.event('combined')
    ctx.event('moved', int(np.sum(np.around(x) != 0)))
    ctx.close(dv.sim_mat, want, 'combination',
              f'{s["nref"]} references, offsets {np.around(x, 2)}',
              rtol=1e-9, atol=1e-9)
    # without the matrix the result is the same
    d = s['b'].copy().stretch(ref_trc=s['refs'].copy(), **s['kw'])
    ctx.close(d.value, dv.value, 'without_matrix', 'value', rtol=1e-12)
    ctx.close(d.corr, dv.corr, 'without_matrix', 'corr', rtol=1e-12)
    # order of the references
    p = rng.permutation(s['nref'])
    d = s['b'].copy().stretch(ref_trc=s['refs'][p].copy(),
                              return_sim_mat=True, **s['kw'])
    ctx.event('permuted')
    ctx.close(d.sim_mat, dv.sim_mat, 'depends_on_order',
              f'{s["nref"]} references', rtol=1e-7, atol=1e-7)
    ctx.sig(s['nref'], s['m'], bool(s['bad'].any()), int(np.abs(x).max()))


@scenario(quick=200, thorough=5000)
def recover(ctx):
    """Clean data: the factors applied relative to the mean reference."""
    s = setup(ctx, .02, spread=.25)
    dv = s['b'].copy().stretch(ref_trc=s['refs'].copy(), return_sim_mat=True,
                               **s['kw'])
    base = s['e'].mean()
    for i in np.flatnonzero(~s['bad']):
        want = (s['v'][i]-base)*s['step']
        ctx.event('values_recovered')
        ctx.expect(abs(dv.value[i]-want) <= 1.6*s['step'], 'value',
                   f'{dv.value[i]} expected {want} step {s["step"]}')
        ctx.expect(dv.corr[i] > .8, 'similarity', f'{dv.corr[i]}')
    ctx.sig(s['nref'], s['m'])


@scenario(quick=80, thorough=2000)
def single(ctx):
    """One reference, however it is given, is the single measurement."""
    s = setup(ctx, .2, nref=1)
    ctx.event('single_reference')
    a = s['b'].copy().stretch(ref_trc=s['refs'][0].copy(),
                              return_sim_mat=True, **s['kw'])
    b = s['b'].copy().stretch(ref_trc=s['refs'].copy(), return_sim_mat=True,
                              **s['kw'])
    for key in ('corr', 'value', 'sim_mat', 'second_axis'):
        ctx.close(getattr(b, key), getattr(a, key), 'single_reference', key,
                  rtol=1e-12)
    consistent(ctx, b, s['grid'], s['bad'], 'single reference')
    # the same reference several times changes nothing
    n = int(ctx.rng.integers(2, 5))
    c = s['b'].copy().stretch(ref_trc=np.repeat(s['refs'], n, axis=0),
                              return_sim_mat=True, **s['kw'])
    for key in ('corr', 'value', 'sim_mat'):
        ctx.close(getattr(c, key), getattr(a, key), 'repeated_reference',
                  key, rtol=1e-9, atol=1e-12)
    ctx.sig(s['m'], n)
