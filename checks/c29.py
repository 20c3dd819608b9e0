"""
Velocity changes of random networks (undefined, perfect and incoherent
measurements, series on different time axes, with and without processing
information) are inverted on random grids and the result is compared with the
minimum of the cost function, computed from kernels of fresh calls; histories
of inversions on one grid, permuted, scaled and thinned measurements follow.
Series are aligned to values and to grids and looked at sample by sample.
"""
import copy
import os
import warnings

import numpy as np

from vlib.core import scenario
from vlib import synth
from checks.c28 import make_grid, cart, real

ASSUMPTIONS = [
    'the sensitivity kernels are those of C28',
    'measurements with a coherence of at most 0.001 or at least 1 do not '
    'count (documented in the code)',
    'the measurement of a series is the one that starts nearest to the time',
    'all measurements of one inversion share their processing']
REQUIRED = {'inversions': 200, 'measurements': 800, 'undefined': 150,
            'permuted': 100, 'linear': 100, 'resolutions': 100,
            'covariances': 100, 'truncated': 60, 'no_processing': 15,
            'refused': 80, 'variances': 2500, 'aligned': 200,
            'aligned_to_grid': 150, 'not_aligned': 100, 'saved': 30}


def series(ctx, stas, t0, n, proc, a=None, b=None, dt=600.):
    """One DV between two random stations."""
    from seismic.monitor.dv import DV
    rng = ctx.rng
    a, b = a or ctx.pick(stas), b or ctx.pick(stas)
    off = float(rng.integers(-2, 3))*dt
    st = synth.bulk(np.zeros((n, 5)), [t0+off+dt*i for i in range(n)], sr=1.,
                    start_lag=-2., length=dt, rng=rng,
                    sta='%s-%s' % (stas.index(a), stas.index(b))).stats
    st.update(dict(stla=a[0], stlo=a[1], evla=b[0], evlo=b[1], stel=0.,
                   evel=0.))
    corr = rng.uniform(.3, .95, n)
    odd = rng.random(n) < .3
    corr[odd] = rng.choice([.002, .05, .96, .995, .9999], odd.sum())
    val = .01*rng.standard_normal(n)
    q = rng.random(n)
    corr[q < .05] = np.nan
    val[q < .1] = np.nan
    corr[(q > .1) & (q < .14)] = ctx.pick([1., 1+1e-12])
    corr[(q > .14) & (q < .18)] = ctx.pick([0., 1e-3, -.4])
    return DV(corr, val, 'stretch', np.zeros((n, 3)), np.zeros(3), 'x',
              stats=st, dv_processing=proc)


def at(dv, utc):
    """Index of the measurement at the time or None."""
    s = np.array([t.timestamp for t in dv.stats.corr_start])
    u = utc.timestamp
    if u < s[0]-1e-6 or u > dv.stats.corr_end[-1].timestamp+1e-6:
        return None
    return int(np.argmin(np.abs(s-u)))


def usable(dv, utc):
    i = at(dv, utc)
    return i is not None and not np.isnan(dv.value[i]) and \
        dv.corr[i] > 1e-3 and dv.corr[i] < 1


def system(kw, g, dvs, utc, tw, f0, f1, scale, clen, std):
    use = [d for d in dvs if usable(d, utc)]
    t = sum(tw)/2
    G = np.array([kw['res']**2/t*real(
        np.array(cart(d.stats.stla, d.stats.stlo, kw['lat0'], kw['lon0'])),
        np.array(cart(d.stats.evla, d.stats.evlo, kw['lat0'], kw['lon0'])),
        g.xaxis, g.yaxis, t, kw['dt'], kw['vel'], kw['mf_path']).ravel()
        for d in use]).reshape(len(use), -1)
    y = np.array([d.value[at(d, utc)] for d in use])
    c = np.array([d.corr[at(d, utc)] for d in use])
    X, Y = np.meshgrid(g.xaxis, g.yaxis)
    P = np.array([X.ravel(), Y.ravel()])
    D = np.hypot(P[0][:, None]-P[0], P[1][:, None]-P[1])
    Cm = (std*scale/clen)**2*np.exp(-D/clen)
    w = np.pi*(f0+f1)
    var = (1-c**2)/(4*c**2)*6*np.sqrt(np.pi/2)/(f1-f0)/(
        w**2*(tw[1]**3-tw[0]**3))
    return G, y, Cm, var


def calm(f, *a, **kw):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **kw)


def snapshot(dvs):
    return [(repr(d.value.tolist()), repr(d.corr.tolist()),
             repr(dict(d.stats)),
             repr(d.dv_processing)) for d in dvs]


@scenario(quick=100, thorough=3000, weight=4)
def inversion(ctx):
    """Histories of inversions on one grid."""
    rng = ctx.rng
    g, kw, stas = make_grid(ctx)
    t0 = synth.rand_time(rng, res=1.)
    n = int(rng.integers(6, 12))
    a, b = rng.uniform(2, 8, 2)*2*kw['res']/kw['vel']
    tw = (float(a), float(a+b))
    f0 = float(rng.uniform(.05, 1))
    f1 = f0*float(rng.uniform(1.2, 4))
    proc = dict(tw_start=tw[0], tw_len=tw[1]-tw[0], freq_min=f0, freq_max=f1)
    given = {}
    if rng.random() < .3:
        given = dict(tw=tw, freq0=f0, freq1=f1)
        proc = ctx.pick([None, {}, dict(sides='both'), dict(
            tw_start=1., tw_len=2., freq_min=9., freq_max=10.)])
        ctx.event('no_processing')
    m = int(rng.integers(1, 9))
    dvs = [series(ctx, stas, t0, n, proc) for _ in range(m)]
    ctx.note(dvs=m, shape=g.xgrid.shape, kw=str(kw), given=str(given))
    seen = set()
    for step in range(3):
        utc = t0+600*int(rng.integers(-1, n+1))+ctx.pick([0., 0., 100, -200])
        reg = dict(scaling_factor=kw['res'], corr_len=float(
            rng.uniform(.5, 5))*kw['res'], std_model=float(
            10**rng.uniform(-2, 0)))
        use = [d for d in dvs if usable(d, utc)]
        ctx.event('undefined', m-len(use))
        if not use:
            ctx.raises(IndexError, lambda: calm(
                g.compute_dv_grid, dvs, utc, **reg, **given), 'no_data')
            ctx.event('refused')
            continue
        if given and proc is not None and 'tw_start' not in proc or \
                given and proc is None:
            if rng.random() < .3:
                k = ctx.pick(sorted(given))
                ctx.raises(AttributeError, lambda: calm(
                    g.compute_dv_grid, dvs, utc, **reg, **{
                        q: v for q, v in given.items() if q != k}),
                    'incomplete', k)
                ctx.event('refused')
        G, y, Cm, var = system(kw, g, dvs, utc, tw, f0, f1,
                               reg['scaling_factor'], reg['corr_len'],
                               reg['std_model'])
        snap = snapshot(dvs)
        S = G @ Cm @ G.T+np.diag(var)
        cond = np.linalg.cond(S)
        if not np.isfinite(cond) or cond > 1e9:
            ctx.event('badly_conditioned')
            continue
        tol = 1e-8+cond*1e-14
        args = reg | given
        it = dvs if rng.random() < .5 else iter(dvs)
        res = bool(rng.random() < .5)
        got = calm(g.compute_dv_grid, it, utc, compute_resolution=res, **args)
        ctx.event('inversions')
        ctx.event('measurements', len(use))
        want = Cm @ G.T @ np.linalg.solve(S, y)
        size = np.abs(Cm @ G.T).max()*np.abs(np.linalg.solve(S, y)).sum()
        ctx.eq(got.shape, g.xgrid.shape, 'shape', 'inversion')
        ctx.close(got.ravel(), want, 'least_squares', f'step {step}',
                  rtol=0, atol=tol*size)
        ctx.expect(got is g.vel_change or np.array_equal(got, g.vel_change),
                   'stored', 'vel_change')
        ctx.eq(snapshot(dvs), snap, 'input_changed', 'inversion')
        # the minimum of the cost function: the gradient vanishes there
        r = G @ got.ravel()-y
        lhs = got.ravel()+Cm @ G.T @ (r/var)
        ctx.close(lhs, np.zeros(len(lhs)), 'minimum', f'step {step}', rtol=0,
                  atol=tol*size*np.abs(S/var).max()*10)
        R = (Cm @ G.T @ np.linalg.solve(S, G)).sum(axis=1)
        if not res:
            r2 = calm(g.compute_resolution, iter(dvs), utc, **args)
            ctx.eq(r2.shape, g.xgrid.shape, 'shape', 'resolution')
        ctx.event('resolutions')
        ctx.close(g.resolution.ravel(), R, 'resolution', f'joint {res}',
                  rtol=0, atol=tol*max(1, np.abs(R).max())*100)
        ctx.expect(np.array_equal(got, g.vel_change), 'stored',
                   'vel_change after the resolution')
        if np.linalg.cond(Cm) < 1e8:
            C = calm(g.compute_posterior_covariance, dvs, utc, **args)
            Cw = Cm-Cm @ G.T @ np.linalg.solve(S, G @ Cm)
            ctx.event('covariances')
            ctx.close(C, Cw, 'covariance', f'step {step}', rtol=0, atol=(
                1e-8+1e-14*np.linalg.cond(Cm)*cond)*Cm[0, 0])
            ctx.expect(np.all(np.diag(C) <= Cm[0, 0]*(1+1e-6)) and np.all(
                np.diag(C) >= -1e-6*Cm[0, 0]), 'covariance_range', '')
        # permuted, with useless ones left out
        p = [dvs[i] for i in rng.permutation(m)]
        if rng.random() < .5:
            p = [d for d in p if usable(d, utc)]
        again = calm(g.compute_dv_grid, p, utc, **args)
        ctx.event('permuted')
        ctx.close(again, got, 'depends_on_order', f'step {step}', rtol=0,
                  atol=tol*size)
        f = float(rng.uniform(-5, 5))
        q = copy.deepcopy(dvs)
        for d in q:
            d.value = f*d.value
        again = calm(g.compute_dv_grid, q, utc, **args)
        ctx.event('linear')
        ctx.close(again, f*got, 'linear', f'step {step}', rtol=0,
                  atol=tol*size*6)
        if rng.random() < .4:
            cut = float(ctx.pick([.01, .2, .5]))
            sv = np.linalg.svd(G, compute_uv=False)
            if np.all(np.abs(sv/sv[0]-cut) > 1e-6):
                tq = calm(g.compute_dv_tsvd, dvs, utc, cutoff=cut, **given)
                U, s, V = np.linalg.svd(G, full_matrices=False)
                k = s > cut*s[0]
                w = V[k].T @ ((U[:, k].T @ y)/s[k])
                ctx.event('truncated')
                ctx.close(tq.ravel(), w, 'truncated', f'{cut}', rtol=0,
                          atol=1e-8*np.abs(y).sum()/s[k].min())
        for d in use:
            seen |= {(d.stats.stla, d.stats.stlo),
                     (d.stats.evla, d.stats.evlo)}
        xy = {tuple(np.round(cart(*s, kw['lat0'], kw['lon0']), 7))
              for s in seen}
        ctx.eq({tuple(np.round(x, 7)) for x in zip(g.statx, g.staty)}, xy,
               'stations', f'step {step}')
        ctx.eq(len(g.statx), len(xy), 'stations', f'step {step}')
        ctx.eq(set(zip(g.statlat, g.statlon)), seen, 'stations',
               f'step {step}')
    ctx.sig(m, g.xgrid.shape, str(given == {}))


@scenario(quick=300, thorough=9000)
def variances(ctx):
    """Formulas for data and model variance and coordinates."""
    from seismic.monitor import spatial as sp
    rng = ctx.rng
    c = rng.uniform(.01, 1, int(rng.integers(1, 30)))
    bw, fc = float(rng.uniform(.1, 5)), float(rng.uniform(.1, 5))
    tw = (float(rng.uniform(0, 30)),)
    tw += (tw[0]+float(rng.uniform(1, 40)),)
    got = sp.data_variance(c, bw, tw, fc)
    want = np.sqrt(1-c**2)/(2*c)*np.sqrt(
        6*np.sqrt(np.pi/2)/bw/((2*np.pi*fc)**2*(tw[1]**3-tw[0]**3)))
    ctx.event('variances', len(c))
    ctx.close(got, want, 'data_variance', '', rtol=1e-12)
    ctx.close(sp.data_variance(float(c[0]), bw, tw, fc), want[0],
              'data_variance', 'scalar', rtol=1e-12)
    o = np.argsort(c)
    ctx.expect(np.all(np.diff(got[o]) <= 0), 'data_variance',
               'decreases with the coherence')
    for bad in ((bw, tw[::-1], fc), (bw, (-1, 5), fc), (0, tw, fc),
                (bw, tw, 0), (bw, (tw[0], tw[0]), fc)):
        ctx.raises(ValueError, lambda: sp.data_variance(c, *bad), 'refused',
                   str(bad))
    ctx.event('refused')
    D = rng.uniform(0, 10, (5, 5))
    s, ln, sd = rng.uniform(.1, 5, 3)
    ctx.close(sp.compute_cm(s, ln, sd, D), (sd*s/ln)**2*np.exp(-D/ln),
              'model_variance', '', rtol=1e-12)
    lat0, lon0 = float(rng.uniform(-80, 80)), float(rng.uniform(-170, 170))
    lat, lon = lat0+rng.uniform(0, 3, 7), lon0+rng.uniform(0, 3, 7)
    x, y = sp.geo2cart(lat, lon, lat0, lon0)
    wx, wy = zip(*(cart(a, b, lat0, lon0) for a, b in zip(lat, lon)))
    ctx.close(x, wx, 'coordinates', 'easting', rtol=1e-9, atol=1e-6)
    ctx.close(y, wy, 'coordinates', 'northing', rtol=1e-9, atol=1e-6)
    ctx.raises(ValueError, lambda: sp.geo2cart(
        lat, lon-5, lat0, lon0), 'refused', 'west')
    ctx.raises(ValueError, lambda: sp.geo2cart(
        lat-5, lon, lat0, lon0), 'refused', 'south')
    ctx.sig(len(c), round(bw, 1))


def aligned_to(ctx, old, new, utc, steps, value, what):
    """The weighted mean about the time is the value, all move alike."""
    i = at(old, utc)
    lo, hi = max(0, i-steps), i+steps+1
    v, c = np.asarray(old.value)[lo:hi], np.asarray(old.corr)[lo:hi]
    ok = ~np.isnan(v) & ~np.isnan(c)
    shift = value-sum(v[ok]*c[ok])/sum(c[ok])
    scale = max(np.nanmax(np.abs(old.value)), abs(value), 1e-3)
    if abs(sum(c[ok])) < .05:
        return
    ctx.event('aligned')
    ctx.eq(np.isnan(new.value).tolist(), np.isnan(old.value).tolist(),
           'undefined', what)
    ctx.close(new.value, np.asarray(old.value)+shift, 'offset', what,
              rtol=0, atol=1e-9*scale/abs(sum(c[ok])))
    ctx.expect(np.array_equal(new.corr, old.corr, equal_nan=True),
               'coherence_changed', what)


@scenario(quick=150, thorough=5000, weight=2)
def alignment(ctx):
    """Series aligned to a value and, one by one, to a grid."""
    from seismic.monitor import spatial as sp
    from seismic.monitor.dv import read_dv
    rng = ctx.rng
    g, kw, stas = make_grid(ctx)
    t0 = synth.rand_time(rng, res=1.)
    n = int(rng.integers(6, 20))
    a, b = rng.uniform(2, 8, 2)*2*kw['res']/kw['vel']
    proc = dict(tw_start=float(a), tw_len=float(b), freq_min=.1, freq_max=1.)
    one = series(ctx, stas, t0, n, proc)
    steps = int(rng.integers(0, 6))
    for utc in [t0+600*int(rng.integers(0, n)) for _ in range(2)]:
        i = at(one, utc)
        if i is None:
            continue
        new = copy.deepcopy(one)
        value = float(rng.uniform(-1, 1))*ctx.pick([0, 1, .01])
        if np.isnan(one.value[i]):
            ctx.raises(ValueError, lambda: sp.align_dv_curves(
                new, utc, steps, value), 'undefined_time')
            ctx.event('refused')
            ctx.eq(snapshot([new]), snapshot([one]), 'changed_by_error', '')
            continue
        calm(sp.align_dv_curves, new, utc, steps, value)
        aligned_to(ctx, one, new, utc, steps, value, f'{i} of {n} {steps}')
        ctx.eq(new.dv_processing.get('aligned'), value, 'aligned_flag', '')
        ctx.eq({k: v for k, v in new.dv_processing.items()
                if k != 'aligned'}, proc, 'processing', '')
    # the whole network, several times
    m = int(rng.integers(1, 8))
    dvs = [series(ctx, stas, t0, n, proc) for _ in range(m)]
    done = set()
    folder = ctx.tmp()
    for step in range(4):
        utc = t0+600*int(rng.integers(-1, n))
        thres = float(ctx.pick([0., 5e-4, .5, -1.]))
        if step and rng.random() < .8:
            g.vel_change = .01*rng.standard_normal(g.xgrid.shape)
        old = copy.deepcopy(dvs)
        save = folder if rng.random() < .4 else False
        # no measurement there
        part = [d for d in dvs if rng.random() < .8]
        before = len(part)
        try:
            out = calm(g.align_dvs_to_grid, part, utc, steps, thres, save)
        except ValueError as e:
            ctx.fail('not_alignable', f'{e}')
            return
        ctx.eq(len(part), before, 'input_changed', 'list of series')
        names = {}
        for d, o in zip(dvs, old):
            i = at(o, utc)
            start = i is not None and np.sum(~np.isnan(o.corr)) >= 6 and \
                not np.isnan(o.corr[i]) and not np.isnan(o.value[i]) and \
                o.corr[i] >= thres
            if hasattr(g, 'vel_change'):
                start = start and usable(o, utc)
            start = start and any(d is p for p in part) and \
                id(d) not in done
            ctx.eq(any(d is x for x in out), bool(start), 'selection',
                   f'step {step}')
            if not start:
                ctx.event('not_aligned')
                ctx.eq(snapshot([d]), snapshot([o]), 'others_changed',
                       f'step {step}')
                continue
            done.add(id(d))
            value = 0.
            if hasattr(g, 'vel_change'):
                t = proc['tw_start']+proc['tw_len']/2
                K = real(*(np.array(cart(*s, kw['lat0'], kw['lon0']))
                           for s in ((o.stats.stla, o.stats.stlo),
                                     (o.stats.evla, o.stats.evlo))),
                         g.xaxis, g.yaxis, t, kw['dt'], kw['vel'],
                         kw['mf_path'])
                value = float(np.sum(kw['res']**2/t*K*g.vel_change))
                ctx.event('aligned_to_grid')
            aligned_to(ctx, o, d, utc, steps, value, f'network {step}')
            ctx.close(d.dv_processing['aligned'], value, 'aligned_flag', '',
                      rtol=1e-9, atol=1e-12)
            names[d.stats.id] = d
        if save:
            for name, d in names.items():
                f = f'{save}/DV-{name}.npz'
                ctx.expect(os.path.isfile(f), 'saved', name)
                r = read_dv(f)
                ctx.event('saved')
                ctx.expect(np.array_equal(r.value, d.value, equal_nan=True),
                           'saved', name)
                ctx.expect(r.dv_processing['aligned'] is not False, 'saved',
                           'flag')
    ctx.sig(m, n, steps, len(done))
