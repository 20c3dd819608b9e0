"""
Sensitivity kernels of random geometries (stations on and between the nodes of
the grid, together, far apart, outside of it) are recomputed from the formula
of the diffusive model by another integration; stations are exchanged, the
geometry is reflected, transposed, moved and slowed down and the kernel is
computed again. Grids answer random histories of forward problems, which are
compared with these kernels and with fresh grids.
"""
import copy
import warnings

import numpy as np

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'values exactly on the front of the wave, where rounding decides, are '
    'not compared',
    'the integration uses equal steps of at most the given sampling interval',
    'the parameters of a grid do not change during its life',
    'all measurements of one forward problem share a lapse window']
REQUIRED = {'exact_extents': 30, 'kernel_values': 20000, 'symmetries': 400, 'auto': 80,
            'on_node': 60, 'beyond': 10, 'odd_lapse_times': 100,
            'decimal_grids': 100, 'probabilities': 8000, 'forward': 800,
            'repeated': 100, 'unit_maps': 200, 'refused': 100}


def density(r, t, v, mf, atol):
    """Energy at the distances r after time t (Paasschens, 1997)."""
    r = np.asarray(r, float)
    out = np.zeros(r.shape)
    vt = v*t
    front = np.abs(r-vt) <= atol+1e-5*abs(vt)
    at = front & (r == 0)
    out[at] = 1.
    f = front & (r > 0)
    out[f] = np.exp(-vt/mf)/(2*np.pi*r[f])
    ins = vt-r-atol > 0
    root = np.sqrt(vt**2-r[ins]**2)
    out[ins] += np.exp((root-vt)/mf)/(2*np.pi*mf*root)
    return out


def kernel(s1, s2, x, y, t, dt, v, mf, eps=0.):
    atol = v*dt/2*(1+eps)
    n = int(np.ceil(round(t/dt, 6)))
    X, Y = np.meshgrid(x, y)
    r1, r2 = np.hypot(X-s1[0], Y-s1[1]), np.hypot(X-s2[0], Y-s2[1])
    den = density(np.array([np.hypot(*(np.asarray(s1)-s2))]), t, v, mf,
                  atol)[0]
    if den == 0:
        return np.zeros(X.shape)
    out = np.zeros(X.shape)
    for i in range(n+1):
        w = .5 if i in (0, n) else 1.
        tt = t*i/n
        out += w*density(r1, tt, v, mf, atol)*density(r2, t-tt, v, mf, atol)
    return out*t/n/den


def robust(*a, **kw):
    """Kernel and where it does not depend on rounding."""
    k = kernel(*a, **kw)
    lo, hi = (kernel(*a, eps=e) for e in (-1e-7, 1e-7))
    ok = (np.abs(lo-k) <= 1e-9*np.abs(k)) & (np.abs(hi-k) <= 1e-9*np.abs(k))
    return k, ok


def near(ctx, got, want, ok, mech, msg, rtol=1e-8):
    got, want = np.asarray(got), np.asarray(want)
    ctx.eq(got.shape, want.shape, 'shape', msg)
    scale = np.max(np.abs(want[ok])) if ok.any() else 0.
    ctx.close(np.where(ok, got, 0), np.where(ok, want, 0), mech, msg,
              rtol=rtol, atol=1e-12*scale)


def geometry(ctx):
    rng = ctx.rng
    res = float(ctx.pick([1., .5, 2., .1, .3, .7]))
    if res in (.1, .3, .7):
        ctx.event('decimal_grids')
    nx, ny = int(rng.integers(4, 16)), int(rng.integers(4, 16))
    o = rng.uniform(-5, 5, 2)*(rng.random() < .5)
    x = o[0]+res*np.arange(nx)
    y = o[1]+res*np.arange(ny)
    v = float(ctx.pick([.5, 1., 2., 3.1, rng.uniform(.2, 6)]))
    dt = res/(2*v)*float(rng.uniform(.25, 1))

    def place():
        if rng.random() < .3:
            ctx.event('on_node')
            return np.array([ctx.pick(list(x)), ctx.pick(list(y))])
        return np.array([rng.uniform(x[0]-res, x[-1]+res),
                         rng.uniform(y[0]-res, y[-1]+res)])
    s1 = place()
    s2 = s1.copy() if rng.random() < .3 else place()
    d = np.hypot(*(s1-s2))
    t = (d+rng.uniform(.1, 8)*res)/v
    if rng.random() < .1 and d:
        t = d/v*.7
        ctx.event('beyond')
    if rng.random() < .4:
        t = max(1, round(t/dt))*dt
    else:
        ctx.event('odd_lapse_times')
    if (s1 == s2).all():
        ctx.event('auto')
    mf = float(10**rng.uniform(-.5, 2))
    ctx.note(res=res, n=(nx, ny), v=v, dt=dt, t=float(t), mf=mf,
             s1=s1.tolist(), s2=s2.tolist())
    return s1, s2, x, y, float(t), float(dt), v, mf


def real(*a):
    from seismic.monitor.spatial import sensitivity_kernel
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return sensitivity_kernel(*a)


@scenario(quick=400, thorough=12000)
def kernels(ctx):
    """The formula and the symmetries."""
    rng = ctx.rng
    g = geometry(ctx)
    s1, s2, x, y, t, dt, v, mf = g
    keep = copy.deepcopy(g)
    K = real(*g)
    for a, b in zip(g, keep):
        ctx.expect(np.array_equal(a, b), 'input_changed', '')
    want, ok = robust(*g)
    ctx.event('kernel_values', int(ok.sum()))
    near(ctx, K, want, ok, 'kernel', '')
    ctx.expect(np.all(np.isfinite(K)) and np.all(K >= 0), 'negative', '')
    X, Y = np.meshgrid(x, y)
    r = np.hypot(X-s1[0], Y-s1[1])+np.hypot(X-s2[0], Y-s2[1])
    ctx.expect(not K[r > v*(t+1.01*dt)+2e-5*v*t].any(), 'causality',
               'sensitivity where no wave can have been')
    how = ctx.pick(['exchange', 'reflect_x', 'reflect_y', 'transpose', 'move',
                    'slow', 'single'])
    ctx.event('symmetries')
    if how == 'exchange':
        near(ctx, real(s2, s1, x, y, t, dt, v, mf), K, ok, 'symmetry', how)
    elif how == 'reflect_x':
        m = np.array([-1, 1])
        near(ctx, real(m*s1, m*s2, -x[::-1], y, t, dt, v, mf)[:, ::-1], K,
             ok, 'symmetry', how)
    elif how == 'reflect_y':
        m = np.array([1, -1])
        near(ctx, real(m*s1, m*s2, x, -y[::-1], t, dt, v, mf)[::-1], K, ok,
             'symmetry', how)
    elif how == 'transpose':
        near(ctx, real(s1[::-1], s2[::-1], y, x, t, dt, v, mf).T, K, ok,
             'symmetry', how)
    elif how == 'move':
        o = rng.uniform(-50, 50, 2).round()
        # distances of zero are special
        X0 = (np.hypot(X-s1[0], Y-s1[1]) > 1e-6) & (
            np.hypot(X-s2[0], Y-s2[1]) > 1e-6)
        if np.hypot(*(s1-s2)) > 1e-6:
            near(ctx, real(s1+o, s2+o, x+o[0], y+o[1], t, dt, v, mf), K,
                 ok & X0, 'symmetry', how, rtol=1e-6)
    elif how == 'slow':
        f = float(ctx.pick([2., 4., .5]))
        near(ctx, real(s1, s2, x, y, f*t, f*dt, v/f, mf), f*K, ok,
             'symmetry', how)
    else:
        i, j = int(rng.integers(1, len(x)-1)), int(rng.integers(1, len(y)-1))
        near(ctx, real(s1, s2, x[i-1:i+2], y[j-1:j+2], t, dt, v, mf),
             K[j-1:j+2, i-1:i+2], ok[j-1:j+2, i-1:i+2], 'symmetry', how)
    for a, b in (((s1, s2, x, y, t, 0., v, mf), 'dt'),
                 ((s1, s2, x, y, t, -dt, v, mf), 'dt'),
                 ((s1, s2, x**3+x, y, t, dt, v, mf), 'axis'),
                 ((s1, s2, x, y**3+y, t, dt, v, mf), 'axis')):
        if rng.random() < .2:
            ctx.raises(ValueError, lambda a=a: real(*a), f'invalid_{b}')
            ctx.event('refused')
    ctx.sig(how, len(x), len(y), round(t, 2))


@scenario(quick=200, thorough=6000)
def probabilities(ctx):
    """Arrays of distances and times, element by element."""
    from seismic.monitor.spatial import probability
    rng = ctx.rng
    v, mf = float(rng.uniform(.3, 4)), float(10**rng.uniform(-1, 2))
    atol = float(10**rng.uniform(-3, 0))
    r = rng.uniform(0, 20, (int(rng.integers(1, 9)), int(rng.integers(1, 9))))
    r[rng.random(r.shape) < .1] = 0
    t = rng.uniform(0, 20, int(rng.integers(1, 6)))/v
    t[rng.random(len(t)) < .1] = 0
    k = rng.random(r.shape) < .2
    r[k] = np.abs(v*ctx.pick(list(t))+atol*rng.uniform(-.9, .9, k.sum()))
    with np.errstate(all='ignore'):
        P = probability(r, t, v, mf, atol)
    ctx.eq(P.shape, (len(t),)+r.shape, 'shape', '')
    for i, tt in enumerate(t):
        want = density(r, tt, v, mf, atol)
        ok = np.all([np.abs(density(r, tt, v, mf, atol*e)-want)
                     <= 1e-12*np.abs(want) for e in (1-1e-8, 1+1e-8)], axis=0)
        ctx.event('probabilities', int(ok.sum()))
        near(ctx, P[i], want, ok, 'probability', 'array of times', rtol=1e-9)
        with np.errstate(all='ignore'):
            near(ctx, probability(r, float(tt), v, mf, atol), want, ok,
                 'probability', 'one time', rtol=1e-9)
            a, b = (int(rng.integers(n)) for n in r.shape)
            one = probability(float(r[a, b]), float(tt), v, mf, atol) \
                if tt > 0 else want[a, b]
        if ok[a, b]:
            ctx.close(one, want[a, b], 'probability', 'scalar', rtol=1e-9)
    ctx.raises(ValueError, lambda: probability(r-21, t, v, mf, atol),
               'negative_distance')
    ctx.raises(ValueError, lambda: probability(r, -t-1.1*atol/v-1, v, mf, atol),
               'negative_time')
    ctx.event('refused')
    ctx.sig(r.shape, len(t))


def make_grid(ctx):
    from seismic.monitor.spatial import DVGrid
    rng = ctx.rng
    res = float(ctx.pick([1., .5, .1, .3]))
    if res in (.1, .3):
        ctx.event('decimal_grids')
    nx, ny = int(rng.integers(3, 12)), int(rng.integers(3, 12))
    lat0, lon0 = float(rng.uniform(-60, 60)), float(rng.uniform(-150, 150))
    v = float(ctx.pick([1., 2., 3.1, rng.uniform(.2, 6)]))
    # the extent is a multiple of the resolution or something less
    less = float(ctx.pick([0., 0., .2, .5]))*res
    if not less:
        ctx.event('exact_extents')
    kw = dict(lat0=lat0, lon0=lon0, res=res, x=round((nx-1)*res-less, 9),
              y=round((ny-1)*res-less, 9), dt=res/(2*v)*float(rng.uniform(.3, .9)),
              vel=v, mf_path=float(10**rng.uniform(0, 2)))
    g = DVGrid(**kw)
    ctx.eq((len(g.xaxis), len(g.yaxis)), (nx, ny), 'axis', f'points {kw}')
    ctx.close(g.xaxis, res*np.arange(nx), 'axis', 'x', atol=1e-9)
    ctx.close(g.yaxis, res*np.arange(ny), 'axis', 'y', atol=1e-9)
    ctx.eq(g.xgrid.shape, (ny, nx), 'shape', 'grid')
    ctx.close(g.xgrid, np.tile(g.xaxis, (ny, 1)), 'axis', 'xgrid')
    ctx.close(g.ygrid, np.tile(g.yaxis[:, None], (1, nx)), 'axis', 'ygrid')
    stations = []
    for _ in range(int(rng.integers(2, 6))):
        stations.append((
            lat0+float(rng.uniform(0, ny*res))/111.19,
            lon0+float(rng.uniform(0, nx*res))/111.19/np.cos(
                np.deg2rad(lat0))))
    return g, kw, stations


def cart(lat, lon, lat0, lon0):
    """Northing along the meridian, easting along the great circle."""
    R = 6371.
    a, d = np.deg2rad(lat0), np.deg2rad(lon-lon0)
    h = np.cos(a)**2*np.sin(d/2)**2
    return 2*R*np.arcsin(np.sqrt(h)), R*np.deg2rad(lat-lat0)


def rows(kw, g, pairs, t):
    out, sure = [], []
    for a, b in pairs:
        k, ok = robust(
            np.array(cart(*a, kw['lat0'], kw['lon0'])),
            np.array(cart(*b, kw['lat0'], kw['lon0'])), g.xaxis, g.yaxis, t,
            kw['dt'], kw['vel'], kw['mf_path'])
        out.append(kw['res']**2/t*k.ravel())
        sure.append(ok.ravel())
    return np.array(out), np.array(sure)


@scenario(quick=120, thorough=3000, weight=3)
def history(ctx):
    """A sequence of forward problems on one grid."""
    from seismic.monitor.spatial import DVGrid
    from seismic.monitor.dv import DV
    rng = ctx.rng
    g, kw, stas = make_grid(ctx)
    windows = [(float(a), float(a+b)) for a, b in rng.uniform(
        2, 8, (2, 2))*kw['res']/kw['vel']*2]
    ctx.note(stations=len(stas), shape=g.xgrid.shape, kw=str(kw))
    done = {}
    for step in range(int(rng.integers(4, 9))):
        n = int(rng.integers(1, 6))
        pairs = [(ctx.pick(stas), ctx.pick(stas)) for _ in range(n)]
        tw = ctx.pick(windows)
        if done and rng.random() < .3:
            pairs, tw = ctx.pick([list(k) for k in done])
            pairs = list(pairs)
            ctx.event('repeated')
        unit = rng.random() < .4
        if unit:
            m = np.zeros(g.xgrid.shape)
            m[int(rng.integers(m.shape[0])), int(rng.integers(
                m.shape[1]))] = 1.
            ctx.event('unit_maps')
        else:
            m = rng.standard_normal(g.xgrid.shape)
        m0 = m.copy()
        ctx.event('forward', len(pairs))
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            if rng.random() < .6:
                args = dict(stat0=[p[0] for p in pairs],
                            stat1=[p[1] for p in pairs], tw=tw)
                got = g.forward_model(m, **args)
            else:
                dvs = []
                t0 = synth.rand_time(rng, res=1.)
                for (a, b) in pairs:
                    st = synth.bulk(np.zeros((3, 5)), [
                        t0+600*i for i in range(3)], sr=1., start_lag=-2.,
                        length=600., rng=rng).stats
                    st.update(dict(stla=a[0], stlo=a[1], evla=b[0],
                                   evlo=b[1]))
                    dvs.append(DV(
                        np.full(3, .8), rng.standard_normal(3), 'stretch',
                        np.zeros((3, 2)), np.zeros(2), 'x', stats=st,
                        dv_processing=dict(
                            tw_start=tw[0], tw_len=tw[1]-tw[0],
                            freq_min=.1, freq_max=1.)))
                it = dvs if rng.random() < .5 else iter(dvs)
                got = g.forward_model(m, dvs=it, utc=t0+600)
            fresh = DVGrid(**kw).forward_model(
                m, stat0=[p[0] for p in pairs], stat1=[p[1] for p in pairs],
                tw=tw)
        ctx.expect(np.array_equal(m, m0), 'input_changed', 'map')
        ctx.eq(got.shape, (len(pairs),), 'shape', 'forward')
        t = sum(tw)/2
        G, ok = rows(kw, g, pairs, t)
        ctx.close(got, fresh, 'depends_on_history', f'step {step}',
                  rtol=1e-12, atol=1e-15)
        for i in range(len(pairs)):
            if ok[i].all() or unit:
                j = m.ravel() != 0
                if ok[i][j].all():
                    ctx.close(got[i], G[i] @ m.ravel(), 'forward_model',
                              f'{i} of {len(pairs)} step {step}', rtol=1e-6,
                              atol=1e-8*np.abs(G[i]).max())
        # linear in the map
        f = float(rng.uniform(-3, 3))
        m2 = rng.standard_normal(m.shape)
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            a = dict(stat0=[p[0] for p in pairs], stat1=[p[1] for p in pairs],
                     tw=tw)
            r2 = g.forward_model(m2, **a)
            ctx.close(g.forward_model(f*m+m2, **a), f*got+r2, 'linear', '',
                      rtol=1e-9, atol=1e-12*np.abs(G).max()*m.size)
        done[(tuple(pairs), tw)] = got
    ctx.raises(ValueError, lambda: g.forward_model(
        np.zeros((g.xgrid.shape[0]+1, g.xgrid.shape[1])), **a), 'shape_error')
    ctx.raises(TypeError, lambda: g.forward_model(
        np.zeros(g.xgrid.shape), tw=tw), 'incomplete')
    ctx.event('refused', 2)
    ctx.sig(len(stas), g.xgrid.shape, round(kw['res'], 2))
