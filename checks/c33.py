"""
Random correlations, velocity changes, coherences, spectra and maps are
plotted. A monitor reads what the figure shows from its artists (positions and
colours of images and meshes, lines and points, limits, in the units of the
axes), renders it, and compares each shown value with the value of the data at
the time, lag, frequency or coordinate of that position.
"""
import copy
import fnmatch
import os
import warnings

import numpy as np

from obspy import UTCDateTime

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'positions are compared within the cell of an image that contains them '
    '(images of bulks and velocity changes span the range from the first to '
    'the last sample)',
    'sections against distance hold symmetric correlations, those with '
    'azimuths of 180 degrees and more are mirrored',
    'velocity changes are shown as the negative of the measured stretches, '
    'in percent in the publication style and in maps',
    'start times in heat maps differ between traces']
REQUIRED = {'figures': 500, 'values_shown': 100000, 'lines': 700,
            'fields': 300, 'given_axes': 100, 'points': 600, 'saved': 100,
            'gaps': 60, 'limits': 150, 'rendered': 250, 'corrupt': 6,
            'scatter': 5, 'odd_grids': 30, 'undefined_elements': 50,
            'marked': 25, 'titles': 50}


def calm(f, *a, **kw):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **kw)


def shown(ctx, field, x, y, want, mech, msg='', rtol=1e-6):
    """The field shows want[i, j] at (x[j], y[i])."""
    got = field.at(x, y)
    ctx.event('fields')
    ctx.expect(got is not None, mech, msg + ' not everything is shown')
    ctx.event('values_shown', got.size)
    s = np.nanmax(np.abs(want)) if np.isfinite(want).any() else 1.
    ctx.close(got, want, mech, msg, rtol=rtol, atol=rtol*s)


def target(ctx):
    """Axes to plot into, not the current ones."""
    from matplotlib import pyplot as plt
    if ctx.chance(.55):
        return {}, None
    fig, axs = plt.subplots(2, 2)
    axs = list(axs.ravel())
    ax = axs[int(ctx.rng.integers(4))]
    other = [a for a in axs if a is not ax]
    plt.sca(other[int(ctx.rng.integers(3))])
    ctx.event('given_axes')
    return {'ax': ax}, other


def drawn(ctx, ax, kw, other, render=True):
    from vlib import figs
    ctx.event('figures')
    if other is not None:
        ctx.expect(ax is kw['ax'], 'axes', 'other axes are returned')
        for a in other:
            ctx.expect(not a.has_data() and not a.get_xlabel()
                       and not a.get_title(), 'axes',
                       'plotted into other axes than the given ones')
    if render and ctx.chance(.5):
        calm(figs.draw, ax)
        ctx.event('rendered')


def tidy(f):
    """Close all figures after the case."""
    def g(ctx):
        from vlib import figs
        try:
            return f(ctx)
        finally:
            figs.close()
    g.__name__, g.__doc__ = f.__name__, f.__doc__
    g.__module__ = f.__module__
    return g


def rand_stream(ctx, dist=False):
    from seismic.correlate.stream import CorrStream
    rng = ctx.rng
    sr = float(rng.choice([1, 5, 10]))
    half = int(rng.integers(5, 40))
    n = 2*half+1
    start_lag = -half/sr
    if not dist and rng.random() < .4:
        start_lag = float(rng.integers(-20, 5))
    t0 = synth.rand_time(rng, res=1.)
    m = int(rng.integers(2, 9))
    at = np.sort(rng.choice(40, m, replace=False)) if rng.random() < .5 \
        else np.arange(m)
    trs = []
    dists = rng.permutation(60)[:m]*.7+1.
    for k, i in enumerate(at):
        tr = synth.corr_trace(
            rng.uniform(-1, 1, n).astype(np.float32), net='XX-XX',
            sta='A-B' if not dist else f'A-B{k}', cha='HHZ-HHZ',
            start=t0+600*float(i), length=600., sr=sr, start_lag=start_lag)
        tr.stats['dist'] = float(dists[k])
        tr.stats['az'] = float(rng.uniform(0, 360))
        tr.stats['baz'] = float(rng.uniform(0, 360))
        trs.append(tr)
    trs = [trs[i] for i in rng.permutation(m)]
    return CorrStream(trs)


@scenario(quick=120, thorough=2500, weight=2)
@tidy
def traces(ctx):
    """A single correlation."""
    from vlib import figs
    rng = ctx.rng
    tr = rand_stream(ctx)[0]
    kw, other = target(ctx)
    t = tr.times()
    tlim = ctx.pick([None, sorted(rng.uniform(t[0], t[-1], 2).tolist())])
    out = ctx.pick([None, ctx.tmp()])
    ax = calm(tr.plot, tlim=tlim, outputdir=out, clean=bool(
        rng.random() < .3), **kw)
    drawn(ctx, ax, kw, other)
    (x, y, _), = figs.lines(ax)
    ctx.event('lines')
    ctx.event('values_shown', len(x))
    ctx.close(x, t, 'lag', 'single correlation', atol=1e-9)
    ctx.close(y, tr.data, 'values', 'single correlation', atol=1e-9)
    ctx.event('limits')
    ctx.close(ax.get_xlim(), tlim or (t[0], t[-1]), 'limits', 'lag',
              atol=1e-9)
    if out:
        f = os.listdir(out)
        ctx.expect(len(f) == 1 and f[0].startswith(tr.get_id()), 'file',
                   str(f))
        ctx.event('saved')
    ctx.sig(len(t), tlim is None)


def common(ctx, st, times):
    """Random limits and keywords."""
    rng = ctx.rng
    kw = {}
    if rng.random() < .4:
        kw['timelimits'] = sorted(rng.uniform(
            times[0], times[-1], 2).tolist())
    if rng.random() < .3:
        kw['title'] = 'My title'
    if rng.random() < .3:
        kw['outputfile'] = ctx.tmp() + '/f.png'
    return kw


@scenario(quick=200, thorough=4000, weight=3)
@tidy
def streams(ctx):
    """Heat maps and sections of a stream."""
    from vlib import figs
    rng = ctx.rng
    by = ctx.pick(['corr_start', 'distance', 'dist'])
    kind = ctx.pick(['heatmap', 'section'])
    st = rand_stream(ctx, by != 'corr_start')
    t = st[0].times()
    kw, other = target(ctx)
    opts = common(ctx, st, t)
    if by == 'corr_start' and rng.random() < .3:
        a, b = sorted(tr.stats.corr_start for tr in st)[::len(st)-1]
        opts['ylimits'] = (a.datetime, b.datetime)
    elif by != 'corr_start' and rng.random() < .3:
        opts['ylimits'] = (0., float(rng.uniform(20, 50)))
    ref = by != 'corr_start' and rng.random() < .3
    if ref:
        opts.update(plot_reference_v=True, ref_v=[1, 2])
    factor = float(ctx.pick([1., 2., 5.]))
    ctx.note(by=by, kind=kind, n=len(st), opts=str(opts))
    ax = calm(st.plot, sort_by=by, type=kind, scalingfactor=factor, **opts,
              **kw)
    drawn(ctx, ax, kw, other)
    flip = [by != 'corr_start' and tr.stats.az >= 180 for tr in st]
    pos = [figs.day(tr.stats.corr_start) if by == 'corr_start'
           else tr.stats.dist for tr in st]
    if kind == 'heatmap':
        f, = figs.fields(ax)
        want = np.array([tr.data[::-1] if q else tr.data
                         for tr, q in zip(st, flip)])
        shown(ctx, f, t, pos, want, 'values', f'heat map by {by}')
    else:
        ll = figs.lines(ax)[:len(st)]
        ctx.eq(len(ll), len(st), 'lines', 'section')
        unit = None
        for tr, q, p in zip(st, flip, pos):
            # the line with this base
            x0 = -t if q else t
            data = tr.data.astype(float)
            best = []
            for x, y, ln in ll:
                d = y-p
                s = np.dot(d, data)/np.dot(data, data)
                best.append((np.max(np.abs(d-s*data)), s, x))
            err, s, x = min(best, key=lambda v: v[0])
            ctx.event('lines')
            ctx.event('values_shown', len(x))
            ctx.close(x, x0, 'lag', f'section by {by}', atol=1e-9)
            tol = 1e-8 if by == 'corr_start' else 1e-6
            ctx.expect(err < tol*max(1, abs(s)) and s > 0, 'values',
                       f'section by {by}', err=err, scale=s)
            unit = unit or s
            ctx.close(s, unit, 'scale', 'differs between traces', rtol=1e-4)
    ctx.event('limits')
    ctx.close(ax.get_xlim(), opts.get('timelimits', (t[0], t[-1])), 'limits',
              f'lag, {kind} by {by}', atol=1e-9)
    if 'ylimits' in opts:
        want = opts['ylimits']
        if by == 'corr_start':
            want = [figs.day(v) for v in want]
        ctx.close(ax.get_ylim(), want, 'limits', f'{kind} by {by}',
                  atol=1e-6)
    elif by == 'corr_start':
        ctx.expect(ax.yaxis_inverted(), 'order', 'later ones are on top')
    if 'title' in opts:
        ctx.eq(ax.get_title(), opts['title'], 'title', kind)
    if 'outputfile' in opts:
        ctx.expect(os.path.isfile(opts['outputfile']), 'file', 'not saved')
        ctx.event('saved')
    ctx.sig(by, kind, len(st), sum(flip))


@scenario(quick=120, thorough=2500, weight=2)
@tidy
def bulks(ctx):
    """The matrix of a bulk."""
    from vlib import figs
    rng = ctx.rng
    sr = float(rng.choice([1, 5, 10]))
    n, m = int(rng.integers(5, 80)), int(rng.integers(2, 20))
    A = rng.standard_normal((m, n))
    if rng.random() < .4:
        A[int(rng.integers(m))] = np.nan
        ctx.event('gaps')
    t0 = synth.rand_time(rng, res=1.)
    inc = float(ctx.pick([600, 3600, 86400]))
    b = synth.bulk(A, [t0+i*inc for i in range(m)], sr=sr,
                   start_lag=float(rng.integers(-20, 3)), length=inc, rng=rng)
    kw, other = target(ctx)
    t = b.stats.start_lag+np.arange(n)/sr
    opts = common(ctx, b, t)
    if rng.random() < .3:
        opts['clim'] = (-.5, .75)
    if rng.random() < .3:
        opts['plot_colorbar'] = True
    if rng.random() < .3:
        s = b.stats.corr_start
        opts['ylimits'] = (s[0].datetime, s[-1].datetime)
    ax = calm(b.plot, **opts, **kw)
    drawn(ctx, ax, kw, other)
    f, = figs.fields(ax)
    shown(ctx, f, t, [figs.day(s) for s in b.stats.corr_start], A, 'values',
          'bulk')
    if 'clim' in opts:
        ctx.close(f.artist.get_clim(), opts['clim'], 'limits', 'colours')
    ctx.event('limits')
    ctx.close(ax.get_xlim(), opts.get('timelimits', (t[0], t[-1])), 'limits',
              'lag', atol=1e-9)
    if 'ylimits' in opts:
        ctx.close(ax.get_ylim(), [figs.day(v) for v in opts['ylimits']],
                  'limits', 'time', atol=1e-9)
    if 'outputfile' in opts:
        ctx.expect(os.path.isfile(opts['outputfile']), 'file', 'not saved')
        ctx.event('saved')
    ctx.sig(m, n, len(opts))


def rand_dv(ctx, m=None, t0=None, sta='A-B', kind=None):
    from seismic.monitor.dv import DV
    from seismic.correlate.stats import CorrStats
    rng = ctx.rng
    m = m or int(rng.integers(3, 30))
    k = 2*int(rng.integers(3, 20))+1
    kind = kind or ctx.pick(['single_ref', 'single_ref', 'multi_ref',
                             'time_shift', 'absolute_shift'])
    top = float(rng.uniform(.01, .1)) if 'ref' in kind else \
        float(rng.uniform(5, 20)) if kind == 'time_shift' else \
        float(rng.uniform(.1, 2.))
    second = np.linspace(-top, top, k)
    if rng.random() < .2:
        # not around zero
        second = np.linspace(-top*float(rng.uniform(.1, 3)), top, k)
        ctx.event('odd_grids')
    t0 = t0 or synth.rand_time(rng, res=1.)
    sim = rng.uniform(-1, 1, (m, k))
    if rng.random() < .4:
        sim[rng.random(m) < .3] = np.nan
        ctx.event('gaps')
    if rng.random() < .3:
        # shifted similarities do not reach the ends of the grid
        sim[:, :int(rng.integers(k//2))] = np.nan
        sim[rng.random(sim.shape) < .05] = np.nan
        ctx.event('undefined_elements')
    value = second[np.argmax(np.where(
        np.isnan(sim), -2., sim), axis=1)].astype(float)
    corr = calm(np.nanmax, sim, axis=1)
    value[np.isnan(corr)] = np.nan
    h = synth.corr_header(net='XX-XX', sta=sta, cha='HHZ-HHZ', npts=101)
    st = CorrStats(h)
    st['corr_start'] = [t0+3600.*i for i in range(m)]
    st['corr_end'] = [t0+3600.*i+3600. for i in range(m)]
    st['location'] = ['-']*m
    return DV(corr, value, 'stretch' if 'ref' in kind else 'shift', sim,
              second, kind, st)


@scenario(quick=200, thorough=4000, weight=3)
@tidy
def changes(ctx):
    """Velocity changes in both styles."""
    from vlib import figs
    rng = ctx.rng
    dv = rand_dv(ctx)
    m = len(dv.value)
    days = [figs.day(t) for t in dv.stats.corr_start]
    style = ctx.pick(['technical', 'technical', 'publication'])
    xlim = ylim = None
    if rng.random() < .3:
        a, b = sorted(rng.choice(m, 2, replace=False))
        xlim = tuple(dv.stats.corr_start[i].datetime for i in (a, b))
    if rng.random() < .3:
        ylim = (-.4*dv.second_axis.max(), .7*dv.second_axis.max())
    norm = bool(rng.random() < .4)
    clim = ctx.pick([[], [-.5, .5]])
    ctx.event('limits')
    ctx.note(style=style, kind=dv.method, m=m, xlim=xlim, ylim=ylim)
    if style == 'publication':
        if not np.isfinite(dv.corr).any():
            return
        kw, other = target(ctx)
        fig, ax = calm(dv.plot, style=style, xlim=xlim, ylim=ylim,
                       return_ax=True, **kw)
        drawn(ctx, ax, kw, other)
        ctx.expect(ax.figure is fig, 'axes', 'figure')
        ok = ~np.isnan(dv.corr)
        (x, y, c), = figs.points(ax)
        ctx.event('points', len(x))
        ctx.close(x, np.array(days)[ok], 'time', style, atol=1e-9)
        ctx.close(y, -100*dv.value[ok], 'values', style, atol=1e-9)
        ctx.close(c, dv.corr[ok], 'colours', style, atol=1e-9)
        want = [figs.day(v) for v in xlim] if xlim else [
            np.array(days)[ok].min(), np.array(days)[ok].max()]
        if want[0] < want[1]:
            ctx.close(ax.get_xlim(), want, 'limits', 'time', atol=1e-9)
        if ylim:
            ctx.close(ax.get_ylim(), ylim, 'limits', style, atol=1e-9)
        ctx.sig(style, m)
        return
    scatter = bool(rng.random() < .3)
    if scatter:
        q = int(rng.integers(2, 6))
        dv.stretches = np.repeat(dv.value[None], q, 0) + \
            .001*rng.standard_normal((q, m))
        dv.corrs = np.repeat(dv.corr[None], q, 0)
        dv.n_stat = rng.integers(1, q+1, m)
        if min(dv.sim_mat.shape) < 10:
            scatter = False
    mark = None
    if rng.random() < .4:
        when = dv.stats.corr_start[int(rng.integers(m))]
        when = when - when.timestamp % 1
        mark = ctx.pick([when.datetime, str(when)[:19], str(when)[:10]])
        ctx.event('marked')
    title = ctx.pick([None, None, 'My title'])
    fig, axs = calm(dv.plot, style=style, xlim=xlim, ylim=ylim,
                    return_ax=True, normalize_simmat=norm, sim_mat_Clim=clim,
                    plot_scatter=scatter, mark_time=mark, title=title)
    drawn(ctx, axs[0], {}, None)
    ctx.event('titles')
    code = '.'.join(str(dv.stats[k]) for k in (
        'network', 'station', 'channel'))
    if title:
        ctx.eq(axs[0].get_title(), title, 'title', style)
    else:
        ctx.expect(code in axs[0].get_title(), 'title', style,
                   got=axs[0].get_title(), want=code)
    kind = 'dv/v' if dv.value_type == 'stretch' else 'time shift'
    for ax in axs[:2]:
        ctx.expect(kind in ax.get_ylabel().lower(), 'label', style,
                   got=ax.get_ylabel(), want=kind)
    ctx.event('labels')
    # similarities, stretch axis with its sign changed as well
    f = [q for q in figs.fields(axs[0])]
    ctx.eq(len(f), 1, 'similarity', 'images')
    sim = dv.sim_mat
    if norm:
        sim = sim/calm(np.nanmax, sim, axis=1, keepdims=True)
    shown(ctx, f[0], np.arange(m)+.5, -dv.second_axis, sim.T, 'similarity',
          f'{dv.method}')
    if clim:
        ctx.close(f[0].artist.get_clim(), clim, 'limits', 'similarity')
    x, y, _ = [q for q in figs.lines(axs[0]) if len(q[1]) == m][0]
    ctx.event('lines', 3)
    ctx.close(y, -dv.value, 'values', 'on the similarity matrix', atol=1e-12)
    ctx.expect(np.all(x >= np.arange(m)) and np.all(x <= np.arange(m)+1),
               'time', 'on the similarity matrix')
    if dv.value_type == 'stretch':
        lo, hi = axs[0].get_ylim()
        if not ylim:
            ctx.expect(lo < hi, 'order', 'increases of velocity upwards')
    if scatter:
        ctx.event('scatter')
        ok = ~np.isnan(dv.corrs)
        for ax, v in ((axs[1], -dv.stretches[ok]), (axs[2], dv.corrs[ok])):
            # number of measurements per bin
            h, = [c for c in ax.collections if c.get_array() is not None]
            num = np.ma.filled(np.ma.asarray(h.get_array(), float), 0)
            box = [p.vertices for p in h.get_paths()]
            ctx.eq(num.sum(), float(ok.sum()), 'scatter', 'measurements shown')
            x = np.broadcast_to(days, dv.corrs.shape)[ok]
            for q, c in zip(box, num.ravel()):
                e = 1e-7
                lo, hi = q.min(0), q.max(0)
                k = np.array([(x >= lo[0]+s*e) & (x <= hi[0]-s*e) & (
                    v >= lo[1]+s*1e-12) & (v <= hi[1]-s*1e-12)
                    for s in (1, -1)]).sum(1)
                ctx.expect(k[0] <= c <= k[1], 'scatter',
                           'measurements in a bin', got=c, want=k)
        if dv.n_stat is not None:
            h, = axs[3].collections
            xy = h.get_paths()[0].vertices
            top = [max(y for q, y in xy if abs(q-d) < 1e-9) for d in days]
            ctx.close(top, dv.n_stat, 'scatter', 'number of stations')
    for ax, want, name in ((axs[1], -dv.value, 'values'),
                           (axs[2], dv.corr, 'correlation')):
        x, y, _ = [q for q in figs.lines(ax) if len(q[1]) == m][0]
        ctx.event('values_shown', m)
        ctx.close(x, days, 'time', name, atol=1e-9)
        ctx.close(y, want, name, style, atol=1e-12)
        if mark is not None:
            pos = figs.day(UTCDateTime(mark))
            at = [q for q in figs.lines(ax) if len(q[1]) == 2
                  and np.allclose(q[0], pos, rtol=0, atol=1e-9)
                  and q[1][0] != q[1][1]]
            inside = days[0] <= pos <= days[-1]
            ctx.expect(at or not inside, 'mark', f'{mark!r} not marked')
        ctx.close(ax.get_xlim(), [figs.day(v) for v in xlim] if xlim else
                  [days[0], days[-1]], 'limits', name, atol=1e-9)
    if xlim:
        ctx.close(axs[0].get_xlim(), (a, b+1), 'limits', 'similarity')
    if ylim:
        for ax in axs[:2]:
            ctx.close(ax.get_ylim(), ylim, 'limits', style, atol=1e-12)
    ctx.sig(style, dv.method, m, norm, bool(xlim), bool(ylim))


@scenario(quick=60, thorough=1200, weight=2)
@tidy
def files(ctx):
    """Figures of velocity changes are saved and none is overwritten."""
    rng = ctx.rng
    dv = rand_dv(ctx)
    d = ctx.tmp() + '/new/dir'
    name = ctx.pick(['a', 'a.png', 'a.pdf', 'net.sta', 'x.svg',
                     'plot_default'])
    old = []
    k = 1 if name != 'plot_default' else int(rng.integers(2, 5))
    for i in range(k):
        calm(dv.plot, save_dir=d, figure_file_name=name, dpi=20)
        have = os.listdir(d)
        size = {f: os.path.getsize(f'{d}/{f}') for f in have}
        ctx.expect(len(have) == i+1, 'file', f'{sorted(have)} after {i+1} '
                   f'calls with the name {name}')
        ctx.expect(min(size.values()) > 0, 'file', 'empty')
        ctx.event('saved')
        old = have
    if name != 'plot_default':
        f, = old
        ctx.expect(f.startswith(name) and f.split('.')[-1] in (
            'png', 'pdf', 'svg'), 'file', f'{f} for {name}')
    ctx.event('figures', k)
    ctx.sig(name, k)


@scenario(quick=60, thorough=1200, weight=2)
@tidy
def several(ctx):
    """Many velocity changes in one figure."""
    from vlib import figs
    from matplotlib import pyplot as plt
    from seismic.plot.plot_multidv import plot_multiple_dv
    rng = ctx.rng
    d = ctx.tmp() + '/A1-C'
    os.makedirs(d)
    t0 = synth.rand_time(rng, res=1.)
    m = int(rng.integers(3, 15))
    dvs = {}
    for i in range(int(rng.integers(0, 6)) if rng.random() < .3
                   else int(rng.integers(1, 6))):
        sta = ctx.pick(['A', 'B', 'av'])+f'{i}-C'
        dv = rand_dv(ctx, m, t0, sta, 'single_ref')
        name = ctx.pick(['DV-XX-XX.%s.HHZ-HHZ', 'DV-XX-XX.%s.av',
                         'DV-XX-XX.%s.av-auto', 'DV-XX-XX.%s.av-xc']) % sta
        dv.save(f'{d}/{name}.npz')
        dvs[name] = dv
    if not dvs or rng.random() < .4:
        with open(f'{d}/{ctx.pick(["0", "zz"])}.av-corrupt.npz', 'wb') as h:
            h.write(b'PK\x03\x04 nothing')
        ctx.event('corrupt')
    mean, med, pos = (bool(rng.random() < .3), bool(rng.random() < .4),
                      bool(rng.random() < .3))
    use = dict(dvs)
    if mean:
        use = {k: v for k, v in use.items()
               if k.split('.')[-1].startswith('av')}
    filt = None
    if dvs and rng.random() < .5:
        k = ctx.pick(sorted(dvs))
        code = k.split('.')[1]
        filt = ctx.pick([[k], [code, f'{code}.*'], [f'XX-XX.{code}'],
                         [f'{code[0]}*-C', code[0]], [code[:2], 'nothing']])
        use = {q: v for q, v in use.items() if any(
            fnmatch.fnmatch(q, f'*{f}*') for f in filt)}
        ctx.event('filters')
    out = d + '/out' if rng.random() < .3 else None
    lim = {}
    if rng.random() < .3:
        lim = dict(xlim=(t0.datetime, (t0+3600.*m).datetime),
                   ylim=(-.01, .02), title='T')
        ctx.event('limits', 2)
    fmt = ctx.pick(['png', None, 'pdf']) if out else None
    if out and not fmt:
        out += '.png'
    plt.figure()
    calm(plot_multiple_dv, d, only_mean=mean, plot_median=med, plt_abs=pos,
         statfilter=filt, outfile=out, fmt=fmt, legend=bool(
             rng.random() < .5), **lim)
    ax = plt.gca()
    ctx.event('figures')
    ctx.note(files=sorted(dvs), use=sorted(use), filt=filt, mean=mean)
    days = [figs.day(t0+3600.*i) for i in range(m)]

    def val(v):
        return np.abs(v.value) if pos else -v.value
    want = sorted((repr(np.round(val(v), 9).tolist()) for v in use.values()))
    ll = figs.lines(ax)
    got = [repr(np.round(y, 9).tolist()) for x, y, _ in ll]
    if med and use:
        y = ll[-1][1]
        got.pop()
        ctx.close(y, calm(np.nanmedian, [val(v) for v in use.values()],
                          axis=0), 'median', 'several', atol=1e-9)
    for x, y, _ in ll:
        ctx.event('lines')
        ctx.event('values_shown', len(x))
        ctx.close(x, days, 'time', 'several', atol=1e-9)
    ctx.eq(sorted(got), want, 'values', f'{len(got)} of {len(want)} lines')
    if out:
        ctx.expect(os.path.isfile(f'{out}.{fmt}' if fmt else out), 'file',
                   'not saved')
        ctx.event('saved')
    if lim:
        ctx.close(ax.get_xlim(), [figs.day(v) for v in lim['xlim']],
                  'limits', 'time', atol=1e-9)
        ctx.close(ax.get_ylim(), lim['ylim'], 'limits', 'several')
        ctx.eq(ax.get_title(), 'T', 'title', 'several')
    ctx.sig(m, len(use), mean, med, pos)


@scenario(quick=80, thorough=1600, weight=2)
@tidy
def coherences(ctx):
    """Waveform coherence by frequency and lapse time."""
    from vlib import figs
    from seismic.monitor.wfc import WFC, WFCBulk
    rng = ctx.rng
    dv = rand_dv(ctx)
    lags = np.sort(rng.choice(30, int(rng.integers(2, 6)), replace=False))
    freqs = np.sort(rng.choice(20, int(rng.integers(2, 6)), replace=False))+1
    ws, want = [], np.full((len(freqs), len(lags)), np.nan)
    for i, f in enumerate(freqs):
        for j, t in enumerate(lags):
            if rng.random() < .15:
                continue
            w = WFC({'reftr_0': rng.uniform(0, 1, 5)},
                    copy.deepcopy(dv.stats), dict(
                        tw_start=float(t), tw_len=2., freq_min=f-.25,
                        freq_max=f+.25))
            w.compute_average()
            want[i, j] = w.mean
            ws.append(w)
    if not ws or np.isnan(want).all(1).any() or np.isnan(want).all(0).any():
        return
    b = WFCBulk([ws[i] for i in rng.permutation(len(ws))])
    log = bool(rng.random() < .3)
    ax = calm(b.plot, title='T', log=log,
              cmap=ctx.pick(['viridis', 'batlow']))
    drawn(ctx, ax, {}, None, render=True)
    f, = figs.fields(ax)
    shown(ctx, f, lags+1., freqs, want, 'values', 'coherence')
    ctx.eq((ax.get_title(), ax.get_yscale()),
           ('T', 'log' if log else 'linear'), 'axes', 'coherence')
    ctx.sig(want.shape, log)


@scenario(quick=160, thorough=3000, weight=2)
@tidy
def spectra(ctx):
    """Series of spectra with all normalisations."""
    from vlib import figs
    from matplotlib import pyplot as plt
    from seismic.plot.plot_spectrum import plot_spct_series
    rng = ctx.rng
    n, m = int(rng.integers(4, 40)), int(rng.integers(4, 40))
    f = np.linspace(0, float(rng.uniform(1, 20)), n)
    t0 = synth.rand_time(rng, res=1.)
    t = np.array([t0+900.*i for i in range(m)])
    S = 10.**rng.uniform(-3, 3)*rng.uniform(.1, 10, (n, m))
    if rng.random() < .5:
        S[:, rng.random(m) < .2] = np.nan
        if np.isnan(S).all():
            return
        ctx.event('gaps')
    kw = {}
    fl, tl = slice(None), slice(None)
    if rng.random() < .3:
        i, j = sorted(rng.choice(n, 2, replace=False))
        kw['flim'] = (f[i], f[j])
        fl = slice(i, j+1)
    if rng.random() < .3:
        i, j = sorted(rng.choice(m, 2, replace=False))
        kw['tlim'] = (t[i].datetime, t[j].datetime)
        tl = slice(i, j+1)
    W = S[fl, tl]
    if np.isnan(W).all():
        return
    norm, method = ctx.pick([None, 'f', 't']), ctx.pick([
        'linalg', 'mean', 'median'])
    if norm:
        kw.update(norm=norm, norm_method=method)
        g = dict(linalg=lambda *a, **k: np.sqrt(np.nansum(a[0]**2, **k)),
                 mean=np.nanmean, median=np.nanmedian)[method]
        W = W/calm(g, W, axis=1 if norm == 'f' else 0, keepdims=True)
    W = W/np.nanmax(W)
    if rng.random() < .3:
        kw.update(vmin=.01, vmax=.5)
    if rng.random() < .3:
        kw['cmap'] = 'viridis'
    kw['log_scale'] = bool(rng.random() < .3)
    ctx.note(**{k: str(v) for k, v in kw.items()})
    keep = S.copy()
    plt.figure()
    ax = calm(plot_spct_series, S, f, t, **kw)
    ctx.expect(np.array_equal(S, keep, equal_nan=True), 'input', 'changed')
    drawn(ctx, ax, {}, None)
    q, = figs.fields(ax)
    shown(ctx, q, [figs.day(v) for v in t[tl]], f[fl], W, 'values',
          f'{norm} {method}')
    ctx.event('limits')
    if 'vmin' in kw:
        ctx.close(q.artist.get_clim(), (.01, .5), 'limits', 'colours')
    if 'flim' in kw:
        if not (kw['log_scale'] and kw['flim'][0] == 0):
            ctx.close(ax.get_ylim(), kw['flim'], 'limits', 'frequency')
    if 'tlim' in kw:
        ctx.close(ax.get_xlim(), [figs.day(v) for v in kw['tlim']],
                  'limits', 'time', atol=1e-9)
    ctx.sig(n, m, norm, method if norm else '')


@scenario(quick=60, thorough=1200, weight=2)
@tidy
def maps(ctx):
    """Maps of velocity changes and stations."""
    from vlib import figs
    from checks.c28 import make_grid
    rng = ctx.rng
    g, kw, stas = make_grid(ctx)
    v = rng.standard_normal(g.xgrid.shape)*.01
    if rng.random() < .3:
        v = np.abs(v)*ctx.pick([1, -1])
    g.vel_change = v
    n = int(rng.integers(0, 5))
    g.statx, g.staty = rng.uniform(0, 5, (2, n))
    where, other = target(ctx)
    st = bool(rng.random() < .6)
    ax = calm(g.plot, plot_stations=st, **where)
    drawn(ctx, ax, where, other)
    f, = figs.fields(ax)
    if v.shape[0] > 1 and v.shape[1] > 1:
        shown(ctx, f, g.xaxis, g.yaxis, -100*v, 'values', 'map')
    pts = figs.points(ax)
    ctx.eq(len(pts), int(st), 'stations', 'map')
    if st:
        ctx.event('points', n)
        ctx.close(np.array(pts[0][:2]), np.array([g.statx, g.staty]),
                  'stations', 'map')
    ctx.sig(v.shape, n)
