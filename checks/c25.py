"""
Lists of velocity-change results with undefined times and elements, odd ones
(other grid, other times, other method, averages) at random positions, are
averaged in several orders by both implementations, by location, and from
directories through the workflow object; every mean, value, count and header is
recomputed from the inputs. Shift corrections are compared with the offsets
that were put into the data.
"""
import glob
import os
import warnings

import numpy as np

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'results have a value at a time exactly if any of their similarities is '
    'defined then',
    'the number of results counts those with a value at the time',
    'of results on different axes those like the first result are averaged, '
    'the others are skipped with a warning',
    'shifts move values by whole grid steps; columns that a shift pushes over '
    'the end of the grid are not looked at']
REQUIRED = {'averages': 800, 'undefined_elements': 300, 'odd_skipped': 150,
            'order': 300, 'methods_mixed': 60, 'nothing_left': 60,
            'by_location': 60, 'outside': 60, 'directories': 60,
            'files_averaged': 60, 'shifted': 60, 'stitched': 60,
            'gap_reported': 10}


def times(t0, inc, m):
    return [t0+i*inc for i in range(m)]


def make(ctx, t0, inc, sim, second, net='XX-XX', sta='A-B', cha='HHZ-HHZ',
         method='single_ref', proc=None):
    from seismic.monitor.dv import DV
    m = len(sim)
    b = synth.bulk(np.zeros((m, 5)), times(t0, inc, m), sr=1., start_lag=-2.,
                   length=inc, rng=ctx.rng, net=net, sta=sta, cha=cha)
    corr, value = best(sim, second)
    return DV(corr, value, 'stretch', sim.copy(), second.copy(), method,
              b.stats, dv_processing=proc or {})


def best(sim, second):
    corr = np.full(len(sim), np.nan)
    value = corr.copy()
    for i, row in enumerate(sim):
        ok = np.where(~np.isnan(row))[0]
        if len(ok):
            j = ok[np.argmax(row[ok])]
            corr[i], value[i] = row[j], second[j]
    return corr, value


def rand_sim(ctx, m, k):
    rng = ctx.rng
    sim = rng.uniform(-1, 1, (m, k))
    if rng.random() < .2:
        sim = -np.abs(sim)-1e-3
    if rng.random() < .6:
        sim[rng.random(m) < .3] = np.nan
    if rng.random() < .4:
        q = int(rng.integers(1, k))
        sim[:, -q:] = np.nan
        ctx.event('undefined_elements')
    if rng.random() < .3:
        sim[rng.random(sim.shape) < .2] = np.nan
        ctx.event('undefined_elements')
    return sim


def snapshot(dv):
    return [None if x is None else np.array(x) for x in (
        dv.corr, dv.value, dv.sim_mat, dv.second_axis, dv.avail)] + [
        repr(dict(dv.stats)), repr(dv.dv_processing)]


def unchanged(ctx, dvs, snaps, what):
    for dv, s in zip(dvs, snaps):
        for a, b in zip(snapshot(dv), s):
            ok = np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') \
                if isinstance(a, np.ndarray) else a == b
            ctx.expect(ok, 'input_changed', what, got=a, want=b)


def check_average(ctx, got, use, scatter, what):
    """Compare an average with its inputs."""
    sims = np.array([dv.sim_mat for dv in use])
    cnt = np.sum(~np.isnan(sims), axis=0)
    with np.errstate(all='ignore'):
        want = np.where(cnt > 0, np.nansum(sims, axis=0)/cnt, np.nan)
    second = use[0].second_axis
    ctx.event('averages')
    ctx.close(got.sim_mat, want, 'mean_similarity', what, rtol=1e-10)
    corr, _ = best(want, second)
    ctx.close(got.corr, corr, 'maximum', what, rtol=1e-10)
    ctx.eq(np.isnan(got.value).tolist(), np.isnan(corr).tolist(),
           'undefined_values', f'{what} value')
    ctx.eq(np.asarray(got.avail).tolist(), (~np.isnan(corr)).tolist(),
           'availability', what)
    for i in np.where(~np.isnan(corr))[0]:
        j = np.where(second == got.value[i])[0]
        ctx.expect(len(j) == 1 and want[i, j[0]] >= corr[i]-1e-10,
                   'value_not_at_maximum', f'{what} time {i}',
                   got=got.value[i], row=want[i])
    n = np.sum([~np.isnan(dv.corr) for dv in use], axis=0)
    ctx.eq(np.asarray(got.n_stat).tolist(), n.tolist(), 'number', what)
    ctx.eq(got.second_axis.tolist(), second.tolist(), 'grid', what)
    ctx.eq((got.method, got.value_type), (use[0].method, use[0].value_type),
           'method', what)
    s = got.stats
    for k in ('network', 'station', 'channel'):
        codes = {dv.stats[k] for dv in use}
        ctx.eq(s[k], codes.pop() if len(codes) == 1 else 'av', 'code',
               f'{what} {k}')
    for k in ('corr_start', 'corr_end'):
        ctx.eq(list(s[k]), list(use[0].stats[k]), 'times', f'{what} {k}')
    if scatter:
        for k, a in (('stretches', 'value'), ('corrs', 'corr')):
            g = np.asarray(getattr(got, k))
            w = np.array([getattr(dv, a) for dv in use])
            ctx.eq(g.shape, w.shape, 'scatter', f'{what} {k}')
            ctx.expect(np.array_equal(g, w, equal_nan=True), 'scatter',
                       f'{what} {k}')
    else:
        ctx.expect(got.corrs is None and got.stretches is None, 'scatter',
                   what)


CODES = [('XX-XX', 'A-B', 'HHZ-HHZ'), ('XX-XX', 'A-B', 'HHZ-HHN'),
         ('XX-YY', 'A-B', 'HHZ-HHZ'), ('XX-XX', 'A-A', 'HHE-HHN'),
         ('ca-ve', 'Av-va', 'HHa-vHH'), ('XX-XX', 'aves-B', 'HHZ-HHZ'),
         ('a-a', 'v-v', 'a-v')]


@scenario(quick=250, thorough=6000)
def lists(ctx):
    """Averages of lists, in several orders, next to odd results."""
    from seismic.monitor import monitor
    rng = ctx.rng
    m, k = int(rng.choice([1, 2, 5, 12])), int(rng.choice([3, 9, 21]))
    second = np.linspace(-.03, .03, k)
    t0 = synth.rand_time(rng, res=1.)
    inc = float(rng.choice([600, 3600, 86400]))
    n = int(rng.integers(1, 7))
    same_code = rng.random() < .4
    code = ctx.pick(CODES)

    def some(**kw):
        net, sta, cha = code if same_code else ctx.pick(CODES)
        kw = dict(t0=t0, inc=inc, second=second, net=net, sta=sta, cha=cha
                  ) | kw
        sim = rand_sim(ctx, kw.pop('m', m), len(kw['second']))
        return make(ctx, kw.pop('t0'), kw.pop('inc'), sim,
                    kw.pop('second'), **kw)
    use = [some() for _ in range(n)]
    odd, early = [], []
    for _ in range(int(rng.choice([0, 0, 1, 2, 3]))):
        r = int(rng.integers(8))
        if r == 0:
            odd.append(some(second=np.linspace(-.03, .03, k+1)))
        elif r == 1:
            odd.append(some(second=ctx.pick([
                second*1.5, np.linspace(-.03, .05, k),
                np.linspace(-.05, .03, k)])))
        elif r == 2:
            odd.append(some(m=m+1))
        elif r == 3:
            odd.append(some(t0=t0+ctx.pick([inc, -inc, inc/2, 365*86400])))
        elif r == 4 and m > 1:
            odd.append(some(inc=2*inc))
        else:
            # averaged results may come first
            a = some(**ctx.pick([
                dict(cha='av'), dict(sta='av'), dict(net='av'),
                dict(net='geoav', sta='geoav')]))
            if rng.random() < .5:
                a = some(cha='av', second=np.linspace(-.02, .02, k+2))
            early.append(a)
    scatter = bool(rng.random() < .7)
    ctx.note(times=m, grid=k, used=n, odd=len(odd), averaged=len(early))
    ctx.event('odd_skipped', len(odd) + len(early))
    for order in range(3):
        p = [use[i] for i in rng.permutation(n)]
        # the first one tells the axes
        rest = p[1:] + odd
        rest = [rest[i] for i in rng.permutation(len(rest))]
        q = [p[0]] + rest
        for a in early:
            q.insert(int(rng.integers(0, len(q)+1)), a)
        used = [d for d in q if any(d is u for u in use)]
        snaps = [snapshot(d) for d in q]
        for name in ('average_components', 'average_components_mem_save'):
            f = getattr(monitor, name)
            arg = q if name == 'average_components' else ctx.pick(
                [list, iter])(q)
            kw = {} if scatter and rng.random() < .5 else dict(
                save_scatter=scatter)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                got = f(arg, **kw)
            w = [x for x in w if issubclass(x.category, UserWarning)]
            ctx.expect(len(w) >= len(odd)+len(early), 'skipped_silently',
                       name, warned=len(w))
            check_average(ctx, got, used, scatter, f'{name} order {order}')
            unchanged(ctx, q, snaps, name)
        ctx.event('order')
    bad = some(method='multi_ref')
    q = list(use)
    q.insert(int(rng.integers(0, n+1)), bad)
    for f in (monitor.average_components,
              monitor.average_components_mem_save):
        ctx.raises(TypeError, lambda: f(list(q)), 'methods_mixed', f.__name__)
        ctx.event('methods_mixed')
        if early:
            ctx.raises(Exception, lambda: f(list(early)), 'nothing_left',
                       f.__name__)
            ctx.event('nothing_left')
    ctx.sig(m, k, n, len(odd), len(early), scatter)


@scenario(quick=100, thorough=2500)
def by_location(ctx):
    """Only results with both stations inside the window are averaged."""
    from seismic.monitor import monitor
    rng = ctx.rng
    second = np.linspace(-.01, .01, 5)
    t0 = synth.rand_time(rng, res=1.)
    lat = tuple(sorted(rng.integers(-80, 80, 2).astype(float)))
    lon = tuple(sorted(rng.integers(-170, 170, 2).astype(float)))
    el = tuple(sorted(rng.integers(-100, 4000, 2).astype(float)))
    use_el = rng.random() < .6
    lims = dict(la=lat, lo=lon, el=el if use_el else (-1e6, 1e6))
    dvs, inside = [], []
    for i in range(int(rng.integers(1, 8))):
        dv = make(ctx, t0, 600., rand_sim(ctx, 4, 5), second,
                  sta=f'S{i}-T{i}')
        out = None
        if rng.random() < .5:
            out = ctx.pick(['stla', 'stlo', 'evla', 'evlo'] + (
                ['stel', 'evel'] if use_el else []))
            ctx.event('outside')
        for s in ('st', 'ev'):
            for c in ('la', 'lo', 'el'):
                a, b = lims[c]
                x = float(rng.choice([a, b, rng.uniform(a, b)]))
                if out == s+c:
                    x = a-.01 if rng.random() < .5 else b+.01
                dv.stats[s+c] = x
        dvs.append(dv)
        if out is None:
            inside.append(dv)
    kw = dict(el=el) if use_el else {}
    if rng.random() < .4:
        a = make(ctx, t0, 600., rand_sim(ctx, 4, 5), second,
                 **ctx.pick([dict(cha='av'), dict(net='geoav', sta='geoav')]))
        for s in ('st', 'ev'):
            for c in ('la', 'lo', 'el'):
                a.stats[s+c] = lims[c] if a.stats.network == 'geoav' else \
                    lims[c][0]
        dvs.insert(int(rng.integers(0, len(dvs)+1)), a)
    ctx.note(inside=len(inside), of=len(dvs), lat=lat, lon=lon, el=el)
    snaps = [snapshot(d) for d in dvs]
    if not inside:
        ctx.raises(ValueError, lambda: monitor.average_dvs_by_coords(
            dvs, lat, lon, **kw), 'none_not_reported', 'nothing inside')
        return
    sc = bool(rng.random() < .5)
    got = monitor.average_dvs_by_coords(dvs, lat, lon, return_std=sc, **kw)
    ctx.event('by_location')
    s = got.stats
    ctx.eq((s.network, s.station), ('geoav', 'geoav'), 'code', 'by location')
    for k in ('la', 'lo', 'el'):
        for p in ('st', 'ev'):
            ctx.eq(tuple(s[p+k]), lims[k], 'window_in_header', p+k)
    s['network'] = inside[0].stats.network
    s['station'] = inside[0].stats.station if len(inside) == 1 else 'av'
    check_average(ctx, got, inside, sc, 'by location')
    unchanged(ctx, dvs, snaps, 'by location')
    ctx.sig(len(inside), len(dvs), use_el)


def workflow(root, **kw):
    from seismic.monitor.monitor import Monitor
    opt = dict(
        proj_dir=root, log_subdir='log', log_level='ERROR', fig_subdir='fig',
        co=dict(subdir='corr', preProcessing=[]),
        net=dict(network='*', station='*'),
        dv=dict(subdir='vel_change', start_date='2020-01-01',
                end_date='2020-01-02', date_inc=3600, win_len=3600,
                plot_vel_change=False))
    opt['dv'].update(kw)
    os.makedirs(f'{root}/corr', exist_ok=True)
    return Monitor(opt)


def group(method, net, sta, cha):
    """Whether a combination takes part and the code of its average."""
    auto = len(set(zip(net.split('-'), sta.split('-')))) == 1
    one = len(set(cha.split('-'))) == 1
    m = method.lower()
    if m == 'autocomponents':
        return auto and one, 'av-auto'
    if m in ('crosscomponents', 'betweencomponents'):
        return auto and not one, 'av-xc'
    if m == 'stationwide':
        return auto, 'av'
    return not auto, 'av'


@scenario(quick=60, thorough=1500)
def directories(ctx):
    """Averages of all files of a directory, one per station combination."""
    from seismic.monitor.dv import read_dv
    rng = ctx.rng
    root = ctx.tmp() + ctx.pick(['/proj', '/my.average', '/dv-av', '/av',
                                 '/a.av.b', '/x-y.z'])
    mon = workflow(root)
    second = np.linspace(-.01, .01, 5)
    t0 = synth.rand_time(rng, res=1.)
    stas = ctx.pick([['A', 'A1', 'A10'], ['B', 'BAV', 'AVB'],
                     ['S1', 'S11', 'S']])
    nets = ctx.pick([['XX'], ['X', 'XX'], ['AB', 'CD']])
    chans = ['HHZ', 'HHN', 'HHE']
    have = {}
    for net in nets:
        for i, a in enumerate(stas):
            for b in stas[i:]:
                for net2 in nets:
                    if rng.random() < .4:
                        continue
                    for ca in chans:
                        for cb in chans:
                            if rng.random() < .55:
                                continue
                            key = (f'{net}-{net2}', f'{a}-{b}', f'{ca}-{cb}')
                            have[key] = make(
                                ctx, t0, 600., rand_sim(ctx, 3, 5), second,
                                *key)
    d = f'{root}/vel_change'
    for key, dv in have.items():
        dv.save(f'{d}/DV-%s.%s.%s' % key)
    ctx.event('directories')
    before = {f: open(f, 'rb').read() for f in glob.glob(f'{d}/*')}
    ctx.eq(len(before), len(have), 'files', 'written')
    todo = [ctx.pick(['AutoComponents', 'autocomponents']),
            ctx.pick(['CrossComponents', 'betweencomponents']),
            ctx.pick(['StationWide', 'CrossStations', 'BetweenStations'])]
    todo = [todo[i] for i in rng.permutation(3)[:int(rng.integers(1, 4))]]
    if rng.random() < .4:
        todo.append(todo[0])
    ctx.note(methods=todo, results=len(have), root=root[len(ctx.tmp()):])
    want = {}
    for method in todo:
        mon.compute_components_average(method)
        groups = {}
        for (net, sta, cha), dv in have.items():
            ok, code = group(method, net, sta, cha)
            if ok:
                groups.setdefault((net, sta, code), []).append(dv)
        for k, v in groups.items():
            if len(v) > 1:
                want.setdefault(f'{d}/DV-%s.%s.%s.npz' % k, v)
        got = {f for f in glob.glob(f'{d}/*')} - set(before)
        ctx.eq(sorted(got), sorted(want), 'files_averaged',
               f'{method} of {todo}')
    for f, members in want.items():
        dv = read_dv(f)
        ctx.event('files_averaged')
        # in the order in which they were read
        left, ordered = list(members), []
        for c, v in zip(np.asarray(dv.corrs), np.asarray(dv.stretches)):
            for j, q in enumerate(left):
                if np.array_equal(q.corr, c, equal_nan=True) and \
                        np.array_equal(q.value, v, equal_nan=True):
                    ordered.append(left.pop(j))
                    break
        members = ordered + left
        check_average(ctx, dv, members, True, os.path.basename(f))
    for f, raw in before.items():
        with open(f, 'rb') as fh:
            ctx.expect(fh.read() == raw, 'file_changed', f)
    ctx.raises(ValueError, lambda: mon.compute_components_average('nothing'),
               'unknown_method', 'nothing')
    ctx.sig(len(have), tuple(todo), len(want), root[len(ctx.tmp()):])


def peaked(ctx, centre, k, avail):
    """Similarities with a peak at a column, low and defined at the ends."""
    col = np.arange(k)
    sim = np.array([np.exp(-.5*((col-c)/2.)**2) for c in centre])
    sim *= ctx.rng.uniform(.5, 1, (len(centre), 1))
    sim[~avail] = np.nan
    return sim


@scenario(quick=150, thorough=4000)
def shifted(ctx):
    """A result is moved to the level of another one."""
    from seismic.monitor import monitor
    rng = ctx.rng
    m, k = int(rng.integers(4, 20)), 41
    second = np.linspace(-.02, .02, k)
    step = second[1]-second[0]
    t0 = synth.rand_time(rng, res=1.)
    kind = ctx.pick(['common', 'common', 'after', 'before'])
    avail = np.ones((2, m), bool)
    cut = int(rng.integers(1, m))
    gap = 0
    if kind == 'common':
        avail = rng.random((2, m)) < .7
        j = int(rng.integers(m))
        avail[:, j] = True
    else:
        gap = int(rng.integers(0, 3))
        avail[0, cut:] = False
        avail[1, :min(cut+gap, m-1)] = False
        if kind == 'after':
            avail = avail[::-1]
    n_over = int(rng.integers(0, 4))
    off = int(rng.integers(-8, 9))
    walk = 20 + np.cumsum(rng.integers(-1, 2, m)).clip(-5, 5)
    cen = np.array([walk+off, walk])
    dvs = [make(ctx, t0, 600., peaked(ctx, cen[i], k, avail[i]), second)
           for i in range(2)]
    method = ctx.pick(['mean', 'median'])
    ctx.note(kind=kind, overlap=n_over, offset=off, method=method, gap=gap)
    common = np.where(avail.all(axis=0))[0]
    if len(common):
        lo, hi = common.min()-n_over, common.max()+n_over
        dist = 0
    else:
        a = np.where(avail[0])[0]
        b = np.where(avail[1])[0]
        j, i = (b[-1], a[0]) if a[0] > b[-1] else (a[-1], b[0])
        lo, hi, dist = j-n_over, i+n_over, i-j
    before = [snapshot(d) for d in dvs]
    if dist > n_over:
        ctx.raises(ValueError, lambda: monitor.correct_dv_shift(
            dvs[0], dvs[1], method, n_over), 'gap_not_reported',
            f'{dist} > {n_over}')
        ctx.event('gap_reported')
        unchanged(ctx, dvs, before, 'gap')
        return
    lo, hi = max(lo, 0), min(hi, m-1)
    lev = []
    for d in dvs:
        v = [(d.value[i], d.corr[i]) for i in range(lo, hi+1)
             if not np.isnan(d.value[i])]
        v = np.array(v)
        lev.append(np.median(v[:, 0]) if method == 'median' else
                   np.sum(v[:, 0]*v[:, 1])/np.sum(v[:, 1]))
    q = (lev[1]-lev[0])/step
    if abs(abs(q-np.floor(q))-.5) < 1e-6:
        return
    q = int(round(q))
    out = monitor.correct_dv_shift(dvs[0], dvs[1], method, n_over)
    ctx.event('shifted')
    ctx.expect(out[0] is dvs[0] and out[1] is dvs[1], 'not_in_place', 'shift')
    unchanged(ctx, dvs[1:], before[1:], 'the other result')
    want = before[0][1].copy()
    want[avail[0]] = second[[int(round((v+.02)/step))+q
                             for v in want[avail[0]]]]
    ctx.close(dvs[0].value, want, 'shifted_value', kind, rtol=1e-9)
    sim = before[0][2]
    inner = slice(max(q, 0), k+min(q, 0))
    ctx.close(dvs[0].sim_mat[:, inner],
              sim[:, max(-q, 0):k+min(-q, 0)], 'shifted_similarity', kind)
    ctx.close(dvs[0].corr, before[0][0], 'corr_changed', kind)
    # the values next to the ends must not be those of other times
    flat = np.roll(sim, (q, 0))
    outer = np.setdiff1d(np.arange(k), np.arange(k)[inner])
    own = np.roll(sim, q, axis=1)
    if len(outer) and np.array_equal(
            dvs[0].sim_mat[:, outer], flat[:, outer], equal_nan=True) \
            and not np.array_equal(flat[:, outer], own[:, outer],
                                   equal_nan=True):
        ctx.fail('shifted_between_times', f'{kind} by {q} columns')
    ctx.sig(kind, q, n_over, method, m)


@scenario(quick=100, thorough=2500)
def stitched(ctx):
    """Successive results of one location are shifted one to the other."""
    from seismic.monitor import monitor
    rng = ctx.rng
    n, k = int(rng.integers(2, 5)), 61
    m = 10*n
    second = np.linspace(-.03, .03, k)
    t0 = synth.rand_time(rng, res=1.)
    level = 30
    dvs = []
    offs = []
    for i in range(n):
        avail = np.zeros(m, bool)
        # overlapping with the one before
        a = max(0, 10*i-int(rng.integers(1, 4)))
        avail[a:10*(i+1)] = True
        off = int(rng.integers(-6, 7)) if i else 0
        offs.append(off)
        dvs.append(make(ctx, t0, 600., peaked(
            ctx, np.full(m, level+off), k, avail), second,
            sta=f'S{i}-S{i}'))
    p = rng.permutation(n)
    ctx.note(offsets=offs, order=p.tolist())
    given = [dvs[i] for i in p]
    kw = dict(correct_shift_method=ctx.pick(['mean', 'median']),
              correct_shift_overlap=int(rng.integers(0, 3)))
    got = monitor.average_components(given, correct_shift=True, **kw)
    ctx.event('stitched')
    ctx.close(got.value, np.full(m, second[level]), 'not_on_one_level',
              f'{offs} {kw}', rtol=1e-9)
    for i, dv in enumerate(dvs):
        v = dv.value[~np.isnan(dv.value)]
        ctx.close(v, np.full(v.shape, second[level]), 'not_on_one_level',
                  f'{i} of {offs}', rtol=1e-9)
    ctx.sig(tuple(offs), tuple(p.tolist()))


