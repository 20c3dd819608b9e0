"""
The monitoring workflow runs on generated databases with known velocity changes
(several station pairs, channels, gaps, defective files and combinations), with
random options; each file it writes is compared with an independent computation
from the generated correlations and with the changes that were put in. The
same databases are processed by several processes, simulated and real ones, and
the time axes and selections of stations by themselves.
"""
import copy
import fnmatch
import glob
import json
import os
import signal
import subprocess
import sys
import warnings

import numpy as np

from vlib.core import scenario, Inconclusive, ROOT
from vlib import synth, monproj
from checks.c21 import wavefield, oracle

ASSUMPTIONS = [
    'results agree within the single precision of the database',
    'filtering, stretching back and reference extraction are those of the '
    'correlation matrix, which other properties describe',
    'windows start at the sample nearest to their lapse time',
    'processes are started with the installed mpirun on one machine']
REQUIRED = {'files_compared': 100, 'similarities_recomputed': 15000,
            'changes_recovered': 50, 'undefined_times': 200, 'defective': 20,
            'not_processable': 5, 'preprocessed': 10, 'travel_time': 5,
            'whole_coda': 4, 'postprocessed': 8, 'ranks': 60,
            'multi_process_runs': 4, 'time_axes': 200, 'selections': 200}


def chooser(p, steps):
    """Which correlations the selecting steps of the preprocessing keep."""
    from obspy import UTCDateTime
    select = []
    for f in steps:
        a = f.get('args')
        if f['function'] == 'select_time':
            h0, h1 = a['start'][0], a['end'][0]

            def inside(t, h0=h0, h1=h1, ex=a.get('exclude', False)):
                h = (t.timestamp-p.t0.timestamp) % 86400/3600
                return (h >= h0 and h+1 <= h1) != ex
            select.append(inside)
        elif f['function'] == 'pop_at_utcs':
            def away(t, u=[UTCDateTime(x).timestamp for x in a['utcs']]):
                return not any(t.timestamp < x < t.timestamp+p.inc
                               for x in u)
            select.append(away)
    return lambda t: all(f(t) for f in select)


def steps(ctx, p):
    """Steps of a preprocessing, selecting or not."""
    rng = ctx.rng
    out = []
    q = rng.random()
    if q < .15:
        out.append(dict(function='select_time', args=dict(
            start=(int(rng.integers(0, 8)), 0, 0),
            end=(int(rng.integers(9, 24)), 0, 0),
            exclude=bool(rng.random() < .4))))
    elif q < .3:
        out.append(dict(function='pop_at_utcs', args=dict(
            utcs=ctx.pick([np.array, list, lambda x: [str(t) for t in x]])(
                [p.t0+float(rng.uniform(0, 86400*p.days))
                 for _ in range(8)]))))
    if rng.random() < .25:
        out.append(ctx.pick([
            dict(function='smooth', args=dict(wsize=3, wtype='hanning',
                                              axis=0)),
            dict(function='normalize', args=dict(normtype='absmax')),
            dict(function='taper', args=dict(width=3.))]))
    if out:
        ctx.event('preprocessed')
    return out


def pipeline(ctx, p, key, dv, starts, length):
    """(value, corr, sim_mat) of one combination or None."""
    c = p.combos[key]
    sel = chooser(p, dv['preprocessing'])
    if not any(sel(t) for t in c['starts']):
        return None
    start = dv['tw_start']
    if dv['compute_tt']:
        q = c['pos']
        d = np.hypot(q['dist'], (q['stel']-q['evel'])/1000)
        start += round(d/dv['rayleigh_wave_velocity'])
    if p.save_len < start+(dv['tw_len'] or 0):
        return None
    cb = p.bulk(key, starts, length, sel)
    cb.filter((dv['freq_min'], dv['freq_max']))
    for f in dv['preprocessing']:
        if f['function'] not in ('select_time', 'pop_at_utcs'):
            cb = getattr(cb, f['function'])(**f['args'])
    t = p.lag
    A = np.array(cb.data)
    ok = ~np.isnan(A).all(axis=1)
    end = start+dv['tw_len'] if dv['tw_len'] is not None else t[-1]
    if round(2*end*p.sr)+1 <= 20:
        return None
    keep = np.abs(t) <= end+1e-6
    grid = np.linspace(-dv['stretch_range'], dv['stretch_range'],
                       dv['stretch_steps'])
    tw = np.arange(round(start*p.sr), round(end*p.sr))
    value = None
    for i in range(2):
        ref = np.asarray(cb.extract_multi_trace(**dv['dt_ref']))
        S = np.full((len(A), len(grid)), np.nan)
        if ok.any() and not np.isnan(ref).all():
            S[ok] = oracle(A[ok][:, keep], t[keep], ref, t, grid,
                           dv['sides'], tw)
        v = np.full(len(A), np.nan)
        cc = np.full(len(A), np.nan)
        amb = False
        good = ok & ~np.isnan(S).any(axis=1)
        for j in np.flatnonzero(good):
            k = int(np.argmax(S[j]))
            v[j], cc[j] = grid[k], S[j, k]
            amb |= np.sort(S[j])[-2] > S[j, k]-4e-6
        if i == 0:
            if amb:
                return 'ambiguous'
            value = v
            from seismic.monitor.dv import DV
            cb.correct_stretch(DV(cc, value, 'stretch', S, grid, 'x',
                                  stats=cb.stats))
    return v, cc, S, good, grid


def dv_options(ctx, p):
    rng = ctx.rng
    dv = p.dv()
    dv['sides'] = ctx.pick(['both', 'both', 'left', 'right'])
    dv['tw_start'] = float(ctx.pick([0, 1, 2.5, 3.3, .7, 2.3]))
    dv['tw_len'] = float(ctx.pick([6, 8.3, 10, 4.1, 5.7]))
    if rng.random() < .3:
        dv['tw_start'] = float(np.round(rng.uniform(0, 3.5), 2))
        dv['tw_len'] = float(np.round(rng.uniform(4, 10), 2))
    if rng.random() < .1:
        # up to the last sample
        dv['tw_start'] = float(ctx.pick([1, 3]))
        dv['tw_len'] = p.save_len-dv['tw_start']
    dv['dt_ref']['method'] = ctx.pick(['mean', 'mean', 'median', 'norm_mean',
                                       'similarity_percentile'])
    if rng.random() < .2:
        dv['tw_len'] = None
        ctx.event('whole_coda')
    if rng.random() < .3:
        dv['compute_tt'] = True
        dv['rayleigh_wave_velocity'] = float(ctx.pick([.05, 1., 2.]))
        ctx.event('travel_time')
    if rng.random() < .25:
        dv['win_len'] = 43200
    if rng.random() < .25:
        dv['date_inc'] = dv['win_len'] = 10800
    if rng.random() < .2:
        dv['start_date'] = str(p.t0-43200)
    if rng.random() < .2:
        dv['end_date'] = str(p.t0+p.days*86400+7*3600)
    if rng.random() < .2:
        dv['return_sim_mat'] = False
    dv['preprocessing'] += steps(ctx, p)
    if dv['return_sim_mat'] and rng.random() < .25:
        dv['postprocessing'].append(dict(function='smooth_sim_mat', args=dict(
            win_len=3, exclude_corr_below=float(ctx.pick([-1., .3])))))
        ctx.event('postprocessed')
    return dv


def axis(dv):
    from obspy import UTCDateTime
    a = UTCDateTime(dv['start_date']).timestamp
    b = UTCDateTime(dv['end_date']).timestamp
    n = int(np.ceil((b-a)/dv['date_inc']-1e-9))
    return a+dv['date_inc']*np.arange(n)


def content(path):
    with np.load(path) as z:
        return {k: z[k].tolist() for k in z.files}


def same_files(ctx, a, b, what):
    fa, fb = (sorted(os.path.basename(f) for f in glob.glob(d+'/*'))
              for d in (a, b))
    ctx.eq(fa, fb, 'files', what)
    for f in fb:
        x, y = content(f'{a}/{f}'), content(f'{b}/{f}')
        ctx.eq(repr(x), repr(y), 'file_content', f'{what} {f}')


def build(ctx, **kw):
    """A database and what is wrong with it."""
    rng = ctx.rng
    p = monproj.Project(ctx, wavefield, **kw)
    p.empty = None
    if len(p.combos) > 1 and rng.random() < .3:
        p.empty = ctx.pick(sorted(p.combos))
        p.combos[p.empty]['data'][:] = np.nan
        ctx.event('defective')
    p.write()
    if rng.random() < .4:
        with open(p.file('ZZ-ZZ', 'BAD-BAD'), 'wb') as fh:
            fh.write(b'not a database' if rng.random() < .5 else b'')
        ctx.event('defective')
    if rng.random() < .3:
        # stacks are no subdivisions
        from seismic.db.corr_hdf5 import CorrelationDataBase
        from seismic.correlate.stream import CorrStream
        net, sta, cha = ctx.pick(sorted(p.combos))
        co = copy.deepcopy(monproj.CO)
        co['corr_args']['lengthToSave'] = p.save_len
        with CorrelationDataBase(p.file(net, sta), co, 'a') as db:
            db.add_correlation(CorrStream([synth.corr_trace(
                rng.standard_normal(len(p.lag)).astype(np.float32), net=net,
                sta=sta, cha=cha, start=p.t0, length=86400, sr=p.sr,
                start_lag=float(p.lag[0]), loc='-')]), 'stack_86400')
    return p


def run(m, name='compute_velocity_change_bulk'):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        getattr(m, name)()


@scenario(quick=72, thorough=1500, timeout=300, weight=6)
def workflow(ctx):
    """Files agree with an independent computation."""
    from seismic.monitor.monitor import Monitor
    from seismic.monitor.dv import read_dv
    rng = ctx.rng
    p = build(ctx)
    opt = p.options()
    dv = opt['dv'] = dv_options(ctx, p)
    net, sta = '*', '*'
    k0 = ctx.pick(sorted(p.combos))
    if rng.random() < .3:
        net = ctx.pick([k0[0].split('-')[0], sorted(set(k0[0].split('-'))),
                        'X*'])
        sta = ctx.pick(['*', sorted(set(k0[1].split('-'))), k0[1][0]+'*'])
    opt['net'] = dict(network=net, station=sta)
    keep = copy.deepcopy(opt)
    m = Monitor(opt)
    run(m)
    ctx.eq(repr(opt), repr(keep), 'options_changed', 'workflow')
    starts = axis(dv)
    got = {os.path.basename(f)[:-4]: f for f in glob.glob(
        f'{p.root}/vel_change/*.npz')}
    want = {}
    for key in p.combos:
        if not all(any(fnmatch.fnmatchcase(c, q) for q in (
                s if isinstance(s, list) else [s]))
                for codes, s in zip(key, (net, sta))
                for c in codes.split('-')):
            continue
        r = pipeline(ctx, p, key, dv, starts, dv['win_len'])
        if r is None:
            ctx.event('not_processable')
        else:
            want['DV-%s.%s.%s' % key] = (key, r)
    ctx.note(combos=len(p.combos), files=len(want), empty=str(p.empty),
             net=str(net), sta=str(sta), dv=str(dv))
    ctx.eq(sorted(got), sorted(want), 'files', 'workflow')
    for name, (key, r) in want.items():
        d = read_dv(got[name])
        ctx.eq((d.stats.network, d.stats.station, d.stats.channel), key,
               'codes', name)
        ctx.eq([t.timestamp for t in d.stats.corr_start], starts.tolist(),
               'times', name)
        ctx.eq([t.timestamp for t in d.stats.corr_end],
               (starts+dv['win_len']).tolist(), 'times', name)
        ctx.eq({k: d.dv_processing.get(k) for k in (
            'freq_min', 'freq_max', 'tw_start', 'tw_len', 'sides')},
            {k: dv[k] for k in ('freq_min', 'freq_max', 'tw_start', 'tw_len',
                                'sides')}, 'processing', name)
        if r == 'ambiguous':
            ctx.event('ambiguous')
            continue
        v, cc, S, good, grid = r
        ctx.event('files_compared')
        ctx.event('undefined_times', int((~good).sum()))
        ctx.close(d.second_axis, grid, 'grid', name, rtol=1e-9, atol=1e-12)
        if dv['postprocessing']:
            from seismic.monitor.dv import DV
            for f in dv['postprocessing']:
                x = DV(cc, v, 'stretch', S.copy(), grid, 'x', stats=d.stats)
                x = getattr(x, f['function'])(**f['args'])
            S = np.asarray(x.sim_mat)
            ctx.close(d.sim_mat, S, 'similarity', name+' postprocessed',
                      rtol=0, atol=1e-3)
            continue
        ctx.eq(np.isnan(d.value).tolist(), (~good).tolist(), 'undefined',
               f'{name} value')
        ctx.eq(np.isnan(d.corr).tolist(), (~good).tolist(), 'undefined',
               f'{name} corr')
        ctx.eq(np.asarray(d.avail).tolist(), good.tolist(), 'available', name)
        ctx.close(d.corr, cc, 'maximum', name, rtol=0, atol=2e-4)
        if dv['return_sim_mat']:
            ctx.close(d.sim_mat, S, 'similarity', name, rtol=0, atol=2e-4)
            ctx.event('similarities_recomputed', S.size)
        for j in np.flatnonzero(good):
            i = int(np.argmin(np.abs(grid-d.value[j])))
            ctx.close(grid[i], d.value[j], 'value_on_grid', name)
            ctx.expect(S[j, i] >= cc[j]-4e-4, 'value',
                       f'{name} {d.value[j]} expected {v[j]} at {j}')
        # the velocity changes put in
        lev = []
        for j, s in enumerate(starts):
            q = {int(x//21600) for x in np.arange(
                s, s+dv['win_len'], 3600)-p.t0.timestamp if
                0 <= x < p.days*86400}
            lev.append(p.level[q.pop()]*p.step if len(q) == 1 else np.nan)
        lev = np.array(lev)
        use = [j for j in np.flatnonzero(good & ~np.isnan(lev))
               if cc[j] > .9]
        for j in use[1:]:
            if dv['preprocessing'] or dv['tw_len'] is None:
                break
            ctx.event('changes_recovered')
            ctx.expect(abs((d.value[j]-d.value[use[0]])
                           - (lev[j]-lev[use[0]])) < .0061, 'applied_change',
                       f'{name} {d.value[j]-d.value[use[0]]} expected '
                       f'{lev[j]-lev[use[0]]}')
    if rng.random() < .3:
        # again, on top of the results
        old = {f: content(got[f]) for f in got}
        m = Monitor(opt)
        run(m)
        for f in got:
            ctx.eq(repr(content(got[f])), repr(old[f]), 'repeated', f)
    ctx.sig(len(p.combos), dv['sides'], dv['tw_len'] is None, p.sr,
            dv['dt_ref']['method'], len(dv['preprocessing']))


class Comm:
    """One of several processes, which run one after the other."""

    def __init__(self, rank, size, memory):
        self.rank, self.size, self.memory, self.n = rank, size, memory, 0

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def bcast(self, obj, root=0):
        self.n += 1
        if self.rank == root:
            self.memory[self.n] = obj
        return copy.deepcopy(self.memory[self.n])

    def allgather(self, obj):
        raise Inconclusive('not simulated')


@scenario(quick=24, thorough=500, timeout=300, weight=5)
def ranks(ctx):
    """The share of each process: each combination by exactly one."""
    from seismic.monitor import monitor
    rng = ctx.rng
    p = build(ctx, days=1)
    opt = p.options()
    opt['dv'] = dv_options(ctx, p)
    m = monitor.Monitor(opt)
    run(m)
    d = f'{p.root}/vel_change'
    os.rename(d, d+'_one')
    size = int(rng.integers(2, 9))
    memory, done = {}, []
    real = monitor.MPI.COMM_WORLD

    class World:
        pass
    try:
        for rank in range(size):
            w = World()
            w.COMM_WORLD = Comm(rank, size, memory)
            mpi, monitor.MPI = monitor.MPI, w
            try:
                m = monitor.Monitor(copy.deepcopy(opt))
                orig = m.compute_velocity_change

                def record(f, tag, *key, orig=orig):
                    done.append(key)
                    return orig(f, tag, *key)
                m.compute_velocity_change = record
                run(m)
            finally:
                monitor.MPI = mpi
            ctx.event('ranks')
    finally:
        assert monitor.MPI.COMM_WORLD is real
    ctx.eq(sorted(done), sorted(p.combos), 'each_once',
           f'{size} processes')
    same_files(ctx, d, d+'_one', f'{size} processes')
    ctx.sig(size, len(p.combos))


@scenario(quick=8, thorough=80, timeout=400, weight=30)
def processes(ctx):
    """Real processes write what one process writes."""
    from seismic.monitor.monitor import Monitor
    rng = ctx.rng
    p = build(ctx, days=1, nfile=3)
    opt = p.options()
    opt['wfc']['tw_start'] = [1., 3.]
    opt['wfc']['save_comps'] = bool(rng.random() < .5)
    steps = ['compute_velocity_change_bulk',
             'compute_waveform_coherence_bulk']
    m = Monitor(copy.deepcopy(opt))
    for s in steps:
        run(m, s)
    for d in ('vel_change', 'wfc'):
        os.rename(f'{p.root}/{d}', f'{p.root}/{d}_one')
    optf = p.root+'/opt.json'
    with open(optf, 'w') as fh:
        json.dump(opt, fh)
    src = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')
    n = int(rng.integers(2, 5))
    cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(n),
           sys.executable, os.path.join(ROOT, 'vlib', 'mondriver.py'), src,
           optf, ','.join(steps)]
    env = dict(os.environ, TMPDIR=ctx.tmp(), PYTHONHASHSEED='random',
               OMPI_MCA_btl_base_warn_component_unused='0',
               OMPI_MCA_mpi_yield_when_idle='1',
               OMPI_MCA_rmaps_base_oversubscribe='1')
    q = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, text=True, start_new_session=True,
                         cwd=p.root)
    try:
        out, err = q.communicate(timeout=300)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(q.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = q.communicate()
        if 'started' not in out:
            raise Inconclusive('processes did not start: ' + err[-300:])
        ctx.fail('deadlock', f'{n} processes did not finish')
        return
    if 'started' not in out and 'Traceback' not in err:
        raise Inconclusive(f'mpirun failed {q.returncode}: {err[-500:]}')
    ctx.expect(q.returncode == 0 and out.count('finished') == n, 'failed',
               f'{n} processes: {q.returncode} {err[-1500:]}')
    ctx.event('multi_process_runs')
    for d in ('vel_change', 'wfc'):
        same_files(ctx, f'{p.root}/{d}', f'{p.root}/{d}_one', f'{d} {n}')
    ctx.sig(n, len(p.combos))


@scenario(quick=300, thorough=8000)
def times(ctx):
    """Regular axis of windows that start before the end."""
    from seismic.monitor.monitor import make_time_list
    from obspy import UTCDateTime
    rng = ctx.rng
    t0 = synth.rand_time(rng, res=1.)
    inc = ctx.pick([1, 60, 3600, 86400, 1800, 0.5, 7.25])
    length = ctx.pick([1, 3600, 86400, 10*86400, .5])
    if rng.random() < .4:
        inc = int(rng.integers(1, 200000))
        length = int(rng.integers(1, 900000))
    n = int(rng.integers(1, 400))
    # an end exactly on the axis is only defined for whole seconds
    rest = ctx.pick([0, 0, inc/2, inc/4] if inc % 1 == 0 else [inc/2, inc/4])
    end = t0+n*inc+rest
    a, b = make_time_list(*(ctx.pick([str, UTCDateTime])(t) for t in (
        t0, end)), inc, length)
    ctx.event('time_axes')
    want = n + (1 if rest else 0)
    ctx.eq(len(a), want, 'number', f'{inc} {n} {rest}')
    ctx.close(a, t0.timestamp+inc*np.arange(want), 'starts', '', rtol=0,
              atol=1e-5)
    ctx.close(np.asarray(b)-np.asarray(a), np.full(want, float(length)),
              'lengths', '', rtol=0, atol=1e-5)
    ctx.raises(ValueError, lambda: make_time_list(str(end), str(t0), inc,
                                                  length), 'order')
    ctx.raises(ValueError, lambda: make_time_list(str(t0), str(end), -inc,
                                                  length), 'negative')
    ctx.raises(ValueError, lambda: make_time_list(str(t0), str(end), inc,
                                                  0), 'negative')
    ctx.sig(inc, length, n)


@scenario(quick=300, thorough=8000)
def selection(ctx):
    """Both codes of a combination have to be requested."""
    from seismic.monitor.monitor import corr_find_filter
    rng = ctx.rng
    d = ctx.tmp() + ctx.pick(['/corr', '/a.b-c.d', '/x'])
    os.makedirs(d)
    nets = [ctx.pick(['XX', 'X', 'XX1', 'Z9', 'AB', 'x1']) for _ in range(3)]
    stas = [ctx.pick(['A', 'A1', 'A10', 'BA', 'GEO1', 'GEO2', 'a'])
            for _ in range(4)]
    have = set()
    for n1 in nets:
        for n2 in nets:
            for s1 in stas:
                for s2 in stas:
                    if rng.random() < .4:
                        have.add((f'{n1}-{n2}', f'{s1}-{s2}'))
    for n, s in have:
        open(f'{d}/{n}.{s}.h5', 'w').close()
    for other in ('notes.txt', 'XX.A.h5', 'XX-XX.A-A.npz'):
        open(f'{d}/{other}', 'w').close()

    def ask(codes, wild):
        q = rng.random()
        if q < .25:
            return '*'
        if q < .5:
            return ctx.pick(codes + wild)
        return [ctx.pick(codes + wild) for _ in range(int(
            rng.integers(1, 4)))]
    net = ask(nets, ['X*', '??', 'Z*', '*1'])
    sta = ask(stas, ['A*', 'GEO?', '?', '*1', 'A1*'])

    def match(codes, pats):
        return all(any(fnmatch.fnmatchcase(c, q) for q in (
            pats if isinstance(pats, list) else [pats]))
            for c in codes.split('-'))
    want = sorted((n, s, f'{d}/{n}.{s}.h5') for n, s in have
                  if match(n, net) and match(s, sta))
    got = corr_find_filter(d, dict(network=net, station=sta))
    ctx.event('selections')
    ctx.note(net=str(net), sta=str(sta))
    ctx.eq(sorted(zip(*got)), want, 'selection', f'{net} {sta}')
    ctx.sig(str(net), str(sta), len(want))
