"""
The whole workflow (archive on disk to correlation database on disk) is run
on random archives and configurations, with one and with several processes;
the database is read with plain h5py and compared entry by entry with an
independent model of cutting, pre-processing, correlating and stacking.
"""
import copy
import glob
import json
import os
import signal
import subprocess
import sys
import time

import numpy as np
import scipy.signal
from obspy import UTCDateTime
from obspy.clients.fdsn.header import FDSNNoDataException

from vlib.core import scenario, Inconclusive, ROOT
from vlib import synth, archive, world, refcorr

REQUIRED = {'correlations_compared': 2000, 'stacks_compared': 100,
            'unknown_response': 4,
            'multi_process_runs': 8, 'deconvolved': 30, 'from_remote': 10}
ASSUMPTIONS = [
    'values agree within the single precision of the workflow',
    'one location code per channel, stations sampled on grids that differ by '
    'less than half a sample',
    'processes are started with the installed mpirun on one machine']

PP = 'seismic.correlate.preprocessing_'
TD = {'demean': (PP+'td.detrend', {'type': 'constant'}),
      'detrend': (PP+'td.detrend', {}),
      'sign': (PP+'td.signBitNormalization', {}),
      'std': (PP+'td.normalizeStandardDeviation', {})}


def td_option(step):
    if isinstance(step, tuple):
        return {'function': PP+'td.clip', 'args': {'std_factor': step[1]}}
    f, a = TD[step]
    return {'function': f, 'args': dict(a)}


class Fine(refcorr.Record):
    """Recorded with a higher rate; cut returns the decimated samples."""
    factor = 1

    def cut(self, start, end):
        from obspy.signal.filter import lowpass_cheby_2
        f = self.factor
        self.sr *= f
        t, x = super().cut(start, end)
        self.sr /= f
        out = np.full(len(x[::f]), np.nan)
        (a, b), = refcorr.runs(x)
        y = lowpass_cheby_2(x[a:b], .5*self.sr, self.sr*f, maxorder=12)
        assert a == 0
        z = y[::f]
        out[:len(z)] = z
        return t, out


class Config:
    """A random configuration, its archive and the expected database."""

    def __init__(self, ctx, small=False, simple=False, **force):
        rng = ctx.rng
        sr = float(rng.choice([1., 2., 4., 5.] + ([] if small else [10.])))
        corr_len = float(rng.choice([120, 200, 300, 450]))
        corr_inc = corr_len if rng.random() < .6 else float(
            rng.choice([100, 150, 300]))
        n = int(rng.integers(1, 4 if small else 6))
        read_len = max(n*corr_inc, corr_len)
        nb = int(rng.integers(1, 4))
        read_inc = read_len
        if not simple and rng.random() < .2:
            read_inc = float(np.ceil(read_len*rng.uniform(.6, 1.3)))
        start = synth.rand_time(rng, 1995, 2029, res=1.)
        end = start + nb*read_inc
        if not simple and rng.random() < .2:
            end -= np.floor(read_inc*.4)
        self.method = str(rng.choice(
            ['betweenStations']*3 + ['betweenComponents', 'autoComponents',
                                     'allSimpleCombinations',
                                     'allCombinations']))
        self.method = force.get('method', self.method)
        dur = nb*read_inc + read_len
        chans = None
        if self.method == 'betweenComponents':
            chans = ['HHZ', 'HHE'] if rng.random() < .5 else \
                ['HHE', 'HHN', 'HHZ']
        elif self.method == 'allCombinations':
            chans = ['HHZ']
        fine = force.get('fine', not small and rng.random() < .1)
        factor = int(rng.choice([2, 4, 5])) if fine else 1
        recs = world.records(
            rng, start-30, dur+60, sr*factor, corr_len, chans=chans,
            kinds=['full'] if fine else world.KINDS, offset=not fine,
            flips=True, nsta=force.get('nsta'))
        if fine:
            for r in recs:
                r.__class__ = Fine
                r.factor = factor
                r.sr = sr
        self.recs = recs
        self.coord = {r.id[:2]: synth.coords(rng) for r in recs}
        self.inv = bool(rng.random() < .6)
        if not self.inv:
            for r in recs:
                r.flip = False
        flips = {r.id[:2] for r in recs if r.flip}
        for r in recs:
            r.flip = r.cha[-1] == 'Z' and r.id[:2] in flips
        self.length = float(rng.choice([5, 10.5, 20, 33.3, 5.51]))
        td, whiten, pre = [], False, ()
        if rng.random() < .5:
            td = [['demean'], ['detrend'], ['demean', ('clip', 1.5)],
                  ['demean', 'std'], ['demean', 'sign']][
                      int(rng.integers(5))]
        if not td and rng.random() < .5:
            whiten = True
        elif rng.random() < .3:
            pre = (('bandpass', .02*sr, .2*sr),)
        if not pre and rng.random() < .25:
            ms = [start+float(rng.uniform(-100, dur))
                  for _ in range(int(rng.integers(1, 3)))]
            ms = [(a.ns+37*10**6, a.ns+int(
                rng.uniform(5, 2*corr_len)*1e9)) for a in ms]
            ms = world.safe_masks(ms, recs, [
                (start+b*read_inc).ns + int(o*1e9) for b in range(nb)
                for o in [0, read_len] + [
                    k*corr_inc+w for k in range(int(read_len/corr_inc)+1)
                    for w in (0, corr_len)]])
            pre = (('mask', ms, False),) if ms else ()
        steps = []
        for p in pre:
            if p[0] == 'bandpass':
                steps.append({
                    'function': PP+'stream.stream_filter', 'args': {
                        'ftype': 'bandpass', 'filter_option': {
                            'freqmin': p[1], 'freqmax': p[2]}}})
            else:
                steps.append({
                    'function': PP+'stream.stream_mask_at_utc', 'args': {
                        'starts': [a for a, _ in p[1]],
                        'ends': [b for _, b in p[1]], 'reverse': p[2]}})
        fd = [{'function': PP+'fd.spectralWhitening', 'args': {}}] \
            if whiten else []
        self.tol = 3e-4
        if whiten:
            self.tol = 4e-3
        if 'sign' in td:
            self.tol = 2e-2
        self.recombine = force.get('recombine', bool(rng.random() < .4))
        self.delete = bool(self.recombine and rng.random() < .3)
        self.delete = force.get('delete', self.delete)
        self.separate = bool(rng.random() < .5)
        normalize = bool(rng.random() < .7)
        self.normalize = normalize
        self.wanted = xc = None
        stas = sorted({r.id[:2] for r in recs})
        if self.method == 'betweenStations' and len(stas) > 2 \
                and rng.random() < .4:
            ps = [(stas[i], stas[j]) for i in range(len(stas))
                  for j in range(i+1, len(stas))]
            k = int(rng.integers(1, len(ps)))
            ps = [ps[int(i)] for i in rng.permutation(len(ps))[:k]]
            self.wanted = {frozenset(p) for p in ps}
            xc = [f'{a[0]}-{b[0]}.{a[1]}-{b[1]}' for a, b in ps]
        self.comp = '*'
        used = recs
        if rng.random() < .15 and 'comp' not in force:
            self.comp = 'Z'
            used = [r for r in recs if r.cha[-1] == 'Z']
        center = bool(rng.random() < .3)
        self.used = used
        self.start, self.end = start, end
        self.opt = dict(
            sr=sr, read_len=read_len, read_inc=read_inc, corr_len=corr_len,
            corr_inc=corr_inc, method=self.method, comp=self.comp,
            length=self.length, td=[td_option(s) for s in td], fd=fd,
            pre=steps, recombine=self.recombine, delete=self.delete,
            separate=self.separate, normalize=normalize, center=center,
            xcombis=xc)
        self.args = dict(
            read_len=read_len, read_inc=read_inc, corr_len=corr_len,
            corr_inc=corr_inc, length=self.length, method=self.method,
            td=td, whiten=whiten, normalize=normalize, pre=pre,
            wanted=self.wanted)
        self.read_len = read_len
        ctx.note(start=start, end=end, ids=[r.id for r in recs], inv=self.inv,
                 factor=factor, **{k: v for k, v in self.opt.items()})
        ctx.sig(self.method, sr, read_len, read_inc, corr_len, corr_inc,
                self.recombine, self.delete, self.separate, tuple(map(
                    str, td)), whiten, bool(pre), factor, len(recs))

    def write(self, path):
        tr = []
        for r in self.recs:
            tr += world.traces(r, r.sr*getattr(r, 'factor', 1))
        if not tr:
            return False
        archive.write_sds(path, tr)
        if self.inv:
            inv = synth.inventory(
                sorted(self.coord), self.coord,
                sorted({r.cha for r in self.recs}))
            fl = {r.id[:2] for r in self.recs if r.flip}
            for net in inv:
                for sta in net:
                    for c in sta:
                        if c.code[-1] == 'Z' and (net.code, sta.code) in fl:
                            c.dip = 90.
            archive.write_inventory(path, inv)
        return True

    def options(self, path, start=None, end=None, **kw):
        o = dict(self.opt, **kw)
        return copy.deepcopy(archive.options(
            path, start or self.start, end or self.end, **o))

    def run(self, path, start=None, end=None, **kw):
        o = self.options(path, start, end, **kw)
        for p in o['co']['preProcessing']:
            for k in ('starts', 'ends'):
                if k in p['args']:
                    p['args'][k] = [UTCDateTime(ns=t)
                                    for t in p['args'][k]]
        c = archive.correlator(path, o)
        c.pxcorr()
        archive.close_logs()

    def expected(self, start=None, end=None, **kw):
        a = dict(self.args, **kw)
        out, batches = refcorr.expected(
            self.used, (start or self.start).ns, (end or self.end).ns, **a)
        want = {}
        if not self.delete:
            want.update({('subdivision',)+k: c for k, c in out.items()})
        if self.recombine:
            tag = f'stack_{self.read_len}'
            for _, b in batches:
                for k, c in refcorr.stack(b).items():
                    want.setdefault((tag,)+k, c)
        return want


def compare_db(ctx, cfg, got, want, label=''):
    g, w = {k: v for k, v in got.items()}, want
    # file times have a precision of 1 us
    def rnd(d):
        return {k[:4]+(round(k[4]/1e4), round(k[5]/1e4)): v
                for k, v in d.items()}
    g, w = rnd(g), rnd(w)
    miss = sorted(set(w)-set(g))
    more = sorted(set(g)-set(w))
    ctx.expect(not miss, 'missing', f'{label} {len(miss)} of {len(w)} '
               f'correlations not in the database, e.g. {miss[:2]}; not '
               f'expected: {more[:2]}')
    ctx.expect(not more, 'unexpected', f'{label} {len(more)} correlations '
               f'not expected, e.g. {more[:2]}')
    scale = max([np.nanmax(np.abs(c)) for c in w.values()
                 if not np.isnan(c).all()] or [1.])
    sr = cfg.opt['sr']
    m = int(np.ceil(round(cfg.length*sr, 9)))
    for k, c in w.items():
        d, at = g[k]
        st = k[0] != 'subdivision'
        ctx.event('stacks_compared' if st else 'correlations_compared')
        ok = np.isfinite(c)
        if not ok.any():
            # a window without energy: zero or rounding errors
            ctx.event('undetermined')
            continue
        ref = max(np.max(np.abs(c[ok]), initial=0), 1e-3*(
            1 if st or cfg.normalize else scale))
        ctx.close(np.asarray(d, float), c,
                  'stack' if st else 'correlation', f'{label} {k}', rtol=0,
                  atol=cfg.tol*(ref if not st and not cfg.normalize else 1.)
                  * (8 if st else 1))
        ctx.close([at['start_lag'], at['sampling_rate']], [-m/sr, sr],
                  'lag', f'{label} {k} lag axis', atol=2./sr if
                  not cfg.args else 1e-3)
        a, b = [tuple(q) for q in zip(k[1].split('-'), k[2].split('-'))]
        if cfg.inv:
            la = [at[q] for q in ('stla', 'stlo', 'stel', 'evla', 'evlo',
                                  'evel')]
            ctx.close(la, cfg.coord[a]+cfg.coord[b], 'coordinates',
                      rtol=1e-9)
        else:
            ctx.expect('stla' not in at, 'coordinates_made_up')


def check_files(ctx, cfg, corr):
    import h5py
    for f in glob.glob(os.path.join(corr, '*.h5')):
        p = os.path.basename(f)[:-3].split('.')
        with h5py.File(f, 'r') as h:
            def visit(name, obj):
                if isinstance(obj, h5py.Dataset) and \
                        'corr_start' in obj.attrs:
                    at = obj.attrs
                    ctx.expect([at['network'], at['station']] == p[:2] and (
                        not cfg.separate or at['channel'] == p[2]),
                        'wrong_file', f'{name} in {f}')
            h.visititems(visit)
        ctx.eq(len(p), 3 if cfg.separate else 2, 'file_name', f)


@scenario(quick=700, thorough=12000, weight=3, timeout=200)
def workflow(ctx):
    cfg = Config(ctx)
    path = ctx.tmp()
    if not cfg.write(path):
        return
    if not cfg.used or not any(r.segs for r in cfg.used):
        return
    if cfg.comp == 'Z' and not any(
            r.cha[-1] == 'Z' and r.segs for r in cfg.recs):
        return
    cfg.run(path)
    corr = os.path.join(path, 'corr')
    compare_db(ctx, cfg, archive.dump_db(corr), cfg.expected())
    check_files(ctx, cfg, corr)


class Remote:
    """A data centre that knows the responses only."""
    def __init__(self, inv, unknown=(), silent=False):
        self.inv, self.asked = inv, []
        self.unknown, self.silent = unknown, silent

    def get_stations(self, network, station, channel='*', level='response',
                     **kw):
        self.asked.append((network, station))
        out = self.inv.select(network=network, station=station).copy()
        if (network, station) in self.unknown:
            if not self.silent:
                raise FDSNNoDataException('No data available for request.')
            for c in (c for net in out for sta in net for c in sta):
                c.response = None
        return out


@scenario(quick=90, thorough=1500, weight=3, timeout=200)
def responses(ctx):
    """Sensors with different responses, some only known to the data centre.

    The response of each record is removed once.
    """
    from obspy.core.inventory import Response
    rng = ctx.rng
    cfg = Config(ctx, small=True, fine=False)
    path = ctx.tmp()
    cfg.inv = True
    if 'sign' in cfg.args['td'] or cfg.args['whiten']:
        # the signs of silent records and the one of the mean, which is
        # removed with the response, are those of rounding errors
        return
    if not cfg.write(path) or not any(r.segs for r in cfg.used):
        return
    resp = {}
    for s in sorted(cfg.coord):
        for c in sorted({r.cha for r in cfg.recs}):
            g = 10**rng.uniform(-1, 4)
            w = .3*cfg.opt['sr']
            z, p = ctx.pick([([], []), ([], [-w+0j]),
                             ([], [-w+.3j*w, -w-.3j*w])])
            resp[s+(c,)] = Response.from_paz(
                z, p, g, stage_gain_frequency=.1*cfg.opt['sr'],
                input_units='M/S', output_units='COUNTS')
    full = synth.inventory(sorted(cfg.coord), cfg.coord,
                           sorted({r.cha for r in cfg.recs}))
    fl = {r.id[:2] for r in cfg.recs if r.flip}
    for net in full:
        for sta in net:
            for c in sta:
                c.response = resp[net.code, sta.code, c.code]
                if c.code[-1] == 'Z' and (net.code, sta.code) in fl:
                    c.dip = 90.
    local = full.copy()
    far = set()
    for net in local:
        for sta in net:
            k = ctx.pick(['all', 'all', 'none', 'some'])
            for c in sta:
                if k == 'none' or k == 'some' and rng.random() < .5:
                    c.response = None
                    far.add((net.code, sta.code))
    archive.write_inventory(path, local)
    unknown = [k for k in sorted(far) if rng.random() < .25 and not any(
        c.response for c in local.select(*k)[0][0])]
    remote = Remote(full, unknown, rng.random() < .5)
    for r in cfg.recs:
        r.response = resp[r.id]
        if r.id[:2] in unknown and r.segs:
            # nobody knows it: as if there were no data
            r.segs = []
            ctx.event('unknown_response')
    o = cfg.options(path, rem_resp=True)
    for p in o['co']['preProcessing']:
        for k in ('starts', 'ends'):
            if k in p['args']:
                p['args'][k] = [UTCDateTime(ns=t) for t in p['args'][k]]
    c = archive.correlator(path, o, remote=remote)
    c.pxcorr()
    archive.close_logs()
    want = cfg.expected()
    ctx.note(far=sorted(far), asked=remote.asked)
    ctx.event('from_remote', len(remote.asked))
    ctx.expect(set(remote.asked) <= far, 'asked_needlessly',
               f'{remote.asked}: only {far} lack their response')
    if want:
        ctx.event('deconvolved')
    corr = os.path.join(path, 'corr')
    compare_db(ctx, cfg, archive.dump_db(corr), want, 'responses')


def launch(ctx, cfg, path, nproc, kill='', limit=150, **kw):
    """Run the workflow with several processes; returns its output."""
    o = cfg.options(path, **kw)
    optf = os.path.join(path, 'options.json')
    with open(optf, 'w') as fh:
        json.dump(o, fh)
    src = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')
    cmd = [sys.executable, os.path.join(ROOT, 'vlib', 'driver.py'), src,
           path, optf] + ([kill] if kill else [])
    if nproc > 1:
        cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np',
               str(nproc)] + cmd
    env = dict(os.environ, TMPDIR=path, PYTHONHASHSEED='random',
               OMPI_MCA_btl_base_warn_component_unused='0',
               OMPI_MCA_mpi_yield_when_idle='1',
               OMPI_MCA_rmaps_base_oversubscribe='1')
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, text=True,
                         start_new_session=True, cwd=path)
    t0 = time.time()
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return 'timeout', out, err
    ctx.event('process_seconds', time.time()-t0)
    return p.returncode, out, err


@scenario(quick=28, thorough=260, weight=9, timeout=400)
def processes(ctx):
    """The same configuration with several processes."""
    cfg = Config(ctx, small=True)
    nproc = int(ctx.pick([2, 3, 4, 6]))
    ctx.note(nproc=nproc)
    path = ctx.tmp()
    if not cfg.write(path):
        return
    if not cfg.used or not any(r.segs for r in cfg.used):
        return
    rc, out, err = launch(ctx, cfg, path, nproc)
    if rc == 'timeout':
        if 'started' not in out:
            raise Inconclusive('processes did not start: ' + err[-300:])
        ctx.fail('deadlock', f'{nproc} processes did not finish')
        return
    if 'started' not in out and 'Traceback' not in err:
        raise Inconclusive(f'mpirun failed {rc}: {err[-500:]}')
    ctx.expect(rc == 0 and 'finished' in out, 'failed',
               f'{nproc} processes: {rc} {err[-1500:]}')
    ctx.event('multi_process_runs')
    corr = os.path.join(path, 'corr')
    compare_db(ctx, cfg, archive.dump_db(corr), cfg.expected(),
               f'{nproc} processes')
    check_files(ctx, cfg, corr)


@scenario(quick=60, thorough=600, weight=4)
def metamorphic(ctx):
    """Other stations and longer archives change nothing for a pair."""
    cfg = Config(ctx, small=True, method='betweenStations', fine=False,
                 nsta=3, recombine=False, delete=False, comp='*')
    path = ctx.tmp()
    if not cfg.write(path):
        return
    if not any(r.segs for r in cfg.used):
        return
    cfg.wanted = cfg.args['wanted'] = None
    cfg.run(path, xcombis=None)
    whole = archive.dump_db(os.path.join(path, 'corr'))
    stas = sorted({r.id[:2] for r in cfg.recs})
    for i in range(len(stas)):
        for j in range(i+1, len(stas)):
            if not all(any(r.segs for r in cfg.recs if r.id[:2] == s)
                       for s in (stas[i], stas[j])):
                continue
            a, b = stas[i], stas[j]
            sub = os.path.join(path, f'p{i}{j}')
            os.makedirs(sub)
            for d in ('mseed', 'inventory'):
                if os.path.exists(os.path.join(path, d)):
                    os.symlink(os.path.join(path, d), os.path.join(sub, d))
            cfg.run(sub, xcombis=None, net=[a[0], b[0]], sta=[a[1], b[1]])
            part = archive.dump_db(os.path.join(sub, 'corr'))
            n = {(f'{a[0]}-{b[0]}', f'{a[1]}-{b[1]}'),
                 (f'{b[0]}-{a[0]}', f'{b[1]}-{a[1]}')}
            want = {k: v for k, v in whole.items() if k[1:3] in n}
            ctx.eq(sorted(part), sorted(want), 'pair_alone')
            for k in want:
                ctx.event('correlations_compared')
                ctx.close(part[k][0], want[k][0], 'pair_alone_values',
                          atol=2e-3 if cfg.normalize else None, rtol=2e-3)
