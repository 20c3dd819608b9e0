"""
Every public function and method that takes mutable inputs is called with
random inputs. A monitor takes deep snapshots of all inputs (arrays with their
masks, headers, option dictionaries, nested lists, streams, objects, files)
before and after the call, calls a second time with the same inputs and
compares results, and works in place on promised copies to see whether the
original follows. The workflows run with option dictionaries and option files
on archives and databases that are hashed before and after.
"""
import copy
import hashlib
import locale
import os
import warnings

import numpy as np
import yaml
from obspy import Stream, UTCDateTime

from vlib.core import scenario
from vlib import synth, archive, monproj
from vlib.frozen import freeze, diff, shared
from checks.c21 import wavefield

ASSUMPTIONS = [
    'functions that work on obspy streams or traces and return them, and '
    'those documented to work in place, may change the stream, the bulk or '
    'the results they work on, but none of their other inputs',
    'the combinations of a stream refer to the stream sorted by its codes, '
    'which is sorted in place',
    'views of the same data are allowed unless a copy is promised (copy, '
    'create_corr_bulk with inplace=False, slices and selections of a bulk, '
    'results of measurements)',
    'a second call agrees within 1e-9 of the first; the processing history '
    'of the waveforms may differ (ObsPy orders merged traces by their address '
    'in memory, and windows are cut relative to the first trace)']
REQUIRED = {'calls': 4000, 'inputs_compared': 12000, 'repeated': 3500,
            'copies': 300, 'in_place_on_copy': 400, 'streams': 300,
            'headers': 150, 'databases': 150, 'workflows': 120,
            'option_files': 12, 'files_hashed': 300, 'plots': 200,
            'arguments_of_in_place': 300}


def calm(f, *a, **kw):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **kw)


def call(ctx, name, f, *args, free=(), again=True, apart=False, **kw):
    """
    Call f twice, neither call may change any of the arguments.

    free: positions or names of arguments that f is documented to work on
    """
    ctx.event('calls')
    ctx.event('fn_' + name)
    ctx.note(last_call=name)

    def snap():
        return {k: freeze(v) for k, v in list(enumerate(args))
                + list(kw.items()) if k not in free}

    before = snap()
    if free:
        args = list(args)
        given = copy.deepcopy([args, kw])
    out = calm(f, *args, **kw)
    if hasattr(out, '__next__'):
        out = list(out)

    def check(when):
        after = snap()
        for k in before:
            d = diff(before[k], after[k])
            ctx.event('inputs_compared')
            ctx.expect(d is None, f'input_changed:{name}', f'{k} {when}',
                       name=name, where=str(d)[:300])

    check('')
    if not again:
        return out
    first = freeze(out)
    if free:
        args, kw2 = given
        for k in free:
            if k in kw2:
                kw[k] = kw2[k]
    two = calm(f, *args, **kw)
    if hasattr(two, '__next__'):
        two = list(two)
    ctx.event('repeated')
    d = diff(first, freeze(two), rtol=1e-9)
    ctx.expect(d is None, f'second_call_differs:{name}', name, name=name,
               where=str(d)[:300])
    if not free:
        check('second call')
    if apart:
        inp = [v for k, v in list(enumerate(args))+list(kw.items())]
        ctx.expect(not shared(out, inp), f'shares_memory:{name}', name, name=name)
    return out


def rand_matrix(ctx, n=None, m=None, nans=False):
    rng = ctx.rng
    n = n or int(rng.integers(60, 160))
    m = m or int(rng.choice([1, 2, 3, 6]))
    A = rng.standard_normal((m, n))*10.**rng.integers(-12, 8, size=(m, 1))
    A += rng.normal(size=(m, 1))
    if nans and m > 1:
        A[rng.integers(m)] = np.nan
    return A


@scenario(quick=250, thorough=6000)
def preprocessing(ctx):
    """Steps of the time and frequency domain pre-processing."""
    import seismic.correlate.preprocessing_td as td
    import seismic.correlate.preprocessing_fd as fd
    rng = ctx.rng
    sr = float(rng.choice([5, 10, 25]))
    A = rand_matrix(ctx)
    if rng.random() < .2:
        A = A.astype(np.float32)
    n = A.shape[1]
    band = {'type': 'bandpass', 'freqmin': .05*sr, 'freqmax': .3*sr}
    if rng.random() < .5:
        band['zerophase'] = True
    par = {'sampling_rate': sr, 'lengthToSave': n/sr/4,
           'center_correlation': True}
    steps = [
        ('clip', td.clip, {'std_factor': float(rng.uniform(.5, 3))}),
        ('detrend', td.detrend, {'type': ctx.pick(['linear', 'constant']),
                                 'method': ctx.pick(['qr', 'scipy'])}),
        ('detrend', td.detrend, {}),
        ('detrend_scipy', td.detrend_scipy, {'type': ctx.pick(
            ['linear', 'constant'])}),
        ('mute', td.mute, dict(
            {'taper_len': 5/sr, 'extend_gaps': bool(rng.random() < .5)},
            **ctx.pick([{}, {'filter': band}, {'threshold': 1.}, {
                'std_factor': 1.5, 'filter': band}]))),
        ('normalizeStandardDeviation', td.normalizeStandardDeviation, {}),
        ('signBitNormalization', td.signBitNormalization, {}),
        ('taper', td.taper, {'type': 'cosine_taper', 'p': .2}),
        ('TDnormalization', td.TDnormalization, {
            'windowLength': 10/sr, 'filter': ctx.pick([None, {}, band])}),
        ('TDfilter', td.TDfilter, band),
        ('zeroPadding', td.zeroPadding, {'type': ctx.pick([
            'nextFastLen', 'avoidWrapAround', 'avoidWrapFastLen'])})]
    for i in rng.permutation(len(steps))[:4]:
        name, f, args = steps[i]
        call(ctx, name, f, A.copy(), args, par)
    call(ctx, 'detrendqr', td.detrendqr, ctx.pick([A, A[0]]))
    call(ctx, 'demean', td.demean, ctx.pick([A, A[0]]))
    if A.shape[0] % 3:
        A = np.repeat(A, 3, 0)*rng.uniform(.5, 2, (3*A.shape[0], 1))
    B = np.fft.rfft(A, axis=1)
    par['freqs'] = np.fft.rfftfreq(n, 1/sr)
    q = np.sort(rng.uniform(.02, .45, 4))*sr
    call(ctx, 'FDfilter', fd.FDfilter, B.copy(),
         {'flimit': q.tolist()}, par)
    call(ctx, 'FDsignBitNormalization', fd.FDsignBitNormalization, B.copy(),
         {}, par)
    call(ctx, 'spectralWhitening', fd.spectralWhitening, B.copy(),
         ctx.pick([{}, {'joint_norm': True}]), par)
    ctx.sig(A.shape, str(A.dtype))


def rand_bulk(ctx, kind=None, m=None, half=None, nans=True, inc=600.):
    """A bulk holding a stretched wavefield."""
    rng = ctx.rng
    sr = float(rng.choice([1, 5, 10]))
    half = half or int(rng.integers(70, 110))
    kind = kind or ctx.pick(['sym', 'sym', 'asym'])
    a = half if kind == 'sym' else half - int(rng.integers(5, 20))
    t = np.arange(-a, half+1)/sr
    m = m or int(rng.choice([2, 3, 5, 8]))
    r = wavefield(rng, sr, half/sr)
    v = rng.integers(-4, 5, m)*.003
    A = np.array([r(t*np.exp(-x)) for x in v])
    A += .02*np.std(A)*rng.standard_normal(A.shape)
    if nans and m > 2 and rng.random() < .4:
        A[int(rng.integers(m))] = np.nan
    t0 = synth.rand_time(rng, res=1.)
    b = synth.bulk(A, [t0+inc*i for i in range(m)], sr=sr,
                   start_lag=float(t[0]), length=inc, rng=rng)
    if rng.random() < .5:
        b.stats['processing_bulk'] = ['made by hand']
    return b, r(t), sr, t, half


@scenario(quick=250, thorough=6000)
def matrices(ctx):
    """Post-processing functions for matrices and their headers."""
    import seismic.monitor.post_corr_process as pp
    from seismic.monitor.trim import corr_mat_trim
    rng = ctx.rng
    b, r, sr, t, half = rand_bulk(ctx)
    A, st = b.data, b.stats
    m, n = A.shape
    if ctx.chance(.2):
        # single samples that are not defined
        A[int(rng.integers(m)), int(rng.integers(n))] = ctx.pick([
            np.nan, np.inf, -np.inf])
    if ctx.chance(.2):
        A *= 10.**rng.integers(-12, 8)
    lim = float(rng.uniform(.3, .8))*half/sr
    new = [st.corr_start[0]+i*300. for i in range(int(rng.integers(2, 6)))]
    ends = ctx.pick([[], [x+700. for x in new]])
    shifts = rng.uniform(-1, 1, m)/sr
    steps = [
        ('corr_mat_clip', pp.corr_mat_clip, (A, 1.5, ctx.pick([
            0, 1, None])), {}),
        ('corr_mat_smooth', pp.corr_mat_smooth, (
            A, 3 if m > 4 else 1, ctx.pick(['flat', 'hanning']), 1), {}),
        ('corr_mat_smooth', pp.corr_mat_smooth, (
            ctx.pick([A, A[0]]), 5, ctx.pick(['flat', 'hanning']), 0), {}),
        ('corr_mat_filter', pp.corr_mat_filter, (
            A, st, [.05*sr, .3*sr]), {}),
        ('corr_mat_resample', pp.corr_mat_resample, (A, st, new, ends), {}),
        ('corr_mat_correct_decay', pp.corr_mat_correct_decay, (
            A, st), {}),
        ('corr_mat_envelope', pp.corr_mat_envelope, (A,), {}),
        ('corr_mat_normalize', pp.corr_mat_normalize, (A, st), dict(
            normtype=ctx.pick(['energy', 'max', 'absmax', 'abssum']),
            **ctx.pick([{}, dict(starttime=-lim, endtime=lim)]))),
        ('corr_mat_mirror', pp.corr_mat_mirror, (A, st), {}),
        ('corr_mat_taper_center', pp.corr_mat_taper_center, (
            A, st, lim/2), {}),
        ('corr_mat_extract_trace', pp.corr_mat_extract_trace, (
            A, st, ctx.pick(['mean', 'median', 'norm_mean',
                             'similarity_percentile'])), {}),
        ('corr_mat_trim', corr_mat_trim, (A, st, -lim, lim), {}),
        ('apply_shift', pp.apply_shift, (A, st, shifts), {}),
        ('apply_stretch', pp.apply_stretch, (
            A, st, shifts*sr*.01), {}),
        ('unicode_to_string', pp.unicode_to_string, (
            {'a': ['b', {'c': 1}]},), {})]
    if not np.isfinite(A).all():
        steps = [s for s in steps if s[0] not in (
            'corr_mat_correct_decay', 'apply_shift', 'apply_stretch')]
    for i in rng.permutation(len(steps))[:6]:
        name, f, args, kw = steps[i]
        # the arrays might be shared by the functions called so far
        args = tuple(copy.deepcopy(a) for a in args)
        # the limits are changed in the given header
        call(ctx, name, f, *args, free=(1,) if name == 'corr_mat_trim'
             else (), **kw)
    # in place: the remaining arguments are not changed
    A2, st2 = A.copy(), copy.deepcopy(st)
    call(ctx, 'corr_mat_taper', pp.corr_mat_taper, A2, st2, lim/4, free=(0,))
    args = [ctx.pick([('corr_mat_resample_time', sr*.7), (
        'corr_mat_decimate', 2), ('corr_mat_resample_or_decimate', sr/2)])]
    for name, x in args:
        call(ctx, name, getattr(pp, name), A2, st2, x, free=(0, 1))
    ctx.sig(A.shape)


@scenario(quick=200, thorough=4000, weight=2)
def measurements(ctx):
    """Functions that measure and apply stretches and shifts."""
    import seismic.monitor.stretch_mod as sm
    import seismic.monitor.post_corr_process as pp
    rng = ctx.rng
    b, r, sr, t, half = rand_bulk(ctx, kind='sym', nans=False)
    A, st = b.data, b.stats
    m, n = A.shape
    first = int(rng.integers(0, half//3))
    tw = [np.arange(first, int(rng.integers(first+30, half-8)))]
    sides = ctx.pick(['both', 'left', 'right'])
    refs = np.array([r, r*rng.uniform(.5, 2)+.01*rng.standard_normal(n)])
    ref = ctx.pick([r, refs, refs[:1]])
    kw = dict(tw=tw, stretch_range=.03, stretch_steps=31, sides=sides)
    vec = np.linspace(-.02, .02, 11)
    mat = np.array([np.interp(t*np.exp(-x), t, r) for x in vec])
    trim = dict(ref_tr_trim=(-half/sr, half/sr), ref_tr_stats=st)
    panel = calm(sm.multi_ref_vchange, A, np.array([
        r*(1+.01*i)+.01*rng.standard_normal(n) for i in range(3)]), **kw)
    p0, p1 = panel['reftr_0'], panel['reftr_1']
    sh = dict(shift_range=5, shift_steps=11, tw=tw, single_sided=False)
    steps = [
        ('time_windows_creation', sm.time_windows_creation, (
            [1, 5, 9], ctx.pick([[3, 4, 5], 4])), {}),
        ('compute_wfc', sm.compute_wfc, (A, tw, r, sides), {}),
        ('wfc_multi_reftr', sm.wfc_multi_reftr, (A, ref, tw, sides), {}),
        ('velocity_change_estimate', sm.velocity_change_estimate, (
            A, tw, mat, vec, sides, True), {}),
        ('time_stretch_estimate', sm.time_stretch_estimate, (A,), dict(
            kw, ref_trc=ctx.pick([None, r]))),
        ('time_stretch_estimate', sm.time_stretch_estimate, (A,), dict(
            kw, ref_trc=r, **trim)),
        ('multi_ref_vchange', sm.multi_ref_vchange, (A, ref), kw),
        ('multi_ref_vchange_and_align', sm.multi_ref_vchange_and_align, (
            A, ref), dict(kw, return_sim_mat=True)),
        ('est_shift_from_dt_corr', sm.est_shift_from_dt_corr, (
            np.squeeze(p0['value']), np.squeeze(p1['value']),
            np.squeeze(p0['corr'])*.99, np.squeeze(p1['corr'])*.99), {}),
        ('estimate_reftr_shifts_from_dt_corr',
         sm.estimate_reftr_shifts_from_dt_corr, (panel,), dict(
             return_sim_mat=bool(rng.random() < .5))),
        ('time_shift_estimate', sm.time_shift_estimate, (A,), dict(
            sh, ref_trc=ctx.pick([None, r]))),
        ('time_shift_apply', sm.time_shift_apply, (
            A, rng.uniform(-2, 2, m)), {}),
        ('time_stretch_apply', sm.time_stretch_apply, (
            A, .01*rng.standard_normal(m)), {}),
        ('create_shifted_ref_mat', sm.create_shifted_ref_mat, (
            r, st, np.linspace(-3, 3, 7)/sr), {}),
        ('compare_with_modified_reference',
         sm.compare_with_modified_reference, (A, mat, tw[0]), {}),
        ('corr_mat_stretch', pp.corr_mat_stretch, (A, st), dict(
            kw, ref_trc=ctx.pick([None, r, refs]),
            return_sim_mat=True)),
        ('corr_mat_stretch', pp.corr_mat_stretch, (A, st), dict(
            kw, ref_trc=r, **trim)),
        ('corr_mat_shift', pp.corr_mat_shift, (A, st), dict(
            ref_trc=ctx.pick([None, r]), tw=ctx.pick([None, tw]),
            shift_range=4, shift_steps=9)),
        ('measure_shift', pp.measure_shift, (A, st), dict(
            ref_trc=ctx.pick([None, r]),
            tw=ctx.pick([None, [[3/sr, 40/sr]], [[3/sr, 30/sr], [
                20/sr, 50/sr]]]), shift_range=4/sr, shift_steps=9,
            sides=ctx.pick(['single', 'both']),
            return_sim_mat=True))]
    for i in rng.permutation(len(steps))[:8]:
        name, f, args, k = steps[i]
        if name == 'measure_shift' and k['tw'] is None:
            k['sides'] = 'single'
        call(ctx, name, f, *copy.deepcopy(args), **copy.deepcopy(k))
    ctx.sig(A.shape, sides, np.ndim(ref))


def in_place(ctx, b, half, sr, n=3):
    """Random in-place methods applied to a bulk."""
    rng = ctx.rng
    ops = [
        ('normalize', lambda: b.normalize(normtype=ctx.pick([
            'energy', 'absmax']))),
        ('clip', lambda: b.clip(1.5)),
        ('envelope', lambda: b.envelope()),
        ('filter', lambda: b.filter([.05*b.stats.sampling_rate,
                                     .3*b.stats.sampling_rate])),
        ('mirror', lambda: b.mirror()),
        ('resample', lambda: b.resample([
            min(b.stats.corr_start)+900.*i for i in range(3)])),
        ('resample_time_axis', lambda: b.resample_time_axis(
            b.stats.sampling_rate/2)),
        ('smooth', lambda: b.smooth(1)),
        ('smooth', lambda: b.smooth(5, axis=0)),
        ('taper', lambda: b.taper(3/b.stats.sampling_rate)),
        ('taper_center', lambda: b.taper_center(6/b.stats.sampling_rate)),
        ('trim', lambda: b.trim(
            max(b.stats.start_lag, -.6*half/sr), .6*half/sr)),
        ('data', lambda: b.data.__imul__(-3.)),
        ('header', lambda: b.stats.update({
            'stla': 1.25, 'corr_end': [x+1 for x in b.stats.corr_end]})),
        ('history', lambda: b.stats.processing_bulk.append('x')),
        ('start_list', lambda: b.stats.corr_start.reverse()
         if isinstance(b.stats.corr_start, list) else None)]
    done = []
    for i in rng.permutation(len(ops))[:n]:
        name, f = ops[i]
        try:
            calm(f)
        except (ValueError, TypeError, AssertionError):
            # too short for this operation by now
            continue
        done.append(name)
        ctx.event('in_place_on_copy')
    return done


def held(b):
    return freeze([b.data, b.stats, b.ref_trc])


@scenario(quick=300, thorough=7000, weight=2)
def bulks(ctx):
    """Methods of a bulk, and work on the objects they return."""
    from seismic.correlate.stream import read_corr_bulk
    rng = ctx.rng
    b, r, sr, t, half = rand_bulk(ctx)
    m, n = b.data.shape
    sym = abs(t[0]+t[-1]) < 1e-9
    tw = [np.arange(3, 50)]
    start, end = b.stats.corr_start[0], b.stats.corr_end[-1]
    mid = start+(end-start)/2
    path = ctx.tmp() + '/b.npz'
    own = []

    def save():
        b.save(path)
        return read_corr_bulk(path)

    steps = [
        ('copy', lambda: b.copy(), True),
        ('save', save, True),
        ('slice', lambda: b.slice(start, ctx_mid), True),
        ('select_corr_time', lambda: b.select_corr_time(
            start-1, ctx_mid+1), True),
        ('getitem_list', lambda: b[[0, m-1]], True),
        ('getitem_int', lambda: b[m-1], False),
        ('create_corr_stream', lambda: b.create_corr_stream(), False),
        ('create_corr_stream', lambda: b.create_corr_stream([0]), False),
        ('stretch', lambda: b.stretch(
            ref_trc=r, tw=tw, stretch_range=.02, stretch_steps=11,
            sides='both' if sym else 'single',
            processing=own_proc), True),
        ('wfc', lambda: b.wfc(r, tw, 'both' if sym else 'single', 3., 10.,
                              .1, 1.), True),
        ('measure_shift', lambda: b.measure_shift(
            ref_trc=r, tw=own_tw, shift_range=3/sr, shift_steps=7,
            sides='single'), True),
        ('find_clock_shift', lambda: b.find_clock_shift(
            ref_trc=r, tw=tw, shift_range=3, shift_steps=7), True),
        ('plot', lambda: None, False)]
    own_proc = {'freq_min': .1, 'freq_max': 1., 'tw_start': 3.,
                'tw_len': 5.}
    own_tw = [[3/sr, 40/sr]]
    ctx_mid = mid
    extern = [r, tw, own_proc, own_tw]
    for i in rng.permutation(len(steps))[:6]:
        name, f, apart = steps[i]
        if name == 'plot':
            continue
        before, ext = held(b), freeze(extern)
        out = calm(f)
        ctx.event('calls')
        ctx.event('fn_bulk.' + name)
        ctx.event('inputs_compared', 3)
        d = diff(before, held(b))
        ctx.expect(d is None, f'input_changed:bulk.{name}', '', name=name,
                   where=str(d)[:300])
        d = diff(ext, freeze(extern))
        ctx.expect(d is None, f'input_changed:bulk.{name}', 'arguments',
                   name=name, where=str(d)[:300])
        res = freeze(out)
        two = calm(f)
        ctx.event('repeated')
        d = diff(res, freeze(two), rtol=1e-9)
        ctx.expect(d is None, f'second_call_differs:bulk.{name}', '',
                   name=name, where=str(d)[:300])
        if apart:
            own.append((name, out))
    for name, out in own:
        # neither follows changes of the other
        ctx.event('copies')
        before = held(b)
        if hasattr(out, 'filter'):
            done = in_place(ctx, out, half, sr)
        else:
            done = scramble(out)
        d = diff(before, held(b))
        ctx.expect(d is None, f'follows_the_copy:bulk.{name}', '', name=name,
                   done=done, where=str(d)[:300])
    b2 = b.copy()
    results = [(name, calm(f)) for name, f, apart in steps[:5]+steps[8:12]
               if apart]
    snaps = [freeze(o) for _, o in results]
    done = in_place(ctx, b, half, sr, 4)
    for (name, o), s in zip(results, snaps):
        ctx.event('copies')
        d = diff(s, freeze(o))
        ctx.expect(d is None, f'follows_the_original:bulk.{name}', '',
                   name=name, done=done, where=str(d)[:300])
    # arguments of methods that work in place
    b = b2
    val = rng.uniform(-1, 1, m)
    from seismic.monitor.dv import DV
    dv = DV(np.full(m, .5), .01*val, 'stretch', np.zeros((m, 3)),
            np.linspace(-1, 1, 3), 'x', copy.deepcopy(b.stats))
    dt = DV(np.full(m, .5), val/sr, 'shift', np.zeros((m, 3)),
            np.linspace(-1, 1, 3), 'x', copy.deepcopy(b.stats))
    new = [start+i*300. for i in range(3)]
    freqs = [.05*sr, .3*sr]
    ends = [x+600. for x in new]
    given = [dv, dt, new, ends, freqs]
    before = freeze(given)
    b.data = np.nan_to_num(b.data)
    for f in (lambda x: x.correct_stretch(dv), lambda x: x.correct_shift(dt),
              lambda x: x.filter(freqs), lambda x: x.resample(new),
              lambda x: x.resample(new, ends),
              lambda x: x.extract_multi_trace(np.array([.002, .003]))):
        x = b.copy()
        calm(f, x)
        ctx.event('arguments_of_in_place')
        d = diff(before, freeze(given))
        ctx.expect(d is None, 'input_changed', 'argument of a bulk',
                   where=str(d)[:300])
    ctx.sig(m, n, sym)


def scramble(x, seen=None, depth=0):
    """Overwrite whatever x holds."""
    if depth > 8 or x is None:
        return
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f' and x.flags.writeable:
            x[...] = -7.
        return
    if isinstance(x, (list, Stream)):
        for y in x:
            scramble(y, seen, depth+1)
        if isinstance(x, list):
            x.append('scrambled')
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, seen, depth+1)
        x['scrambled'] = 1
        return
    if hasattr(x, '__dict__') and not isinstance(x, UTCDateTime) and \
            not callable(x):
        for v in list(vars(x).values()):
            scramble(v, seen, depth+1)
    return 'scrambled'


def rand_stream(ctx, order=True, groups=None):
    rng = ctx.rng
    groups = groups or int(rng.integers(1, 3))
    t0 = synth.rand_time(rng, res=1.)
    n = 2*int(rng.integers(20, 50))+1
    trs = []
    for g in range(groups):
        kw = dict(net='XX-XX', sta='A-B', cha=['HHZ-HHZ', 'HHZ-HHN'][g],
                  length=600., sr=5.)
        for i in range(int(rng.integers(2, 6))):
            x = synth.corr_trace(
                rng.standard_normal(n), start=t0+600*i, **kw)
            if rng.random() < .3:
                x.stats['processing_bulk'] = ['filter']
            trs.append(x)
    from seismic.correlate.stream import CorrStream
    return CorrStream([trs[i] for i in rng.permutation(len(trs))]), t0


@scenario(quick=200, thorough=5000)
def streams(ctx):
    """Streams of correlations."""
    import seismic.correlate.stream as cs
    from seismic.db.corr_hdf5 import CorrelationDataBase
    rng = ctx.rng
    st, t0 = rand_stream(ctx)
    utcs = [t0+30., t0+700.]
    times = (t0, t0+1250.)
    kw = dict(channel='HHZ-HHZ', inplace=False)
    w = ctx.pick(['by_length', 'mean'])
    one = cs.CorrStream([t for t in st if t.stats.channel == 'HHZ-HHZ'])
    steps = [
        ('pop_at_utcs', lambda s: s.pop_at_utcs(utcs), st),
        ('select_corr_time', lambda s: s.select_corr_time(
            *times, include_partially_selected=bool(t0.ns % 2)), st),
        ('select_time', lambda s: s.select_time(
            (t0.hour, t0.minute, 0.), (23, 59, 59.)), st),
        ('slide', lambda s: list(s.slide(1200., 600.)), st),
        ('slide', lambda s: list(s.slide(
            600., 600., include_partially_selected=False)), st),
        ('stack', lambda s: s.stack(w), st),
        ('stack', lambda s: s.stack(w, stack_len=1200.), st),
        ('stack', lambda s: s.stack(w, stack_len='daily',
                                    regard_location=False), st),
        ('stack_st_by_group', lambda s: cs.stack_st_by_group(
            s, True, w), st),
        ('stack_st', lambda s: cs.stack_st(s, w), one),
        ('create_corr_bulk', lambda s: s.create_corr_bulk(**kw), st),
        ('create_corr_bulk', lambda s: s.create_corr_bulk(
            times=(t0-1, t0+1e4), **kw), st),
        ('_to_matrix', lambda s: s._to_matrix(channel='HHZ-HHZ'), st),
        ('compare_tr_id', lambda s: cs.compare_tr_id(s[0], s[-1]), st),
        ('str', lambda s: str(s)+s.__str__(extended=True)+str(s[0]), st),
        ('times', lambda s: s[0].times(), st),
        ('convert_statlist_to_bulk_stats', lambda s:
         cs.convert_statlist_to_bulk_stats([t.stats for t in s]), one),
        ('copy', lambda s: s.copy(), st)]
    for i in rng.permutation(len(steps))[:7]:
        name, f, s = steps[i]
        ctx.event('streams')
        out = call(ctx, name, f, s)
        if name in ('create_corr_bulk', 'copy', 'stack', 'stack_st',
                    'convert_statlist_to_bulk_stats'):
            before = freeze(s)
            ctx.event('copies')
            if hasattr(out, 'envelope'):
                in_place(ctx, out, 10, 5.)
            else:
                scramble(out)
            d = diff(before, freeze(s))
            ctx.expect(d is None, f'follows_the_copy:stream.{name}', '',
                       name=name, where=str(d)[:300])
    # database
    db = ctx.tmp() + '/a.h5'
    co = copy.deepcopy(monproj.CO)
    co['preProcessing'] = [{'function': 'x.stream_mask_at_utc', 'args': {
        'starts': [t0]}}]
    ctx.event('databases')

    def write(s, co, *a):
        with CorrelationDataBase(
                db, corr_options=co,
                compression=ctx.pick(['gzip3', None])) as h:
            h.add_correlation(s, *a)

    call(ctx, 'add_correlation', write, st, co)
    call(ctx, 'add_correlation', write, st[0], co, 'stack_1')

    def read(co):
        with CorrelationDataBase(db, corr_options=co, mode='r') as h:
            return h.get_data(
                'XX-XX', 'A-B', '*', 'subdivision'), h.get_corr_options()

    ctx.event('files_hashed')
    h0 = hashed(db)
    got = call(ctx, 'get_data', read, co)
    scramble(list(got))
    call(ctx, 'get_data', read, co)
    ctx.eq(hashed(db), h0, 'file_changed', 'reading a database')
    ctx.sig(len(st), w)


def hashed(path):
    """Content of all files below a path."""
    out = {}
    files = [path] if os.path.isfile(path) else [
        os.path.join(d, f) for d, _, ff in os.walk(path) for f in ff]
    for f in sorted(files):
        with open(f, 'rb') as h:
            out[os.path.relpath(f, path)] = hashlib.md5(
                h.read()).hexdigest()
    return out


def rand_header(ctx, net, sta, cha, t0, sr, n, extra):
    s = synth.stats(net, sta, cha, t0, n, sr)
    rng = ctx.rng
    la, lo, el = synth.coords(rng)
    if extra == 'plain':
        s.update({'stla': la, 'stlo': lo, 'stel': el})
    elif extra == 'sac':
        s['sac'] = {'stla': la, 'stlo': lo, 'stel': el, 'kcmpnm': cha}
    s['asdf'] = {'format_version': '1'}
    s['_format'] = 'MSEED'
    s['mseed'] = {'dataquality': 'D'}
    s['processing'] = ['detrend']
    return s


@scenario(quick=200, thorough=4000)
def headers(ctx):
    """Combined headers and conversions of headers, times and options."""
    import seismic.correlate.stream as cs
    import seismic.utils.miic_utils as mu
    import seismic.utils.io as io
    from seismic.correlate.stats import CorrStats
    from seismic.db.corr_hdf5 import co_to_hdf5
    rng = ctx.rng
    extra = ctx.pick(['plain', 'sac', 'inv', 'inv'])
    t0 = synth.rand_time(rng, res=.01)
    stas = synth.stations(rng, 2)
    if rng.random() < .5:
        stas = stas[::-1]
    s1, s2 = (rand_header(ctx, *s, 'HHZ', t0+k, 10., 600, extra)
              for k, s in enumerate(stas))
    inv = synth.inventory(stas, {s: synth.coords(rng) for s in stas}) \
        if extra == 'inv' else None
    data = rng.standard_normal(201)
    ctx.event('headers')
    call(ctx, 'combine_stats', cs.combine_stats, s1, s2, -10., inv)
    call(ctx, 'CorrTrace', cs.CorrTrace, data, s1, s2, inv, -10., 10.)
    call(ctx, 'alphabetical_correlation', cs.alphabetical_correlation, s1,
         s2, -10., 10., data, inv)
    h = synth.corr_header(rng=rng, npts=201)
    h['processing'] = ['a']
    call(ctx, 'CorrStats', CorrStats, h)
    st = CorrStats(h)
    call(ctx, 'CorrTrace', cs.CorrTrace, data, _header=st)
    a = call(ctx, 'save_header_to_np_array', mu.save_header_to_np_array, st)
    call(ctx, 'load_header_from_np_array', mu.load_header_from_np_array, a)
    ts = [t0+i for i in range(int(rng.integers(1, 5)))]
    x = call(ctx, 'convert_utc_to_timestamp', mu.convert_utc_to_timestamp,
             ctx.pick([ts, ts[0]]))
    call(ctx, 'convert_timestamp_to_utcdt', mu.convert_timestamp_to_utcdt, x)
    co = copy.deepcopy(monproj.CO)
    co['corr_args']['combinations'] = [(0, 1)]
    co['xcombinations'] = ['a']
    co['preProcessing'] = [
        {'function': 'seismic.x.stream_mask_at_utc', 'args': {
            'starts': [t0]}}, {'function': 'y', 'args': {'a': [1]}}]
    call(ctx, 'co_to_hdf5', co_to_hdf5, co, apart=True)
    call(ctx, 'flatten', io.flatten, [[1, [2, 3]], (4,), 'ab'])
    y = rng.standard_normal(30)
    y[rng.random(30) < .3] = np.nan
    call(ctx, 'nan_helper', mu.nan_helper, y)
    A = rng.standard_normal((8, 6))
    A[2] = np.nan
    call(ctx, 'nan_moving_av', mu.nan_moving_av, A, 2, ctx.pick([0, 1]))
    call(ctx, 'interpolate_gaps', mu.interpolate_gaps, ctx.pick([
        y, np.ma.masked_invalid(y), np.arange(5.)]), ctx.pick([-1, 2]))
    if inv:
        i1, i2 = inv.select(station=stas[0][1]), inv.select(
            station=stas[1][1])
        call(ctx, 'inv_calc_az_baz_dist', mu.inv_calc_az_baz_dist, i1, i2)
        call(ctx, 'filter_stat_dist', mu.filter_stat_dist, i1, i2, 1e5)
    elif extra == 'plain':
        call(ctx, 'trace_calc_az_baz_dist', mu.trace_calc_az_baz_dist,
             s1, s2)
    # lists of codes
    from seismic.correlate.correlate import (
        calc_cross_combis, compute_network_station_combinations, is_in_xcombis)
    nets, codes = [list(q) for q in zip(*synth.stations(rng, 3))]
    m = ctx.pick(['betweenStations', 'betweenComponents', 'autoComponents',
                  'allSimpleCombinations', 'allCombinations'])
    combis = [f'{nets[0]}-{nets[1]}.{codes[0]}-{codes[1]}']
    call(ctx, 'compute_network_station_combinations',
         compute_network_station_combinations, nets, codes, m,
         ctx.pick([None, combis]))
    stream = Stream([synth.noise_trace(rng, p, q, c, t0, 50, 10.)
                     for p, q in zip(nets, codes) for c in ('HHZ', 'HHN')])
    call(ctx, 'calc_cross_combis', calc_cross_combis, stream.copy(), {}, m,
         combis if m == 'betweenStations' and rng.random() < .5 else None,
         free=(0,))
    call(ctx, 'is_in_xcombis', is_in_xcombis, stream[0].id, stream[2].id,
         combis)
    # options of functions that work on streams in place
    import seismic.correlate.preprocessing_stream as ps
    opts = {'freqmin': 1., 'freqmax': 3.}
    call(ctx, 'stream_filter', ps.stream_filter, stream.copy(), 'bandpass',
         opts, free=(0,))
    starts = [t0+1., t0+2.5]
    ends = [t0+1.4, t0+2.9]
    call(ctx, 'stream_mask_at_utc', ps.stream_mask_at_utc, stream.copy(),
         starts, ends, free=(0,))
    call(ctx, 'stream_mask_at_utc', ps.stream_mask_at_utc, stream.copy(),
         starts, masklen=.3, free=(0,))
    ctx.sig(extra, m, len(ts))


def rand_dvs(ctx, n=3, m=None):
    from checks.c25 import make
    rng = ctx.rng
    m = m or int(rng.integers(8, 14))
    k = 11
    t0 = synth.rand_time(rng, res=1.)
    second = np.linspace(-.05, .05, k)
    out = []
    for i in range(n):
        sim = rng.uniform(-.5, 1, (m, k))
        sim[rng.random(m) < .15] = np.nan
        sim[0] = rng.uniform(0, 1, k)
        d = make(ctx, t0, 600., sim, second, sta='A-%d' % i, proc=dict(
            tw_start=3., tw_len=5., freq_min=.1, freq_max=1.))
        d.stats['channel'] = ctx.pick(['HHZ-HHZ', 'HHE-HHE'])
        out.append(d)
    return out, t0, m

def rand_wfcs(dvs, rng):
    from seismic.monitor.wfc import WFC
    ws = []
    for i, d in enumerate(dvs):
        m = len(d.value)
        st = copy.deepcopy(d.stats)
        w = WFC({'reftr_0': rng.uniform(-1, 1, m),
                 'reftr_1': rng.uniform(-1, 1, m)}, st,
                dict(tw_start=2.+i, tw_len=4., freq_min=.5, freq_max=1.))
        w.compute_average()
        ws.append(w)
    return ws


@scenario(quick=120, thorough=3000, weight=2)
def results(ctx):
    """Velocity changes and coherences: averages, maps, figures."""
    import seismic.monitor.monitor as mo
    import seismic.monitor.spatial as sp
    from seismic.monitor.dv import read_dv
    from seismic.monitor.wfc import WFCBulk, read_wfc
    from checks.c28 import make_grid
    rng = ctx.rng
    dvs, t0, m = rand_dvs(ctx)
    tmp = ctx.tmp()

    def save(x, name):
        x.save(f'{tmp}/{name}.npz')
        return (read_dv if name == 'dv' else read_wfc)(f'{tmp}/{name}.npz')

    call(ctx, 'DV.save', save, dvs[0], 'dv')
    call(ctx, 'DV.str', str, dvs[0])
    for f in (mo.average_components, mo.average_components_mem_save):
        out = call(ctx, f.__name__, f, dvs, bool(rng.random() < .5))
        before = freeze(dvs)
        # work on the average
        calm(out.smooth_sim_mat, 2, .1)
        out.stats['station'] = 'average'
        out.dv_processing['note'] = 'average'
        out.sim_mat[0] = out.value[0] = out.corr[0] = 0.
        ctx.event('copies')
        d = diff(before, freeze(dvs))
        ctx.expect(d is None, 'follows_the_copy', f.__name__,
                   where=str(d)[:300])
    g, kw, stas = make_grid(ctx)
    for d in dvs:
        a, b = stas[0], stas[-1]
        d.stats.update(dict(stla=a[0], stlo=a[1], evla=b[0], evlo=b[1],
                            stel=1., evel=2.))
        d.corr = np.clip(d.corr, .05, .9)
    lat = (min(a[0] for a in stas)-1, max(a[0] for a in stas)+1)
    lon = (min(a[1] for a in stas)-1, max(a[1] for a in stas)+1)
    call(ctx, 'average_dvs_by_coords', mo.average_dvs_by_coords, dvs, lat,
         lon)
    # one of each time without gaps
    utc = t0+600.*int(rng.integers(m))
    call(ctx, 'dv_starts', sp.dv_starts, dvs[0], utc, .2)
    args = dict(utc=utc, scaling_factor=1., corr_len=2., std_model=.1)
    i = int(round((utc-t0)/600.))
    avail = any(not np.isnan(d.value[i]) for d in dvs)
    if avail:
        for name in ('compute_dv_grid', 'compute_resolution'):
            call(ctx, name, getattr(g, name), dvs, **args)
    grid = rng.standard_normal(g.xgrid.shape)
    if avail:
        call(ctx, 'forward_model', g.forward_model, grid, dvs, utc)
    call(ctx, 'forward_model', g.forward_model, grid,
         stat0=list(stas), stat1=list(stas[::-1]), tw=[3., 5.])
    call(ctx, 'compute_cm', sp.compute_cm, 1., 2., .1, g._compute_dist_matrix(
    ))
    call(ctx, 'data_variance', sp.data_variance, rng.uniform(.1, .9, 5), 1.,
         (3., 8.), 1.)
    call(ctx, 'geo2cart', sp.geo2cart, np.array([a[0] for a in stas]),
         np.array([a[1] for a in stas]), g.lat0, g.lon0)
    call(ctx, 'sensitivity_kernel', sp.sensitivity_kernel, np.array(
        [1., 1.]), np.array([2., 2.]), g.xaxis.copy(), g.yaxis.copy(), 5.,
        kw['dt'], kw['vel'], kw['mf_path'])
    ws = rand_wfcs(dvs, rng)
    call(ctx, 'WFC.save', save, ws[0], 'wfc')
    same = [copy.deepcopy(ws[0]) for _ in range(2)]
    call(ctx, 'average_components_wfc', mo.average_components_wfc, same)
    call(ctx, 'WFCBulk', WFCBulk, ws)
    # in place, with an unchanged reference
    call(ctx, 'smooth_sim_mat', lambda d: d.smooth_sim_mat(2, .1),
         copy.deepcopy(dvs[0]), free=(0,))
    call(ctx, 'correct_dv_shift', mo.correct_dv_shift,
         copy.deepcopy(dvs[0]), dvs[1], ctx.pick(['mean', 'median']),
         free=(0,), again=False)
    ctx.sig(m, avail)


@scenario(quick=40, thorough=800, weight=4)
def figures(ctx):
    """Figures of all objects and of files."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from seismic.monitor.wfc import WFCBulk
    rng = ctx.rng
    dvs, t0, m = rand_dvs(ctx)
    bulk = WFCBulk(rand_wfcs(dvs, rng))
    tmp = ctx.tmp()
    os.makedirs(tmp + '/many')
    ctx.event('plots', 6)

    # not every machine has the locale that the figures ask for
    real = locale.setlocale

    def figure(f, *a, **k):
        locale.setlocale = lambda *a: 'C'
        try:
            f(*a, **k)
        finally:
            locale.setlocale = real
            plt.close('all')

    xl = (t0.datetime, (t0+3000).datetime)
    opts = dict(save_dir=tmp, figure_file_name=ctx.pick([None, 'x']),
                mark_time=[t0.datetime], xlim=ctx.pick([None, xl]),
                ylim=ctx.pick([None, [-.02, .02]]),
                normalize_simmat=bool(rng.random() < .5),
                sim_mat_Clim=ctx.pick([[], [-1., 1.]]),
                style=ctx.pick(['technical', 'publication']),
                return_ax=bool(rng.random() < .5))
    call(ctx, 'DV.plot', lambda d, o: figure(d.plot, **o), dvs[0], opts)
    call(ctx, 'WFCBulk.plot', lambda d: figure(d.plot), bulk)
    st, _ = rand_stream(ctx, groups=1)
    b = st.copy().sort(keys=['corr_start']).create_corr_bulk()
    call(ctx, 'CorrTrace.plot', lambda d, o: figure(d.plot, **o), st[0],
         dict(tlim=[-2., 2.], outputdir=None))
    call(ctx, 'CorrStream.plot', lambda d, o: figure(d.plot, **o), st,
         dict(timelimits=[-3., 3.], type=ctx.pick(['heatmap', 'section']),
              sort_by=ctx.pick(['corr_start', 'distance'])))
    call(ctx, 'CorrBulk.plot', lambda d, o: figure(d.plot, **o), b,
         dict(timelimits=[-3., 3.]))
    from seismic.plot.plot_multidv import plot_multiple_dv
    for i, d in enumerate(dvs):
        d.save(f'{tmp}/many/{i}.npz')
    ctx.event('files_hashed', len(dvs))
    h = hashed(tmp + '/many')
    call(ctx, 'plot_multiple_dv', lambda d: figure(plot_multiple_dv, d),
         tmp + '/many')
    ctx.eq(hashed(tmp + '/many'), h, 'file_changed', 'figures of files')
    ctx.sig(m, opts['style'])


def quiet(f):
    try:
        return calm(f)
    finally:
        archive.close_logs()


def params(ctx, opts, path):
    """The options as a dictionary or as a file; a snapshot of both."""
    if not ctx.chance(.5):
        return opts, lambda: freeze(opts)
    f = path + '/params.yaml'
    with open(f, 'w') as h:
        yaml.dump(opts, h)
    ctx.event('option_files')
    return f, lambda: freeze(hashed(f))


@scenario(quick=40, thorough=800, weight=3, timeout=200)
def correlations(ctx):
    """Correlations of an archive, twice with the same options."""
    from checks import c11
    cfg, path = c11.setup(ctx)
    if cfg is None:
        return
    opts = cfg.options(path, start=cfg.start, end=cfg.end)
    for step in opts['co']['preProcessing']:
        for k in ('starts', 'ends'):
            if k in step['args']:
                step['args'][k] = [UTCDateTime(ns=t)
                                   for t in step['args'][k]]
    masked = any('starts' in x['args'] for x in opts['co']['preProcessing'])
    given, snap = (opts, lambda: freeze(opts)) if masked else params(
        ctx, opts, path)
    before = snap()
    files = {d: hashed(f'{path}/{d}') for d in ('mseed', 'inventory')}
    ctx.event('files_hashed', sum(map(len, files.values())))
    dbs = []
    for i in range(2):
        c = archive.correlator(path, given)
        quiet(c.pxcorr)
        ctx.event('workflows')
        d = diff(before, snap())
        ctx.expect(d is None, 'input_changed:Correlator', f'options, run {i}',
                   where=str(d)[:300])
        for k, h in files.items():
            ctx.eq(hashed(f'{path}/{k}'), h, 'file_changed',
                   f'{k} after run {i}')
        dbs.append(archive.dump_db(path + '/corr'))
        os.rename(path + '/corr', f'{path}/corr_{i}')
    c11.same(ctx, dbs[0], dbs[1], 'second_call_differs:Correlator',
             'same options', skip=['processing'])
    ctx.event('databases')
    ctx.sig(cfg.method, len(dbs[0]), masked)


@scenario(quick=24, thorough=500, weight=6, timeout=300)
def monitoring(ctx):
    """Velocity changes and coherences, twice with the same options."""
    from checks import c26
    from seismic.monitor.monitor import Monitor
    p = c26.build(ctx, days=int(ctx.rng.integers(1, 3)))
    opt = p.options()
    opt['dv'] = c26.dv_options(ctx, p)
    for x in opt['dv']['preprocessing']:
        # files hold plain lists of strings
        if 'utcs' in x['args']:
            x['args']['utcs'] = [str(t) for t in x['args']['utcs']]
        x['args'] = {k: list(v) if isinstance(v, tuple) else v
                     for k, v in x['args'].items()}
    opt['wfc']['tw_start'] = [1., 3.]
    given, snap = params(ctx, opt, p.root)
    before = snap()
    db = hashed(p.root + '/corr')
    ctx.event('files_hashed', len(db))
    res = []
    for i in range(2):
        m = Monitor(given)
        for name in ('compute_velocity_change_bulk',
                     'compute_waveform_coherence_bulk'):
            quiet(getattr(m, name))
            ctx.event('workflows')
        d = diff(before, snap())
        ctx.expect(d is None, 'input_changed:Monitor', f'options, run {i}',
                   where=str(d)[:300])
        ctx.eq(hashed(p.root + '/corr'), db, 'file_changed',
               f'correlations after run {i}')
        res.append({})
        for k in ('vel_change', 'wfc'):
            for f in os.listdir(f'{p.root}/{k}'):
                with np.load(f'{p.root}/{k}/{f}') as z:
                    res[i][k, f] = freeze({q: z[q] for q in z.files})
            os.rename(f'{p.root}/{k}', f'{p.root}/{k}_{i}')
    ctx.eq(sorted(res[0]), sorted(res[1]), 'second_call_differs:Monitor',
           'files')
    for k in res[0]:
        d = diff(res[0][k], res[1][k], rtol=1e-9)
        ctx.expect(d is None, 'second_call_differs:Monitor', str(k),
                   where=str(d)[:300])
    ctx.event('databases')
    ctx.sig(len(res[0]), isinstance(given, str))
