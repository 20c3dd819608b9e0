"""Generate pairs of correlation parameter sets that differ in one or more
parameters, open databases with them over several sessions and record which
sessions are refused; the oracle is an independent list of the parameters
that may differ (storage, time range, station selection, masked times).  A
case is non-trivial when a second session with another parameter set was
opened."""
import copy
import os
import numpy as np
from obspy import UTCDateTime
from vlib.core import scenario
from vlib import synth
from checks.c03 import snapshot, compare, key, readall

REQUIRED = {'refused': 100, 'forced': 20, 'accepted': 100, 'options_read': 100}


def base(ctx):
    r = ctx.rng
    steps = [
        {'function': 'seismic.correlate.preprocessing_stream.stream_filter',
         'args': {'ftype': 'bandpass',
                  'filter_option': {'freqmin': float(r.uniform(.01, 1)),
                                    'freqmax': 12}}},
        {'function': 'my.module.fn', 'args': {'a': [1, 2.5, None],
                                              'b': "it's \"x\""}},
        {'function': 'my.module.fn2', 'args': {}}]
    td = [{'function': 'seismic.correlate.preprocessing_td.taper',
           'args': {'type': 'cosine_taper', 'p': 0.02}},
          {'function': 'seismic.correlate.preprocessing_td.clip',
           'args': {'std_factor': 2.5}},
          {'function': 'seismic.correlate.preprocessing_td.'
           'signBitNormalization', 'args': {}}]
    fd = [{'function': 'seismic.correlate.preprocessing_fd.'
           'spectralWhitening', 'args': {'joint_norm': False}},
          {'function': 'seismic.correlate.preprocessing_fd.FDfilter',
           'args': {'flimit': [0.01, 0.02, 9, 10]}}]
    co = {
        'subdir': 'corr', 'read_start': '2015-08-1 00:00:01.0',
        'read_end': '2015-08-06 00:00:00.0', 'read_len': 86398,
        'read_inc': 86400, 'sampling_rate': int(r.integers(1, 50)),
        'remove_response': ctx.chance(.5),
        'combination_method': 'betweenStations', 'xcombinations': None,
        'preProcessing': [copy.deepcopy(s) for s in steps if ctx.chance(.5)],
        'preprocess_subdiv': ctx.chance(.5),
        'subdivision': {'corr_inc': 3600, 'corr_len': 3600,
                        'recombine_subdivision': ctx.chance(.5),
                        'delete_subdivision': ctx.chance(.5)},
        'corr_args': {'TDpreProcessing': [copy.deepcopy(s) for s in td
                                          if ctx.chance(.6)],
                      'FDpreProcessing': [copy.deepcopy(s) for s in fd
                                          if ctx.chance(.6)],
                      'lengthToSave': int(r.integers(1, 200)),
                      'center_correlation': True,
                      'normalize_correlation': True, 'combinations': []}}
    for _ in range(int(r.integers(0, 4)) if ctx.chance(.6) else 0):
        co['preProcessing'].insert(
            int(r.integers(0, len(co['preProcessing'])+1)), mask(ctx))
    return co


def mask(ctx):
    t = synth.rand_time(ctx.rng)
    return {'function': 'seismic.correlate.preprocessing_stream.'
            'stream_mask_at_utc',
            'args': {'starts': np.array([t]), 'ends': np.array([t+100])}}


def irrelevant(ctx, co):
    """Change what concerns storage, range or selection only."""
    k = ctx.pick(['subdir', 'read_start', 'read_end', 'read_len', 'read_inc',
                  'combination_method', 'xcombinations', 'preprocess_subdiv',
                  'recombine', 'delete', 'combinations', 'starttime',
                  'allow_different_params', 'topcombinations', 'addmask',
                  'dropmask', 'combdel'])
    if k == 'recombine':
        co['subdivision']['recombine_subdivision'] = not co['subdivision'][
            'recombine_subdivision']
    elif k == 'delete':
        co['subdivision']['delete_subdivision'] = not co['subdivision'][
            'delete_subdivision']
    elif k == 'combinations':
        co['corr_args']['combinations'] = [(0, 1), (1, 2)]
    elif k == 'combdel':
        co['corr_args'].pop('combinations', None)
    elif k == 'topcombinations':
        co['combinations'] = [(0, 1)]
    elif k == 'starttime':
        co['starttime'] = [UTCDateTime(0)]
    elif k == 'allow_different_params':
        co[k] = False
    elif k == 'addmask':
        n = int(ctx.rng.integers(1, 4))
        for _ in range(n):
            co['preProcessing'].insert(int(ctx.rng.integers(
                0, len(co['preProcessing'])+1)), mask(ctx))
    elif k == 'dropmask':
        co['preProcessing'] = [s for s in co['preProcessing']
                               if 'mask_at' not in s['function']]
    elif k in ('xcombinations',):
        co[k] = ['XX-XX.A-B']
    elif k == 'preprocess_subdiv':
        co[k] = not co[k]
    elif k in ('read_len', 'read_inc'):
        co[k] = 7200
    else:
        co[k] = 'another'
    return k


def relevant(ctx, co):
    """Change a parameter that changes the correlations."""
    ks = ['sampling_rate', 'remove_response', 'corr_len', 'corr_inc',
          'lengthToSave', 'center', 'norm', 'addpp', 'addtd', 'addfd',
          'newkey']
    plain = [s for s in co['preProcessing']
             if 'mask_at' not in s['function']]
    if plain:
        ks += ['droppp', 'argpp']
    if co['corr_args']['TDpreProcessing']:
        ks += ['droptd', 'argtd']
    if len(co['corr_args']['TDpreProcessing']) > 1:
        ks += ['swaptd']
    if co['corr_args']['FDpreProcessing']:
        ks += ['dropfd', 'argfd']
    k = ctx.pick(ks)
    ca = co['corr_args']
    if k == 'sampling_rate':
        co[k] += 1
    elif k == 'remove_response':
        co[k] = not co[k]
    elif k in ('corr_len', 'corr_inc'):
        co['subdivision'][k] += 1
    elif k == 'lengthToSave':
        ca[k] += 1
    elif k == 'center':
        ca['center_correlation'] = False
    elif k == 'norm':
        ca['normalize_correlation'] = False
    elif k == 'addpp':
        co['preProcessing'].append({'function': 'x.y', 'args': {}})
    elif k == 'droppp':
        co['preProcessing'].remove(plain[0])
    elif k == 'argpp':
        plain[-1]['args']['new'] = 1
    elif k == 'addtd':
        ca['TDpreProcessing'].append({'function': 'x.y', 'args': {}})
    elif k == 'droptd':
        ca['TDpreProcessing'].pop()
    elif k == 'argtd':
        ca['TDpreProcessing'][0]['args']['extra'] = .1
    elif k == 'swaptd':
        ca['TDpreProcessing'].reverse()
    elif k == 'addfd':
        ca['FDpreProcessing'].insert(0, {'function': 'x.y', 'args': {}})
    elif k == 'dropfd':
        ca['FDpreProcessing'].pop(0)
    elif k == 'argfd':
        ca['FDpreProcessing'][-1]['args']['extra'] = None
    elif k == 'newkey':
        co['some_new_option'] = 3
    return k


def view(co):
    """What must agree, computed independently."""
    drop = {'subdir', 'read_start', 'read_end', 'read_len', 'read_inc',
            'combination_method', 'combinations', 'starttime',
            'xcombinations', 'preprocess_subdiv', 'allow_different_params'}
    v = {k: copy.deepcopy(x) for k, x in co.items() if k not in drop}
    v['preProcessing'] = [s for s in v['preProcessing']
                          if 'stream_mask_at_utc' not in s['function']]
    v['corr_args'].pop('combinations', None)
    v['subdivision'].pop('recombine_subdivision', None)
    v['subdivision'].pop('delete_subdivision', None)
    return v


def open_add(path, co, tr, **kw):
    from seismic.db.corr_hdf5 import CorrelationDataBase
    with CorrelationDataBase(path, corr_options=co, **kw) as cdb:
        if tr is not None:
            cdb.add_correlation(tr)
        return cdb.get_corr_options()


@scenario(quick=700)
def guard(ctx):
    from seismic.db.corr_hdf5 import CorrelationDataBase
    import gc
    r = ctx.rng
    path = os.path.join(ctx.tmp(), 'db.h5')
    co = base(ctx)
    co0 = repr(co)
    tr = synth.corr_trace(r.standard_normal(8), start=UTCDateTime(2020, 1, 1))
    model = {key('subdivision', tr): snapshot(tr)}
    want = view(co)
    got = open_add(path, co, tr)
    ctx.eq(got, want, 'stored-options', 'first session')
    ctx.eq(repr(co), co0, 'options-modified', 'by opening')
    hist = []
    for _ in range(int(r.integers(1, 5))):
        new = copy.deepcopy(co)
        changes = []
        rel = False
        for _ in range(int(r.integers(0, 3))):
            changes.append(irrelevant(ctx, new))
        if ctx.chance(.55):
            changes.append(relevant(ctx, new))
            rel = view(new) != want
        force = ctx.chance(.2)
        hist.append((changes, rel, force))
        tr2 = synth.corr_trace(r.standard_normal(8),
                               start=UTCDateTime(2020, 1, 2)+len(model))
        if rel and not force:
            before = open(path, 'rb').read()
            try:
                open_add(path, new, tr2)
            except PermissionError:
                ctx.event('refused')
            else:
                ctx.fail('different-parameters-accepted', str(changes))
            gc.collect()
            ctx.expect(open(path, 'rb').read() == before,
                       'refused-but-written', str(changes))
            # also for reading
            try:
                open_add(path, new, None, mode='r')
            except PermissionError:
                ctx.event('refused')
            else:
                ctx.fail('different-parameters-accepted-read', str(changes))
            gc.collect()
        else:
            try:
                got = open_add(path, new, tr2, _force=force)
            except PermissionError as e:
                ctx.fail('same-parameters-refused', f'{changes}: {e}')
                continue
            ctx.event('accepted')
            model[key('subdivision', tr2)] = snapshot(tr2)
            ctx.eq(got, want, 'stored-options', f'after {changes}')
        with CorrelationDataBase(path) as cdb:
            ctx.eq(cdb.get_corr_options(), want, 'stored-options', 'reread')
            ctx.event('options_read')
            readall(ctx, cdb, model, 'guard')
    ctx.note(history=hist)
    ctx.sig(repr(hist))


@scenario(quick=60)
def without_options(ctx):
    """No options: read-only whatever mode was asked for."""
    from seismic.db.corr_hdf5 import CorrelationDataBase
    import gc
    path = os.path.join(ctx.tmp(), 'db.h5')
    co = base(ctx)
    tr = synth.corr_trace(ctx.rng.standard_normal(8), start=UTCDateTime(0))
    model = {key('subdivision', tr): snapshot(tr)}
    open_add(path, co, tr)
    before = open(path, 'rb').read()
    for mode in ('a', 'r+', 'w', 'r'):
        try:
            with CorrelationDataBase(path, mode=mode) as cdb:
                ctx.eq(cdb.get_corr_options(), view(co), 'stored-options')
                try:
                    cdb.add_correlation(synth.corr_trace(
                        np.ones(3), start=UTCDateTime(86400)))
                except Exception:
                    pass
                try:
                    cdb.remove_data('XX-XX', 'A-B', 'HHZ-HHZ', 'subdivision',
                                    UTCDateTime(0))
                except Exception:
                    pass
        except (OSError, ValueError):
            pass
        gc.collect()
        ctx.expect(open(path, 'rb').read() == before,
                   'written-without-options', mode)
        ctx.event('read_only_sessions')
    with CorrelationDataBase(path) as cdb:
        readall(ctx, cdb, model, 'read-only')
    ctx.sig(repr(view(co)))


@scenario(quick=40, thorough=400)
def forced(ctx):
    """Parameters are recorded as soon as they are known."""
    from seismic.db.corr_hdf5 import CorrelationDataBase
    path = os.path.join(ctx.tmp(), 'db.h5')
    co = base(ctx)
    times = [UTCDateTime(86400*i) for i in range(4)]
    tr = [synth.corr_trace(ctx.rng.standard_normal(8), start=t)
          for t in times]
    model = {}
    with CorrelationDataBase(path, _force=True) as cdb:
        ctx.raises(KeyError, cdb.get_corr_options, 'options-from-nowhere')
        for t in tr[:int(ctx.rng.integers(0, 3))]:
            cdb.add_correlation(t)
            model[key('subdivision', t)] = snapshot(t)
    open_add(path, co, tr[3])
    model[key('subdivision', tr[3])] = snapshot(tr[3])
    with CorrelationDataBase(path, mode='r') as cdb:
        ctx.eq(cdb.get_corr_options(), view(co), 'stored-options')
        readall(ctx, cdb, model, 'forced')
    other = copy.deepcopy(co)
    other['sampling_rate'] += 1
    ctx.raises(PermissionError, lambda: open_add(path, other, tr[3]),
               'different-parameters-accepted')
    # different parameters on request, the old ones stay recorded
    open_add(path, other, synth.corr_trace(
        np.ones(4), start=UTCDateTime(10**6)), _force=True)
    with CorrelationDataBase(path, mode='r') as cdb:
        ctx.eq(cdb.get_corr_options(), view(co), 'stored-options')
    ctx.event('forced')
    ctx.sig(repr(view(co)), len(model))
