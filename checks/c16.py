"""
Random streams and matrices of correlations (several combinations, locations,
unequal window and lag lengths, undefined samples and correlations, gaps, any
order) are stacked by group, over window lengths and days, and resampled into
bins; every stack is compared, sample by sample and header by header, with an
independent weighted average over the correlations that belong to it.
"""
import numpy as np
from obspy import UTCDateTime

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'limits of windows, bins and stacks on whole seconds',
    'stacking over windows uses the correlations whose window ends in '
    '(start, stop] of the stack, resampling those that start in [start, stop)',
    'only correlations with the longest lag axis of a group are stacked',
    'stacks are normalised by their absolute maximum (as documented)',
    'normalised representative traces: correlations that are completely '
    'defined or completely undefined']
REQUIRED = {'stacks': 2000, 'members': 5000, 'undefined_samples': 500,
            'empty_bins': 300, 'bins': 1500, 'unequal_lengths': 200,
            'references': 500}


def make(ctx, nmax=16, one=False, nans=True, lens=True):
    """Stream in random order; returns the stream and plain records."""
    rng = ctx.rng
    t0 = synth.rand_time(rng, res=1.)
    step = float(rng.choice([600, 1800, 3600, 3*3600, 7230, 86400]))
    combos = [('A-B', 'X-Y', 'HHZ-HHZ', '-'), ('A-B', 'X-Y', 'HHZ-HHE', '-'),
              ('A-A', 'X-X', 'HHZ-HHZ', '-'), ('A-B', 'X-Y', 'HHZ-HHZ', '00-')]
    if one:
        combos = combos[:1]
    n = int(rng.integers(1, nmax if rng.random() > .05 else 60))
    npts = int(rng.integers(3, 12))
    scale = 10.**ctx.pick([0, 0, 0, -12, 8])
    recs = []
    for i in range(n):
        if rng.random() < .15:
            t0 += step*int(rng.integers(1, 40))
        le = step
        if rng.random() < .3:
            le = float(step*rng.choice([.5, .25, .1, .9]))
        c = ctx.pick(combos)
        m = npts
        if lens and rng.random() < .1:
            m = max(1, npts + int(rng.integers(-2, 3)))
        d = rng.standard_normal(m)*10.**int(rng.integers(-2, 3))*scale
        if nans and rng.random() < .15:
            d[rng.random(m) < rng.choice([.3, 1.])] = np.nan
        start = t0 + i*step
        if i and rng.random() < .1:
            start = recs[-1]['start']
        recs.append(dict(start=start, end=start+le, code=c, data=d))
    if len({r['end']-r['start'] for r in recs}) > 1:
        ctx.event('unequal_lengths')
    ctx.event('undefined_samples',
              sum(int(np.isnan(r['data']).sum()) for r in recs))
    return recs, step, stream(ctx, recs)


def stream(ctx, recs):
    from seismic.correlate.stream import CorrStream
    st = CorrStream()
    for i in ctx.rng.permutation(len(recs)):
        r = recs[int(i)]
        c = r['code']
        st.append(synth.corr_trace(
            r['data'].copy(), net=c[0], sta=c[1], cha=c[2], loc=c[3],
            start=r['start'], length=r['end']-r['start']))
    return st


def freeze(st):
    return sorted((repr(sorted((k, str(v)) for k, v in tr.stats.items())),
                   tr.data.tobytes()) for tr in st)


def average(rs, weight):
    """The weighted mean of the defined samples, normalised."""
    m = max(len(r['data']) for r in rs)
    rs = [r for r in rs if len(r['data']) == m]
    out = np.full(m, np.nan)
    for j in range(m):
        num = den = 0.
        for r in rs:
            v = r['data'][j]
            if np.isnan(v):
                continue
            w = r['end']-r['start'] if weight == 'by_length' else 1.
            num += w*v
            den += w
        if den:
            out[j] = num/den
    d = out[~np.isnan(out)]
    if len(d):
        out = out/np.max(np.abs(d))
    return out, min(r['start'] for r in rs), max(r['end'] for r in rs), rs


def groups(rs, regard):
    out = {}
    for r in rs:
        out.setdefault(r['code'] if regard else r['code'][:3], []).append(r)
    return out


def judge(ctx, got, want, weight, msg=''):
    """got: list of CorrTrace, want: list of lists of records."""
    def key(a):
        return (a[0], str(a[1]), str(a[2]))
    g = sorted((((tr.stats.network, tr.stats.station, tr.stats.channel),
                 tr.stats.corr_start, tr.stats.corr_end, tr) for tr in got),
               key=lambda x: key(x) + (tr_loc(x[3]),))
    w = []
    for rs in want:
        d, s, e, used = average(rs, weight)
        w.append((used[0]['code'][:3], s, e, d,
                  {r['code'][3] for r in used}, used))
    w.sort(key=lambda x: key(x) + (min(x[4]),))
    ctx.eq([key(x) for x in g], [key(x) for x in w], 'stacks', msg)
    for a, b in zip(g, w):
        tr = a[3]
        ctx.event('stacks')
        ctx.event('members', len(b[5]))
        ctx.close(tr.data, b[3], 'stacked_values', msg, rtol=1e-9)
        ctx.expect(tr.stats.location in b[4], 'stacked_location',
                   f'{tr.stats.location} {b[4]}')
        ctx.eq(tr.stats.npts, len(b[3]), 'stacked_npts')
        ctx.close(tr.stats.start_lag, -(len(b[3])//2)/10., 'stacked_lag')
        ctx.close(tr.stats.end_lag, tr.stats.start_lag+(len(b[3])-1)/10.,
                  'stacked_lag')


def tr_loc(tr):
    return tr.stats.location


@scenario(quick=1200, thorough=40000)
def by_group(ctx):
    """One stack per combination, alone and in any order."""
    from seismic.correlate import stream as S
    rng = ctx.rng
    recs, step, st = make(ctx)
    regard = bool(rng.random() < .6)
    weight = ctx.pick(['by_length', 'mean'])
    ctx.note(n=len(recs), regard=regard, weight=weight)
    ctx.sig(len(recs), regard, weight, step)
    before = freeze(st)
    want = list(groups(recs, regard).values())
    which = int(rng.integers(3))
    if which == 0:
        got = st.stack(weight=weight, regard_location=regard)
    elif which == 1:
        got = st.stack(weight, stack_len=0, regard_location=regard)
    else:
        got = S.stack_st_by_group(st, regard, weight)
    judge(ctx, got, want, weight)
    ctx.eq(freeze(st), before, 'input_changed')
    # results are independent of the inputs
    for tr in got:
        tr.data *= 3
        tr.stats.corr_start += 10
    ctx.eq(freeze(st), before, 'input_shared')
    # without the normalisation, one combination
    g = groups(recs, regard)
    k = ctx.pick(sorted(g))
    one = stream(ctx, g[k])
    tr = S.stack_st(one, weight, norm=False)
    m = max(len(r['data']) for r in g[k])
    A = np.array([r['data'] for r in g[k] if len(r['data']) == m])
    w = np.array([r['end']-r['start'] if weight == 'by_length' else 1.
                  for r in g[k] if len(r['data']) == m])
    D = ~np.isnan(A)
    den = (w[:, None]*D).sum(0)
    out = np.full(m, np.nan)
    num = (w[:, None]*np.where(D, A, 0)).sum(0)
    out[den > 0] = num[den > 0]/den[den > 0]
    ctx.close(tr.data, out, 'not_normalised', rtol=1e-9)


@scenario(quick=1200, thorough=40000)
def windows(ctx):
    """Stacks over a window length, over days, inside given limits."""
    rng = ctx.rng
    recs, step, st = make(ctx, nmax=24)
    regard = bool(rng.random() < .6)
    weight = ctx.pick(['by_length', 'mean'])
    longest = max(r['end']-r['start'] for r in recs)
    daily = bool(rng.random() < .4)
    length = 86400. if daily else float(np.ceil(
        longest*rng.choice([1, 1.5, 2, 3, 7, 24])))
    kw = {}
    first = min(r['start'] for r in recs)
    last = max(r['end'] for r in recs)
    if rng.random() < .4:
        first = first + step*float(rng.choice([-3, -1.5, -.5, .5, 1, 2, 4]))
        kw['starttime'] = first
    if rng.random() < .3:
        last = first + np.round(float(rng.choice([.5, 1, 2, 5]))*length)
        kw['endtime'] = last
    if daily:
        first = UTCDateTime(first.year, first.month, first.day)
    if (last-first)/length > 400:
        return
    ctx.note(length=length, daily=daily, weight=weight, regard=regard, kw=kw)
    ctx.sig(length, daily, weight, regard, len(recs), step, str(kw))
    before = freeze(st)
    if longest > length:
        ctx.raises(ValueError, lambda: st.stack(
            weight=weight, stack_len='daily' if daily else length, **kw),
            'too_short')
        return
    got = st.stack(weight=weight, stack_len='daily' if daily else length,
                   regard_location=regard, **kw)
    want = []
    k = 0
    while first + k*length < last:
        a = first + k*length
        rs = [r for r in recs if a < r['end'] <= a + length]
        if rs:
            want += list(groups(rs, regard).values())
        else:
            ctx.event('empty_bins')
        k += 1
    judge(ctx, got, want, weight, f'{length} {kw}')
    ctx.eq(freeze(st), before, 'input_changed')


def bulk_of(ctx, recs, order=None):
    from seismic.correlate.stream import CorrStream
    st = CorrStream()
    for r in recs:
        c = r['code']
        st.append(synth.corr_trace(
            r['data'].copy(), net=c[0], sta=c[1], cha=c[2], loc=c[3],
            start=r['start'], length=r['end']-r['start']))
    return st.create_corr_bulk(inplace=False)


@scenario(quick=1000, thorough=40000)
def bins(ctx):
    """Matrices resampled into regular and irregular bins."""
    from seismic.monitor import post_corr_process as P
    rng = ctx.rng
    recs, step, _ = make(ctx, nmax=20, one=True, lens=False)
    recs = [recs[int(i)] for i in rng.permutation(len(recs))]
    b = bulk_of(ctx, recs)
    m = len(recs[0]['data'])
    lo = min(r['start'] for r in recs)
    hi = max(r['end'] for r in recs)
    k = int(rng.integers(4))
    ends = None
    if k == 0:
        # everything in one bin
        starts = [lo - float(rng.choice([0, 1, 1000]))]
        bin_end = [max(r['end'] for r in recs)]
    else:
        inc = np.round(step*float(rng.choice([.5, 1, 2, 3.7, 10])))
        n = int(min((hi-lo)/inc + 3, 60))
        t = lo + np.round(step*float(rng.choice([0, -1, .5, -2.25, 1])))
        starts = [t + i*inc for i in range(max(n, 2))]
        if rng.random() < .2:
            # not regular, all as long as the first one
            starts = [s + np.round(inc*rng.uniform(0, 3)) for s in starts]
            starts.sort()
            inc = starts[1]-starts[0]
        bin_end = [s + inc for s in starts]
        if k > 1:
            f = float(rng.choice([.5, 1, 2.5]))
            ends = bin_end = [s + np.round(f*inc) for s in starts]
        if k == 3:
            o = rng.permutation(len(starts))
            starts = [starts[i] for i in o]
            ends = bin_end = [bin_end[i] for i in o]
    ctx.sig(k, len(starts), len(recs), step)
    ctx.note(k=k, starts=len(starts), n=len(recs))
    want = np.full((len(starts), m), np.nan)
    for i, (s, e) in enumerate(zip(starts, bin_end)):
        rs = [r['data'] for r in recs if s <= r['start'] < e]
        ctx.event('bins')
        ctx.event('empty_bins', not rs)
        for j in range(m):
            v = [d[j] for d in rs if not np.isnan(d[j])]
            if v:
                want[i, j] = np.mean(v)
    keep = b.copy()
    s0 = list(starts)
    args = (starts,) if ends is None else (starts, ends)
    if rng.random() < .3:
        data, stats = P.corr_mat_resample(b.data, b.stats.copy(), *args)
    else:
        b.resample(*args)
        data, stats = b.data, b.stats
    ctx.close(data, want, 'bin_values', f'{k}', rtol=1e-9)
    ctx.eq(starts, s0, 'arguments_changed')
    ctx.eq(list(stats['corr_start']), list(s0), 'bin_starts')
    ctx.eq(list(stats['corr_end']), list(bin_end), 'bin_ends')
    ctx.eq(len(stats['location']), len(starts), 'bin_location')
    ctx.eq(stats['npts'], m, 'bin_npts')
    # the correlations that went in are unchanged
    ctx.close(keep.data, np.array([r['data'] for r in recs]),
              'input_changed')
    # the order does not matter
    c = bulk_of(ctx, [recs[int(i)] for i in rng.permutation(len(recs))])
    c.resample(*args)
    ctx.close(c.data, want, 'bin_order', rtol=1e-9)


def representative(X, method, perc):
    """Returns the trace and whether the choice is unambiguous."""
    X = X[~np.isnan(X).all(axis=1)]
    n, m = X.shape
    if not n:
        return np.full(m, np.nan), True
    if method in ('mean', 'median'):
        f = np.mean if method == 'mean' else np.median
        out = np.full(m, np.nan)
        for j in range(m):
            v = X[:, j][~np.isnan(X[:, j])]
            if len(v):
                out[j] = f(v)
        return out, True
    Y = np.array([x/np.max(np.abs(x)) for x in X])
    if method == 'norm_mean':
        return Y.mean(0), True
    r = Y.mean(0)
    c = np.array([y.dot(r)/np.sqrt(y.dot(y)*r.dot(r)) for y in Y])
    t = np.percentile(c, perc)
    sure = np.all((np.abs(c-t) > 1e-9) | (c == t)) and \
        len(np.unique(np.round(c, 9))) == n
    sel = c > t
    if not sel.any():
        sel = c == t
    return Y[sel].mean(0), sure


@scenario(quick=1000, thorough=40000)
def reference(ctx):
    """Representative traces of the whole matrix and of sub-periods."""
    rng = ctx.rng
    recs, step, _ = make(ctx, nmax=16, one=True, lens=False, nans=False)
    method = ctx.pick(['mean', 'median', 'norm_mean',
                       'similarity_percentile'])
    perc = float(rng.choice([0, 10, 50, 75, 95]))
    for r in recs[1:]:
        if rng.random() < .15:
            r['data'][:] = np.nan
        elif method in ('mean', 'median') and rng.random() < .2:
            r['data'][rng.random(len(r['data'])) < .4] = np.nan
    recs = [recs[int(i)] for i in rng.permutation(len(recs))]
    X = np.array([r['data'] for r in recs])
    b = bulk_of(ctx, recs)
    ctx.sig(method, perc, len(recs), step)
    ctx.note(method=method, perc=perc, n=len(recs))
    want, sure = representative(X, method, perc)
    got = b.extract_trace(method, perc)
    ctx.event('references')
    if sure:
        ctx.close(got, want, 'representative', method, rtol=1e-9)
    ctx.eq(np.array_equal(b.ref_trc, got, equal_nan=True), True, 'kept')
    ctx.close(b.data, X, 'data_changed')
    # several references
    days = (max(r['end'] for r in recs)-min(r['start'] for r in recs))/86400
    lo = min(r['start'] for r in recs)
    if rng.random() < .5:
        inc = float(days/rng.choice([.7, 1.5, 3, 4]))
        ins = [inc]*int(np.ceil(days/inc-1e-9))
        arg = inc
    else:
        ins = [float(x) for x in days*rng.uniform(
            .1, .8, size=int(rng.integers(1, 5)))]
        arg = list(ins) if rng.random() < .5 else np.array(ins)
    s = lo
    want = []
    ok = True
    for inc in ins:
        inc *= 86400
        rs = [r['data'] for r in recs if r['end'] >= s-inc/2
              and r['start'] <= s+inc+inc/2]
        for r in recs:
            for x in (r['end']-(s-inc/2), r['start']-(s+1.5*inc)):
                ok = ok and abs(x) > 1e-3
        s = s + inc
        if not rs:
            ctx.event('empty_bins')
            rs = [np.full(X.shape[1], np.nan)]
        w, sure = representative(np.array(rs), method, perc)
        want.append(w if sure else None)
    got = b.extract_multi_trace(arg, method, perc)
    if not ok:
        return
    ctx.eq(len(got), len(want), 'multi_number', f'{arg} {days}')
    for g, w in zip(got, want):
        ctx.event('references')
        if w is not None:
            ctx.close(g, w, 'multi_representative', method, rtol=1e-9)
    one = b.extract_multi_trace(0, method, perc)
    w, sure = representative(X, method, perc)
    if sure:
        ctx.close(one, w, 'multi_zero', rtol=1e-9)
    ctx.close(b.data, X, 'data_changed')
