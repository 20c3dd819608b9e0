"""
Random streams and matrices of correlations (several combinations, unequal
window lengths, overlaps, gaps, duplicates, any order, windows across
midnight) are selected by date range, time of day, listed times, sliding
windows and codes, with limits on, between and beyond window limits; the
correlations returned are identified by a label in their samples and compared
with a direct evaluation of the stated criterion.
"""
import fnmatch

import numpy as np
from obspy import UTCDateTime

from vlib.core import scenario
from vlib import synth

ASSUMPTIONS = [
    'times on a grid of whole or half seconds',
    'a correlation that only touches the limit of a slice or contains a '
    'listed time exactly at its limit may be selected or not']
REQUIRED = {'selected': 2000, 'not_selected': 2000, 'on_limit': 200,
            'duplicates_removed': 100, 'midnight': 200}
NPTS = 5


def make(ctx, nmax=14, one=False, uniform=False, long=False):
    """Stream in random order; label = first sample."""
    rng = ctx.rng
    t0 = synth.rand_time(rng, res=1.)
    if rng.random() < .5:
        t0 = UTCDateTime(t0.year, t0.month, t0.day)
    n = int(rng.integers(1, nmax))
    step = float(rng.choice([600, 1800, 3600, 3*3600, 7200.5]))
    codes = [('A-B', 'X-Y', 'HHZ-HHZ'), ('A-B', 'X-Y', 'HHZ-HHE'),
             ('A-A', 'X-X', 'HHZ-HHZ')]
    from seismic.correlate.stream import CorrStream
    st = CorrStream()
    recs = []
    for i in range(n):
        if rng.random() < .15:
            t0 += step*int(rng.integers(1, 30))
        le = step if uniform or rng.random() < .7 else float(
            step*rng.choice([.5, 1.5, 2, .1]))
        if long and rng.random() < .1:
            # more than a day
            le = 86400.*int(rng.integers(1, 4)) + float(
                rng.choice([0, 1, 600, step]))
        c = codes[0] if one else ctx.pick(codes)
        if i and rng.random() < .1:
            start = recs[-1][0]
        else:
            start = t0 + i*step
        d = np.full(NPTS, float(i))
        tr = synth.corr_trace(d, net=c[0], sta=c[1], cha=c[2], start=start,
                              length=le)
        recs.append((start, start+le, c))
        st.append(tr)
    order = rng.permutation(n)
    st.traces = [st[int(i)] for i in order]
    return st, recs, step


def labels(ctx, st, recs):
    out = []
    for tr in st:
        d = np.unique(tr.data)
        ctx.eq(len(d), 1, 'changed_data')
        i = int(d[0])
        s, e, c = recs[i]
        ctx.eq((tr.stats.corr_start, tr.stats.corr_end, tr.stats.network,
                tr.stats.station, tr.stats.channel), (s, e) + c,
               'changed_header')
        out.append(i)
    return out


def limits(ctx, recs, step):
    """Two limits, often on window limits."""
    rng = ctx.rng
    ts = [t for r in recs for t in r[:2]]
    out = []
    for _ in range(2):
        t = ctx.pick(ts)
        r = rng.random()
        if r < .4:
            t = t + float(rng.choice([0.5, -.5, 1, step/3, -step/3,
                                      5*step, -5*step]))
        elif r < .5:
            t = t + step*float(rng.choice([-100, 100]))
        out.append(t)
    a, b = min(out), max(out)
    if a == b:
        b = a + step
    return a, b


def judge(ctx, got, recs, want, mech, either=(), msg=''):
    """got: labels, want: set of labels, either: may or may not."""
    ctx.eq(len(got), len(set(got)), mech+'_twice', msg)
    g, w, e = set(got), set(want), set(either)
    ctx.expect(g - e == w - e, mech, f'{msg} selected {sorted(g)} expected '
               f'{sorted(w)} of {[(str(r[0]), str(r[1])) for r in recs]}')
    ctx.event('selected', len(w))
    ctx.event('not_selected', len(recs)-len(w))


def by_date(recs, a, b, partial):
    if partial:
        return {i for i, (s, e, _) in enumerate(recs) if a < e <= b}
    return {i for i, (s, e, _) in enumerate(recs) if a <= s and e <= b}


@scenario(quick=1500, thorough=40000)
def dates(ctx):
    """Date ranges: streams and matrices, complete and partial windows."""
    rng = ctx.rng
    st, recs, step = make(ctx, one=rng.random() < .5)
    n = len(st)
    a, b = limits(ctx, recs, step)
    partial = bool(rng.random() < .5)
    ctx.note(a=a, b=b, partial=partial)
    ctx.sig(n, str(a), str(b), partial)
    ctx.event('on_limit', any(t in (a, b) for r in recs for t in r[:2]))
    want = by_date(recs, a, b, partial)
    out = st.select_corr_time(a, b, partial) if rng.random() < .5 else \
        st.select_corr_time(starttime=a, endtime=b,
                            include_partially_selected=partial)
    got = labels(ctx, out, recs)
    judge(ctx, got, recs, want, 'select_corr_time', msg=f'{a} {b} {partial}')
    ctx.eq([str(recs[i][0]) for i in got],
           sorted(str(recs[i][0]) for i in got), 'sorted')
    # nothing is lost from the stream itself
    ctx.eq(sorted(labels(ctx, st, recs)), list(range(n)), 'stream_changed')
    # selection with codes on the way into a matrix
    cha = ctx.pick(['HHZ-HHZ', 'HHZ-HHE'])
    net = ctx.pick(['A-B', 'A-A'])
    part = {i for i in by_date(recs, a, b, True)
            if recs[i][2][0] == net and recs[i][2][2] == cha}
    if part:
        bulk = st.create_corr_bulk(network=net, channel=cha, times=(a, b),
                                   inplace=False)
        got = [int(x) for x in bulk.data[:, 0]]
        judge(ctx, got, recs, part, 'matrix_times')
        for i, s, e in zip(got, bulk.stats.corr_start, bulk.stats.corr_end):
            ctx.eq((s, e), recs[i][:2], 'matrix_row_times')
    # matrix: selections by date
    one = [i for i in range(n) if recs[i][2] == recs[0][2]]
    sub = st.copy()
    sub.traces = [t for t in sub if int(t.data[0]) in one]
    bulk = sub.create_corr_bulk(inplace=False)
    w = by_date(recs, a, b, partial) & set(one)
    if w:
        o = bulk.select_corr_time(a, b, partial)
        judge(ctx, [int(x) for x in o.data[:, 0]], recs, w, 'bulk_select')
        for x, s in zip(o.data[:, 0], o.stats.corr_start):
            ctx.eq(s, recs[int(x)][0], 'bulk_select_times')
    o = bulk.slice(a, b, partial)
    if partial:
        w = {i for i in one if recs[i][1] >= a and recs[i][0] <= b}
        e = {i for i in one if recs[i][1] == a or recs[i][0] == b}
    else:
        w, e = by_date(recs, a, b, False) & set(one), ()
    judge(ctx, [int(x) for x in o.data[:, 0]], recs, w, 'slice', e,
          f'{a} {b} {partial}')
    for x, s, q in zip(o.data[:, 0], o.stats.corr_start, o.stats.corr_end):
        ctx.eq((s, q), recs[int(x)][:2], 'slice_times')
    ctx.eq(len(o.stats.corr_start), len(o.data), 'slice_times')
    ctx.raises(ValueError, lambda: bulk.slice(b, a), 'slice_reversed')


@scenario(quick=1200, thorough=40000)
def daytime(ctx):
    """Time of day, also across midnight, and its complement."""
    rng = ctx.rng
    st, recs, step = make(ctx, long=True)
    n = len(st)

    def tod(t):
        return (t.hour, t.minute, t.second + t.microsecond/1e6)
    ts = [t for r in recs for t in r[:2]]
    lim = []
    for _ in range(2):
        r = rng.random()
        if r < .4:
            lim.append(tod(ctx.pick(ts)))
        elif r < .55:
            lim.append(ctx.pick([(0, 0, 0), (23, 59, 59), (12, 0, 0),
                                 (0, 0, .5)]))
        else:
            lim.append((int(rng.integers(24)), int(rng.integers(60)),
                        float(rng.integers(120))/2))
    a, b = lim
    sa, sb = (3600*x[0] + 60*x[1] + x[2] for x in lim)
    length = sb - sa if sb > sa else sb - sa + 86400
    ctx.event('midnight', sb <= sa or any(
        r[0].julday != r[1].julday for r in recs))
    want = set()
    for i, (s, e, _) in enumerate(recs):
        day = UTCDateTime(s.year, s.month, s.day)
        for d in (-86400, 0):
            if s >= day + d + sa and e <= day + d + sa + length:
                want.add(i)
    ctx.note(a=a, b=b)
    ctx.sig(a, b, n)
    got = labels(ctx, st.select_time(a, b), recs)
    judge(ctx, got, recs, want, 'select_time', msg=f'{a} {b}')
    ex = labels(ctx, st.select_time(a, b, exclude=True), recs)
    judge(ctx, ex, recs, set(range(n)) - want, 'select_time_exclude',
          msg=f'{a} {b}')
    ctx.eq(sorted(labels(ctx, st, recs)), list(range(n)), 'stream_changed')


@scenario(quick=800, thorough=30000)
def listed(ctx):
    """Removing correlations that contain listed times."""
    rng = ctx.rng
    st, recs, step = make(ctx)
    n = len(st)
    ts = []
    for _ in range(int(rng.integers(0, 5))):
        t = ctx.pick([x for r in recs for x in r[:2]])
        if rng.random() < .8:
            t = t + float(rng.choice([.5, -.5, step/2, -step/2, 9*step,
                                      -7*step, 400*step]))
        ts.append(t)
    inside = {i for i, (s, e, _) in enumerate(recs)
              if any(s < t < e for t in ts)}
    edge = {i for i, (s, e, _) in enumerate(recs)
            if any(t in (s, e) for t in ts)} - inside
    ctx.sig(n, tuple(map(str, ts)))
    out = st.pop_at_utcs(np.array(ts, dtype=object))
    judge(ctx, labels(ctx, out, recs), recs, set(range(n))-inside,
          'pop_at_utcs', edge, str(ts))
    ctx.eq(sorted(labels(ctx, st, recs)), list(range(n)), 'stream_changed')


@scenario(quick=800, thorough=20000)
def duplicates(ctx):
    """Repeated correlations are removed, similar ones are kept."""
    rng = ctx.rng
    st, recs, step = make(ctx)
    base = len(st)
    keep = [tr.copy() for tr in st]
    key = [(int(tr.data[0]), 0, 0, 0) for tr in st]
    for _ in range(int(rng.integers(0, 8))):
        i = int(rng.integers(base))
        tr = keep[i].copy()
        r = rng.random()
        b, nd, ns, loc = key[i]
        if r < .2:
            # other data
            tr.data = tr.data.copy()
            tr.data[-1] += 1e-3
            nd += 1
        elif r < .4:
            tr.stats.corr_start += 1e-3
            ns += 1
        elif r < .5:
            tr.stats.location = '00-00'
            loc = 1
        p = int(rng.integers(len(st)+1))
        st.traces.insert(p, tr)
        key.insert(p, (b, nd, ns, loc))
        keep = [t.copy() for t in st]
        base = len(st)
    first = [key.index(k) for k in dict.fromkeys(key)]
    ctx.event('duplicates_removed', len(key)-len(first))
    ctx.sig(tuple(map(str, key)))
    st.remove_duplicates()
    ctx.eq(len(st), len(first), 'number_without_duplicates', str(key))
    for tr, i in zip(st, first):
        ctx.expect(tr == keep[i], 'kept', str(key))


@scenario(quick=600, thorough=20000)
def sliding(ctx):
    """Every sliding window holds what its date range holds."""
    rng = ctx.rng
    st, recs, step = make(ctx)
    if step % 1:
        # limits of the windows are only exact for whole seconds
        return
    longest = max(e-s for s, e, _ in recs)
    wl = longest*float(rng.choice([1, 1.5, 2, 4]))
    inc = step*float(rng.choice([.5, 1, 1.5, 2, 5]))
    partial = bool(rng.random() < .7)
    t0, t1 = min(r[0] for r in recs), max(r[1] for r in recs)
    kw = {}
    if rng.random() < .4:
        t0 = t0 + float(rng.integers(-3, 4))*step
        kw['starttime'] = t0
    if rng.random() < .4:
        t1 = t0 + float(rng.integers(1, 8))*step
        kw['endtime'] = t1
    if (t1-t0)/inc > 500:
        return
    ctx.sig(len(st), wl, inc, partial, str(kw))
    want = []
    k = 0
    while t0 + k*inc < t1:
        w = by_date(recs, t0+k*inc, t0+k*inc+wl, partial)
        if w:
            want.append(w)
        k += 1
    got = []
    for w in st.slide(wl, inc, include_partially_selected=partial, **kw):
        got.append(labels(ctx, w, recs))
    ctx.eq(len(got), len(want), 'windows', f'{wl} {inc} {kw}')
    for g, w in zip(got, want):
        judge(ctx, g, recs, w, 'slide')
    ctx.raises(ValueError, lambda: list(st.slide(wl, 0)), 'slide_step')
    ctx.raises(ValueError, lambda: list(st.slide(longest*.99, inc)),
               'slide_length')


@scenario(quick=500, thorough=10000)
def codes(ctx):
    """Selection by codes and wildcards, alone and for matrices."""
    rng = ctx.rng
    st, recs, step = make(ctx)
    pat = {k: ctx.pick(p) for k, p in (
        ('network', [None, 'A-B', 'A-*', '*-A', 'Q-Q']),
        ('station', [None, 'X-Y', 'X-?', 'Y-X']),
        ('channel', [None, 'HHZ-HHZ', 'HHZ-HH?', '*E', 'BHZ-*']))}
    want = {i for i, r in enumerate(recs) if all(
        p is None or fnmatch.fnmatchcase(v, p)
        for p, v in zip(pat.values(), r[2]))}
    ctx.sig(str(pat), len(st))
    judge(ctx, labels(ctx, st.select(**pat), recs), recs, want, 'select',
          msg=str(pat))
    if want and len({recs[i][2] for i in want}) == 1:
        A, stats = st._to_matrix(**pat)
        got = [int(x) for x in A[:, 0]]
        judge(ctx, got, recs, want, 'to_matrix')
        for i, s in zip(got, stats):
            ctx.eq((s.corr_start, s.corr_end), recs[i][:2],
                   'to_matrix_times')
        ctx.eq([str(recs[i][0]) for i in got],
               sorted(str(recs[i][0]) for i in got), 'to_matrix_sorted')
