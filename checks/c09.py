"""
Continuous records with random gaps (single samples, snippets around the
minimum length, whole windows, late starts), sub-sample offsets, sampling
rates and window parameters are cut by the real workflow (directly and from
an archive on disk); every produced window is compared with an independent
model of detrending, tapering and cutting.
"""
import numpy as np
from obspy import Stream, UTCDateTime
from unittest import mock

from vlib.core import scenario
from vlib import synth, archive, world, refcorr

REQUIRED = {'windows_compared': 2000, 'windows_absent': 200,
            'gap_samples': 10000, 'subdiv_windows': 50}
ASSUMPTIONS = [
    'sub-sample offsets between the stations stay below half a sample',
    'lengths and increments are whole numbers of samples',
    'window ends: one additional (missing) sample at the end of a window '
    'is accepted',
    'day files are read through obspy']


def params(rng):
    sr = float(rng.choice([1., 2., 4., 5., 10.]))
    corr_len = float(rng.choice([120, 200, 300, 450, 600]))
    r = rng.random()
    corr_inc = corr_len if r < .5 else float(
        rng.choice([60, 100, 150, 300, 400]))
    if rng.random() < .2:
        # not in whole seconds
        sr = float(rng.choice([2., 4., 10.]))
        corr_inc = float(rng.choice([112.5, 100.5, 150.5]))
        if rng.random() < .5:
            corr_len = float(rng.choice([corr_inc, 150.5, 300.5]))
    n = int(rng.integers(2, 7))
    read_len = n*corr_inc
    if rng.random() < .2:
        read_len += float(rng.choice([10, 50]))
    read_len = max(read_len, corr_len)
    return sr, read_len, corr_len, corr_inc


def compare(ctx, got, want, start, corr_len, rec, scale, rtol=2e-4):
    """got: trace or None, want: (t, x) or None."""
    if want is None:
        ctx.event('windows_absent')
        if got is not None:
            w = np.ma.filled(np.ma.asarray(got.data, float), np.nan)
            ctx.expect(np.isnan(w).all(), 'window_without_data',
                       f'{rec.id} window at {start} has samples, none '
                       'recorded')
        return
    t, x = want
    if not ctx.expect(got is not None, 'window_missing',
                      f'{rec.id} window at {start}'):
        return
    ctx.event('windows_compared')
    d = 1/rec.sr
    ctx.expect(abs(got.stats.starttime.ns-t) < 2e4, 'window_start',
               f'{rec.id} {got.stats.starttime} expected '
               f'{UTCDateTime(ns=t)}')
    ctx.expect(abs(got.stats.starttime-start) <= .5*d+1e-5, 'start_grid')
    ctx.close(got.stats.sampling_rate, rec.sr, 'sampling_rate')
    n = int(round(corr_len*rec.sr))
    w = np.ma.filled(np.ma.asarray(got.data, float), np.nan)
    ctx.expect(len(w) in (n, n+1), 'window_length',
               f'{len(w)} samples, expected {n}')
    ctx.expect(np.isnan(w[n:]).all() or not w[n:].any(), 'extra_sample')
    ctx.event('gap_samples', np.isnan(x[:n]).sum())
    # gaps might come as missing samples or zeros
    a, b = w[:n], x[:n]
    ok = ~np.isnan(b)
    bad = ~ok & ~(np.isnan(a) | (a == 0))
    ctx.expect(not bad.any(), 'gap_filled',
               f'{rec.id} window {start}: {bad.sum()} samples in a gap',
               at=np.flatnonzero(bad)[:5])
    ctx.close(np.where(ok, a, 0), np.where(ok, b, 0), 'samples',
              f'{rec.id} window {start}', rtol=0, atol=rtol*scale)


@scenario(quick=600, thorough=9000)
def direct(ctx):
    """preprocess_stream and generate_corr_inc on streams in memory."""
    from seismic.correlate import correlate
    rng = ctx.rng
    sr, read_len, corr_len, corr_inc = params(rng)
    start = synth.rand_time(rng, res=1.)
    # the data can be longer or shorter than the increment
    lead = float(rng.choice([0, 0, 100, 13]))
    dur = read_len + lead + float(rng.choice([0, 0, 77]))
    recs = world.records(rng, start-lead, dur, sr, corr_len, flips=True)
    ctx.note(sr=sr, read_len=read_len, corr_len=corr_len, corr_inc=corr_inc,
             n=len(recs), start=start, lead=lead)
    ctx.sig(sr, read_len, corr_len, corr_inc, len(recs),
            tuple(len(r.segs) for r in recs))
    inv = None
    sc = mock.MagicMock()
    sc.inventory = inv
    if any(r.flip for r in recs):
        stas = sorted({r.id[:2] for r in recs})
        inv = synth.inventory(stas, {s: synth.coords(rng) for s in stas},
                              sorted({r.cha for r in recs}))
        fl = {r.id[:2] for r in recs if r.flip}
        for net in inv:
            for sta in net:
                for c in sta:
                    if c.code[-1] == 'Z' and (net.code, sta.code) in fl:
                        c.dip = 90.
        sc.inventory = inv
    st = Stream()
    endt = start + read_len
    for r in recs:
        s = Stream(world.traces(r))
        if rng.random() < .5:
            # what the client does
            s.trim(start, endt)
        else:
            s.trim(start-5, endt+5)
            s.trim(start, endt)
        if rng.random() < .4 and len(s):
            for tr in s:
                tr.data = tr.data.astype(np.float32)
            s.merge()
        st += s
    for tr in st:
        tr.data = np.require(tr.data, np.float32)
    pre, steps = (), []
    if rng.random() < .3:
        lo, hi = .02*sr, .2*sr
        pre = (('bandpass', lo, hi),)
        steps = [{'function':
                  'seismic.correlate.preprocessing_stream.stream_filter',
                  'args': {'ftype': 'bandpass', 'filter_option': {
                      'freqmin': lo, 'freqmax': hi}}}]
    kw = dict(subdivision=dict(corr_len=corr_len, corr_inc=corr_inc),
              preProcessing=steps or None)
    order = rng.permutation(len(st))
    st = Stream([st[int(i)] for i in order])
    st = correlate.preprocess_stream(
        st, sc, start, endt, 20, remove_response=False, **kw)
    got = list(correlate.generate_corr_inc(
        st, subdivision=kw['subdivision'], read_len=read_len))
    nwin = int(np.ceil(read_len/corr_inc-1e-9))
    ctx.eq(len(got), nwin, 'number_of_windows')
    for r in recs:
        want = refcorr.windows(r, start.ns, read_len, corr_len, corr_inc,
                               pre=pre)
        for k in range(nwin):
            g = [tr for tr in got[k] if tr.id.split('.')[0:2] ==
                 [r.net, r.sta] and tr.stats.channel == r.cha]
            ctx.expect(len(g) <= 1, 'one_trace_per_window', r.id)
            compare(ctx, g[0] if g else None, want.get(k),
                    start+k*corr_inc, corr_len, r, 5000)
    known = {r.id for r in recs}
    for s in got:
        for tr in s:
            ctx.expect((tr.stats.network, tr.stats.station,
                        tr.stats.channel) in known, 'unknown_trace')


@scenario(quick=500, thorough=8000, weight=3)
def archive_windows(ctx):
    """Windows handed to the correlation when reading an archive."""
    rng = ctx.rng
    sr, read_len, corr_len, corr_inc = params(rng)
    start = synth.rand_time(rng, res=1.)
    nb = int(rng.integers(1, 4))
    read_inc = read_len if rng.random() < .7 else float(
        np.ceil(read_len*rng.uniform(.6, 1.3)))
    subdiv = bool(rng.random() < .35)
    end = start + read_inc*nb - (0 if rng.random() < .7 else read_inc*.3)
    dur = nb*read_inc + read_len
    recs = world.records(rng, start-50, dur+100, sr, corr_len)
    pre, steps = (), []
    if rng.random() < .3:
        # off the sampling grid: no ambiguity at the ends
        ms = [start+float(rng.uniform(-100, dur))
              for _ in range(int(rng.integers(1, 4)))]
        ms = [(a.ns, a.ns+int(rng.uniform(5, 2*corr_len)*1e9)) for a in ms]
        cuts = [(start+b*read_inc).ns + int(o*1e9) for b in range(nb)
                for o in [0, read_len] + [
                    k*corr_inc+w for k in range(int(read_len/corr_inc)+1)
                    for w in (0, corr_len)]]
        ms = world.safe_masks(ms, recs, cuts)
        rev = bool(rng.random() < .2)
        pre = (('mask', ms, rev),) if len(ms) else ()
        steps = [{'function': 'seismic.correlate.preprocessing_stream.'
                  'stream_mask_at_utc', 'args': {
                      'starts': [UTCDateTime(ns=a) for a, _ in ms],
                      'ends': [UTCDateTime(ns=b) for _, b in ms],
                      'reverse': rev}}] if len(ms) else []
    ctx.note(sr=sr, read_len=read_len, read_inc=read_inc, corr_len=corr_len,
             corr_inc=corr_inc, start=start, nb=nb, subdiv=subdiv,
             ids=[r.id for r in recs], mask=bool(pre))
    ctx.sig(sr, read_len, read_inc, corr_len, corr_inc, nb, subdiv,
            bool(pre), tuple(len(r.segs) for r in recs))
    path = ctx.tmp()
    archive.write_sds(path, [t for r in recs for t in world.traces(r)])
    opts = archive.options(
        path, start, end, sr=sr, read_len=read_len, read_inc=read_inc,
        corr_len=corr_len, corr_inc=corr_inc, subdiv=subdiv, pre=steps,
        method='allSimpleCombinations')
    if not any(len(r.segs) for r in recs):
        return
    c = archive.correlator(path, opts)
    if subdiv:
        # only used if something exists already
        c.find_existing_times = lambda tag, channel='*': {'Q.Q': {}}
    want = []
    nbr = int(np.ceil((end-start)/read_inc - 1e-9))
    for b in range(nbr):
        t = start + b*read_inc
        ws = {r.id: refcorr.windows(r, t.ns, read_len, corr_len, corr_inc,
                                    subdiv, pre) for r in recs}
        first = True
        for k in sorted({k for w in ws.values() for k in w}):
            want.append((t+k*corr_inc, first,
                         {i: w.get(k) for i, w in ws.items()}))
            first = False
    got = []
    for st, flag in c._generate_data():
        got.append((st.copy(), flag))
    archive.close_logs()
    byid = {r.id: r for r in recs}
    # several windows can have the same start if the batches overlap
    ctx.eq(len(got), len(want), 'windows_produced',
           str([str(w[0]) for w in want]) + ' got '
           + str([str(g[0][0].stats.starttime) for g in got if len(g[0])]))
    for (st, flag), (t, first, exp) in zip(got, want):
        ctx.eq(bool(flag), first, 'first_of_batch', str(t))
        ids = {}
        for tr in st:
            i = (tr.stats.network, tr.stats.station, tr.stats.channel)
            ctx.expect(i in byid and i not in ids, 'unknown_trace', tr.id)
            ids[i] = tr
        ctx.event('subdiv_windows', subdiv)
        for i, w in exp.items():
            compare(ctx, ids.get(i), w, t, corr_len, byid[i], 5000)


@scenario(quick=300, thorough=4000)
def independent(ctx):
    """Windows of one record do not depend on the others or the order."""
    from seismic.correlate import correlate
    rng = ctx.rng
    sr, read_len, corr_len, corr_inc = params(rng)
    start = synth.rand_time(rng, res=1.)
    recs = world.records(rng, start, read_len, sr, corr_len, offset=False)
    sc = mock.MagicMock()
    sc.inventory = None

    def run(rs):
        st = Stream([t for r in rs for t in world.traces(r)])
        for tr in st:
            tr.data = np.require(tr.data, np.float32)
        if not len(st):
            return {}
        sub = dict(corr_len=corr_len, corr_inc=corr_inc)
        st = correlate.preprocess_stream(
            st, sc, start, start+read_len, 20, remove_response=False,
            subdivision=sub)
        out = {}
        for k, w in enumerate(correlate.generate_corr_inc(
                st, subdivision=sub, read_len=read_len)):
            for tr in w:
                out[(k, tr.stats.network, tr.stats.station,
                     tr.stats.channel)] = (
                    tr.stats.starttime.ns,
                    np.ma.filled(np.ma.asarray(tr.data, float), np.nan))
        return out
    ctx.sig(sr, read_len, corr_len, corr_inc, len(recs))
    whole = run([recs[int(i)] for i in rng.permutation(len(recs))])
    single = {}
    for r in recs:
        single.update(run([r]))
    ctx.eq(sorted(whole), sorted(single), 'same_windows')
    for k in whole:
        ctx.event('windows_compared')
        ctx.eq(whole[k][0], single[k][0], 'same_start')
        ctx.close(whole[k][1], single[k][1], 'same_samples', rtol=1e-6)


@scenario(quick=150, thorough=1000)
def helpers(ctx):
    """Gap handling, discarding and trimming of streams."""
    from seismic.utils import miic_utils as mu
    rng = ctx.rng
    sr = float(rng.choice([1., 5., 10., 100.]))
    t0 = synth.rand_time(rng)
    st = Stream()
    for i in range(int(rng.integers(1, 6))):
        n = int(rng.integers(1, 300))
        tr = synth.noise_trace(rng, 'A', f'S{i}', 'HHZ', t0+float(
            rng.integers(0, 10)), n, sr)
        if rng.random() < .4:
            m = rng.random(n) < rng.choice([.1, .5, 1.])
            tr.data = np.ma.array(tr.data, mask=m)
        st.append(tr)
    ref = st.copy()
    lim = float(rng.integers(0, 300))/sr
    ctx.sig(sr, lim, tuple(tr.stats.npts for tr in st))
    s = st.copy()
    mu.discard_short_traces(s, lim)
    ctx.eq([tr.id for tr in s], [tr.id for tr in ref if
           tr.stats.npts/sr > lim], 'discard_short_traces')
    s = st.copy()
    mu.get_valid_traces(s)
    ctx.eq([tr.id for tr in s],
           [tr.id for tr in ref if not np.ma.getmaskarray(tr.data).all()],
           'get_valid_traces')
    for tr in s:
        o = ref.select(id=tr.id)[0]
        ctx.expect(np.array_equal(np.ma.getmaskarray(tr.data),
                                  np.ma.getmaskarray(o.data)), 'unchanged')
    # trim by whole samples
    s = Stream([tr.copy() for tr in st if tr.stats.npts > 60])
    a, b = (int(rng.integers(0, 25)) for _ in range(2))
    mu.trim_stream_delta(s, a/sr, b/sr)
    for tr in s:
        o = ref.select(id=tr.id)[0]
        n = o.stats.npts
        ctx.close(np.ma.filled(tr.data, np.nan),
                  np.ma.filled(o.data[a:n-b], np.nan), 'trim_delta',
                  rtol=1e-12)
        ctx.expect(abs(tr.stats.starttime-o.stats.starttime-a/sr) < 1e-5,
                   'trim_delta_start')
    ctx.event('helpers')
