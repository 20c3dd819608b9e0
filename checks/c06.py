"""
Random station/channel sets (codes that are prefixes of each other, shuffled
order) go through the pair enumeration, the station lists, the station
selection of Correlator on a real SDS tree and whole small workflow runs;
the resulting pairs are compared with an independent definition of each
method and of the requested combinations.
"""
import itertools
import os

import numpy as np
from obspy import Stream, Trace, UTCDateTime
from obspy.geodetics import gps2dist_azimuth

from vlib.core import scenario
from vlib import synth, archive

METHODS = ['betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations']
CHANS = ['HHZ', 'HHN', 'HHE', 'BHZ', 'BHN', 'EH1', 'EHZ']
ASSUMPTIONS = ['codes consist of upper-case letters and digits (SEED)']
REQUIRED = {'pairs_requested': 200, 'pairs_not_requested': 50,
            'stations_selected': 50, 'stored_pairs': 20,
            'distance_pairs': 30}


def key(a, b):
    return tuple(sorted([tuple(a), tuple(b)]))


def definition(ids, method):
    """Multiset of pairs defined by the method; ids: (net, sta, cha)."""
    out = []
    if method == 'allCombinations':
        return [(a, b) for a in ids for b in ids]
    if method == 'autoComponents':
        return [(a, a) for a in ids]
    for a, b in itertools.combinations(ids, 2):
        same = a[:2] == b[:2]
        if method == 'betweenStations' and not same:
            out.append(key(a, b))
        elif method == 'betweenComponents' and same and \
                a[2][-1] != b[2][-1]:
            out.append(key(a, b))
        elif method == 'allSimpleCombinations':
            out.append(key(a, b))
    if method == 'allSimpleCombinations':
        out += [(a, a) for a in ids]
    return out


def requests(ctx, ids, p=.4):
    """Requested combinations and the set of pairs that they name."""
    rng = ctx.rng
    stas = sorted({i[:2] for i in ids})
    rc, pairs = [], set()
    for a, b in itertools.combinations(stas, 2):
        if rng.random() > p:
            continue
        if rng.random() < .4:
            a, b = b, a
        c = f'{a[0]}-{b[0]}.{a[1]}-{b[1]}'
        if rng.random() < .35:
            ca = ctx.pick([i[2] for i in ids if i[:2] == a])
            cb = ctx.pick([i[2] for i in ids if i[:2] == b])
            rc.append(f'{c}.{ca}-{cb}')
            pairs.add(key(a + (ca,), b + (cb,)))
        else:
            rc.append(c)
            pairs.update(key(i, j) for i in ids for j in ids
                         if i[:2] == a and j[:2] == b)
    if rng.random() < .5:
        # combinations for which nothing is available
        rc.append('QQ-QQ.NOPE-NADA')
    order = rng.permutation(len(rc))
    return [rc[int(i)] for i in order], pairs


def make_ids(ctx, nsta, kmax=3):
    stas = synth.stations(ctx.rng, nsta)
    ids = []
    for s in stas:
        k = int(ctx.rng.integers(1, kmax+1))
        for c in ctx.rng.permutation(CHANS)[:k]:
            ids.append(s + (str(c),))
    order = ctx.rng.permutation(len(ids))
    return [ids[int(i)] for i in order]


def to_stream(ctx, ids):
    st = Stream()
    t = synth.rand_time(ctx.rng)
    for n, s, c in ids:
        loc = ctx.pick(['', '', '00', '10'])
        st.append(Trace(np.zeros(4), header=dict(
            network=n, station=s, channel=c, location=loc, starttime=t)))
    return st


@scenario(quick=700, thorough=6000)
def pairs(ctx):
    """calc_cross_combis against the definition."""
    from seismic.correlate.correlate import calc_cross_combis
    ids = make_ids(ctx, int(ctx.rng.integers(1, 7)))
    method = ctx.pick(METHODS)
    st = to_stream(ctx, ids)
    rc = None
    want = definition(ids, method)
    if ctx.chance(.5):
        rc, req = requests(ctx, ids, ctx.pick([0., .3, .6, 1.]))
        if method == 'betweenStations':
            ctx.event('pairs_not_requested',
                      sum(w not in req for w in want))
            want = [w for w in want if w in req]
    ctx.note(ids=ids, method=method, rcombis=rc, expected=len(want))
    ctx.sig(method, tuple(ids), tuple(rc or ()))
    got = calc_cross_combis(st, {}, method, rcombis=rc)
    name = [(tr.stats.network, tr.stats.station, tr.stats.channel)
            for tr in st]
    ctx.eq(sorted(name), sorted(ids), 'traces', 'traces changed')
    gp = [(name[i], name[j]) for i, j in got]
    ctx.event('pairs_requested', len(want))
    if method == 'allCombinations':
        ctx.eq(sorted(gp), sorted(want), 'pairs', method)
    else:
        ctx.eq(sorted(key(*p) for p in gp), sorted(want), 'pairs', method)
    # the result does not depend on the order of the input
    order = ctx.rng.permutation(len(ids))
    st2 = to_stream(ctx, [ids[int(i)] for i in order])
    got2 = calc_cross_combis(st2, {}, method, rcombis=rc)
    name2 = [(tr.stats.network, tr.stats.station, tr.stats.channel)
             for tr in st2]
    ctx.eq(sorted((name2[i], name2[j]) for i, j in got2), sorted(gp),
           'order', 'pairs depend on the order of traces')


@scenario(quick=500, thorough=4000)
def station_lists(ctx):
    """compute_network_station_combinations against the definition."""
    from seismic.correlate.correlate import \
        compute_network_station_combinations as cns
    ids = make_ids(ctx, int(ctx.rng.integers(1, 7)), 2)
    stas = sorted({i[:2] for i in ids})
    order = ctx.rng.permutation(len(stas))
    stas = [stas[int(i)] for i in order]
    method = ctx.pick(METHODS)
    rc = None
    want = {tuple(sorted([a, b])) for a, b in
            itertools.combinations(stas, 2)}
    if method == 'betweenStations':
        if ctx.chance(.6):
            rc, req = requests(ctx, ids)
            want = {tuple(sorted([a[:2], b[:2]])) for a, b in req}
    elif method in METHODS[1:3]:
        want = {(s, s) for s in stas}
    else:
        want |= {(s, s) for s in stas}
    ctx.note(stations=stas, method=method, rcombis=rc)
    ctx.sig(method, tuple(stas), tuple(rc or ()))
    nc, sc = cns([s[0] for s in stas], [s[1] for s in stas], method,
                 combis=rc)
    got = []
    for n, s in zip(nc, sc):
        n, s = n.split('-'), s.split('-')
        got.append(((n[0], s[0]), (n[1], s[1])))
    ctx.event('pairs_requested', len(want))
    for g in got:
        ctx.expect(g[0] <= g[1], 'alphabetical', f'{g} not in order')
    ctx.eq(set(got), want, 'station_pairs', method)
    if method != 'allCombinations':
        ctx.eq(len(got), len(want), 'station_pairs_once', method)


def sds_tree(ctx, ids, root):
    for n, s, c in ids:
        for y in sorted({2015, int(ctx.rng.integers(2010, 2020))}):
            d = os.path.join(root, 'mseed', str(y), n, s, c + '.D')
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, f'{n}.{s}..{c}.D.{y}.001'), 'w').close()


@scenario(quick=160, thorough=1500)
def selection(ctx):
    """Station selection of Correlator on a real directory tree."""
    ids = make_ids(ctx, int(ctx.rng.integers(2, 8)))
    root = ctx.tmp()
    sds_tree(ctx, ids, root)
    nets = sorted({i[0] for i in ids})
    comp = ctx.pick(['*', '?', 'Z', 'N', 'Z', None, 'None'])
    mode = ctx.pick(['all', 'one_one', 'net_star', 'netlist_star',
                     'lists', 'net_list', 'prefix', 'list1'])
    stas = sorted({i[:2] for i in ids})
    if mode == 'all':
        net, sta, sel = '*', '*', set(stas)
    elif mode == 'one_one':
        s = ctx.pick(stas)
        net, sta, sel = s[0], s[1], {s}
    elif mode == 'list1':
        s = ctx.pick(stas)
        net, sta, sel = [s[0]], [s[1]], {s}
    elif mode == 'net_star':
        net, sta = ctx.pick(nets), '*'
        sel = {s for s in stas if s[0] == net}
    elif mode == 'netlist_star':
        k = int(ctx.rng.integers(1, len(nets)+1))
        net = [str(n) for n in ctx.rng.permutation(nets)[:k]]
        sta, sel = '*', {s for s in stas if s[0] in net}
    elif mode == 'lists':
        k = int(ctx.rng.integers(1, len(stas)+1))
        o = [stas[int(i)] for i in ctx.rng.permutation(len(stas))[:k]]
        net, sta, sel = [s[0] for s in o], [s[1] for s in o], set(o)
    elif mode == 'net_list':
        net = ctx.pick(nets)
        mine = [s for s in stas if s[0] == net]
        k = int(ctx.rng.integers(1, len(mine)+1))
        o = [mine[int(i)] for i in ctx.rng.permutation(len(mine))[:k]]
        sta, sel = [s[1] for s in o], set(o)
    else:
        p = ctx.pick(stas)[1][0]
        net, sta = '*', p + '*'
        sel = {s for s in stas if s[1].startswith(p)}
    want = sorted(i for i in ids if i[:2] in sel and (
        comp in ('*', '?', None, 'None') or i[2][-1] == comp))
    method = ctx.pick(METHODS)
    rc = None
    if ctx.chance(.5):
        rc, req = requests(ctx, ids, ctx.pick([.3, .7]))
        if method == 'betweenStations':
            named = {i[:2] for p in req for i in p}
            ask = [i for i in want if i[:2] in named]
            # of no interest here: nothing left
            if not ask:
                rc, ask = None, want
            want = ask
    ctx.note(net=net, sta=sta, comp=comp, ids=ids, rcombis=rc,
             method=method, expected=want)
    ctx.sig(mode, comp, method, tuple(ids))
    if not want:
        ctx.nontrivial = False
        return
    o = archive.options(root, '2015-01-01', '2015-01-02', net=net, sta=sta,
                        comp=comp, method=method, xcombis=rc)
    c = archive.correlator(root, o)
    ctx.eq(sorted(tuple(i) for i in c.avail_raw_data), want, 'channels',
           f'{mode}: selected channels')
    ctx.eq(sorted(tuple(i) for i in c.station),
           sorted({i[:2] for i in want}), 'stations',
           f'{mode}: selected stations')
    ctx.event('stations_selected', len(c.station))


@scenario(quick=60, thorough=600)
def distance(ctx):
    """find_interstat_dist: exactly the pairs within the distance."""
    from seismic.correlate.correlate import calc_cross_combis
    ids = make_ids(ctx, int(ctx.rng.integers(2, 7)), 1)
    root = ctx.tmp()
    sds_tree(ctx, ids, root)
    stas = sorted({i[:2] for i in ids})
    c0 = synth.coords(ctx.rng)
    coord = {s: (c0[0] + float(ctx.rng.normal(0, .3)),
                 c0[1] + float(ctx.rng.normal(0, .3)), 0.) for s in stas}
    archive.write_inventory(root, synth.inventory(
        stas, coord, chans=('HHZ',)))
    dis = {}
    for a, b in itertools.combinations(stas, 2):
        dis[(a, b)] = gps2dist_azimuth(
            coord[a][0], coord[a][1], coord[b][0], coord[b][1])[0]
    d = sorted(dis.values())
    cuts = [d[0]/2, d[-1]*1.5] + [(x+y)/2 for x, y in zip(d, d[1:])]
    lim = ctx.pick(cuts)
    ctx.note(coords=coord, limit=lim)
    ctx.sig(tuple(stas), lim)
    o = archive.options(root, '2015-01-01', '2015-01-02')
    c = archive.correlator(root, o)
    c.find_interstat_dist(lim)
    st = to_stream(ctx, ids)
    got = calc_cross_combis(st, {}, 'betweenStations', rcombis=c.rcombis)
    name = [(tr.stats.network, tr.stats.station) for tr in st]
    got = sorted(tuple(sorted((name[i], name[j]))) for i, j in got)
    ctx.eq(got, sorted(p for p in dis if dis[p] <= lim), 'distance',
           f'pairs within {lim} m')
    ctx.event('distance_pairs', len(dis))


@scenario(quick=40, thorough=300, weight=5)
def stored(ctx):
    """Pairs found in the database after a complete workflow run."""
    ids = make_ids(ctx, int(ctx.rng.integers(2, 5)), 3)
    root = ctx.tmp()
    t0 = UTCDateTime(2015, 3, 1, 12)
    archive.write_sds(root, [synth.noise_trace(
        ctx.rng, n, s, c, t0, 1300, 10.) for n, s, c in ids])
    method = ctx.pick(METHODS)
    rc = None
    want = {key(a, b) for a, b in definition(ids, method)}
    if ctx.chance(.6) and method == 'betweenStations':
        rc, req = requests(ctx, ids, .6)
        if want & req:
            want &= req
        else:
            rc = None
    ctx.note(ids=ids, method=method, rcombis=rc, expected=len(want))
    ctx.sig(method, tuple(ids), tuple(rc or ()))
    if not want:
        ctx.nontrivial = False
        return
    sep = ctx.chance(.5)
    o = archive.options(root, t0, t0+120, read_len=120, read_inc=120,
                        corr_len=60, corr_inc=60, method=method,
                        xcombis=rc, separate=sep)
    c = archive.correlator(root, o)
    c.pxcorr()
    db = archive.dump_db(os.path.join(root, 'corr'))
    got = {}
    for k in db:
        p = [tuple(x) for x in zip(k[1].split('-'), k[2].split('-'),
                                   k[3].split('-'))]
        ctx.expect(p[0] <= p[1], 'alphabetical', f'{k}')
        got.setdefault(key(*p), []).append(k[4])
    ctx.eq(sorted(got), sorted(want), 'stored_pairs', method)
    for p, times in got.items():
        ctx.eq(sorted(times), [t0.ns, (t0+60).ns], 'stored_times', f'{p}')
    ctx.event('stored_pairs', len(got))
