"""Random histories of add / delete / query / list / reopen on correlation
databases with codes that are prefixes of each other and several tags; a set
of paths with per-component wildcard matching is the oracle for every query,
listing and deletion.  A case is non-trivial when the database held at least
two correlations and a query or deletion selected a proper subset."""
import fnmatch
import os
import numpy as np
from obspy import UTCDateTime
from vlib.core import scenario
from vlib import synth
from checks.c03 import CO, ordered, snapshot, compare, key

REQUIRED = {'queries': 500, 'proper_subset': 150, 'deletions': 100,
            'listings': 300, 'swapped_queries': 50}
ASSUMPTIONS = ['wildcards follow fnmatch (* and ?) within each component',
               'station order in queries is only exchanged when both '
               'stations are fully named']


def fiss(x):
    return UTCDateTime(ns=int(x)*100000).format_fissures()


def fill(ctx, cdb, model, combos, times, tags, n):
    from seismic.correlate.stream import CorrStream
    st, ks = {}, []
    for _ in range(n):
        net, sta, cha = ctx.pick(combos)
        tag = ctx.pick(tags)
        tr = synth.corr_trace(ctx.rng.standard_normal(5), net=net, sta=sta,
                              cha=cha, start=ctx.pick(times),
                              length=float(ctx.pick([3600, 7200])))
        k = key(tag, tr)
        if k in model:
            continue
        model[k] = snapshot(tr)
        st.setdefault(tag, CorrStream()).append(tr)
    for tag, s in st.items():
        cdb.add_correlation(s, tag)
    ctx.event('writes', len(ks))


def check_query(ctx, cdb, model, q, expect, where):
    net, sta, cha, tag, t0, t1 = q
    ctx.event('queries')
    try:
        st = cdb.get_data(net, sta, cha, tag, t0, t1)
    except KeyError:
        ctx.expect(not expect, where+'-not-found',
                   f'{q}: {len(expect)} stored correlations not found')
        return
    got = [key(tag, t) for t in st]
    ctx.expect(len(set(got)) == len(got), where+'-repeated', str(q))
    ctx.expect(set(got) == expect, where,
               f'{q}: got {sorted(set(got)-expect)[:3]} extra, '
               f'{sorted(expect-set(got))[:3]} missing')
    for t in st:
        compare(ctx, t, model[key(tag, t)], where)
    if expect and len(expect) < len(model):
        ctx.event('proper_subset')


def wild(ctx, s):
    """A pattern that matches s."""
    s = list(s)
    m = ctx.rng.random()
    if m < .3:
        return '*'
    i = int(ctx.rng.integers(len(s)))
    if m < .55:
        s[i] = '?'
    elif m < .8:
        s[i:] = ['*']
    else:
        s[:i+1] = ['*']
    return ''.join(s)


def queries(ctx, cdb, model, combos, tags, times):
    r = ctx.rng
    for _ in range(12):
        if model and ctx.chance(.85):
            ks = sorted(model)
            k = ks[int(r.integers(len(ks)))]
        else:
            k = (ctx.pick(tags), *ctx.pick(combos),
                 ctx.pick(times).ns//100000, 0)
            k = k[:5] + (k[4]+36000000,)
        tag, net, sta, cha, a, b = k
        t0 = UTCDateTime(ns=a*100000) if ctx.chance(.4) else None
        t1 = UTCDateTime(ns=b*100000) if ctx.chance(.4) else None
        kind = ctx.pick(['full', 'full', 'swap', 'swap', 'wild', 'wild',
                         'swapwild'])
        if kind == 'wild':
            pn = wild(ctx, net) if ctx.chance(.4) else net
            ps = wild(ctx, sta) if ctx.chance(.5) else sta
            pc = wild(ctx, cha) if ctx.chance(.6) else cha
        elif kind == 'swapwild' and len(set(zip(
                net.split('-'), sta.split('-')))) == 2:
            # fully named, different stations: only the channel is wild
            pn, ps = net, sta
            pc = ctx.pick(['*', cha[:2]+'*'+cha[3:], cha[:6]+'?',
                           '??'+cha[2:]])
        else:
            pn, ps, pc = net, sta, cha
        exp = {m for m in model if m[0] == tag
               and fnmatch.fnmatchcase(m[1], pn)
               and fnmatch.fnmatchcase(m[2], ps)
               and fnmatch.fnmatchcase(m[3], pc)
               and (t0 is None or m[4] == a) and (t1 is None or m[5] == b)}
        if kind.startswith('swap') and pc != '*':
            pn, ps, pc = ('-'.join(reversed(x.split('-')))
                          for x in (pn, ps, pc))
            ctx.event('swapped_queries')
        check_query(ctx, cdb, model, (pn, ps, pc, tag, t0, t1), exp,
                    'query-'+kind)


def listings(ctx, cdb, model, combos, tags, ever):
    for tag in tags:
        for net, sta, cha in combos:
            ctx.event('listings')
            mine = [m for m in model if m[:3] == (tag, net, sta)]
            got = cdb.get_available_channels(tag, net, sta)
            ctx.expect({m[3] for m in mine} <= set(got) <= {
                           m[3] for m in ever if m[:3] == (tag, net, sta)}
                       and len(set(got)) == len(got),
                       'list-channels', f'{tag} {net} {sta}: {got}')
            for pat in (cha, '*', cha[:2]+'*', [cha, 'ZZZ-ZZZ'],
                        ['HH*', 'B*'], cha[:4]+'?', [cha[:-1], '?'+cha[1:5]],
                        [cha[:-1]+'?', 'HH'], cha[:-2]+'??'):
                pats = pat if isinstance(pat, list) else [pat]
                exp = {}
                for m in mine:
                    if any(fnmatch.fnmatchcase(m[3], p) for p in pats):
                        exp.setdefault(m[3], set()).add(m[4])
                try:
                    got = cdb.get_available_starttimes(net, sta, tag, pat)
                except KeyError:
                    ctx.expect(not mine, 'list-starttimes',
                               f'{tag} {net} {sta} {pat} not found')
                    continue
                got = {c: sorted(v) for c, v in got.items() if len(v)}
                ctx.expect(got == {c: sorted(map(fiss, v))
                                   for c, v in exp.items()},
                           'list-starttimes', f'{tag} {net} {sta} {pat}: '
                           f'got {got}')


def delete(ctx, cdb, model, combos, tags, times):
    ks = sorted(model)
    if not ks:
        return
    tag, net, sta, cha, a, _ = ks[int(ctx.rng.integers(len(ks)))]
    mine = {m for m in model if m[:4] == (tag, net, sta, cha)}
    f = fiss(a)
    kind = ctx.pick(['utc', 'exact', 'prefix', 'question', 'suffix', 'all',
                     'missing', 'short', 'refused'])
    pat = f
    if kind == 'utc':
        pat = UTCDateTime(ns=a*100000)
        rm = {m for m in mine if m[4] == a}
    elif kind == 'missing':
        pat = '1970001T000000.0000Z'
        rm = set()
    else:
        if kind == 'prefix':
            pat = f[:int(ctx.rng.integers(1, len(f)))] + '*'
        elif kind == 'suffix':
            pat = '*' + f[int(ctx.rng.integers(4, len(f)-1)):]
        elif kind == 'question':
            c = list(f)
            for i in ctx.rng.choice(len(c), int(ctx.rng.integers(1, 3)),
                                    replace=False):
                c[i] = '?'
            pat = ''.join(c)
        elif kind == 'all':
            pat = '*'
        elif kind == 'short':
            # ends before the names of the correlations do
            pat = ctx.pick([f[:-1].replace(f[2], '?'), '*'+f[4:-2],
                            f[:8]+'?', '*T'+f[8:10]])
        rm = {m for m in mine if fnmatch.fnmatchcase(fiss(m[4]), pat)}
    args = [net, sta, cha]
    if ctx.chance(.3):
        args = ['-'.join(reversed(x.split('-'))) for x in args]
    if kind == 'refused':
        i = int(ctx.rng.integers(3))
        args[i] = ctx.pick(['*', args[i][:-1]+'*', '*'+args[i][1:]])
        ctx.raises(ValueError, lambda: cdb.remove_data(*args, tag, pat),
                   'deleted-by-wildcard')
        rm = set()
    else:
        cdb.remove_data(*args, tag, pat)
    ctx.event('deletions')
    for m in rm:
        del model[m]
    # everything else is still there, and nothing of the deleted
    left = set()
    for tg in tags:
        for n, s, c in combos:
            try:
                left |= {key(tg, t) for t in cdb.get_data(n, s, c, tg)}
            except KeyError:
                pass
    ctx.expect(left == set(model), f'delete-{kind}',
               f'{pat}: kept {sorted(left-set(model))[:3]}, lost '
               f'{sorted(set(model)-left)[:3]}')
    if rm and model:
        ctx.event('proper_subset')


@scenario(quick=150)
def history(ctx):
    from seismic.db.corr_hdf5 import CorrelationDataBase
    r = ctx.rng
    combos = sorted(set(ordered(r, int(r.integers(2, 7)))))
    base = synth.rand_time(r)
    times = [synth.rand_time(r) for _ in range(2)]
    times += [base + x for x in (0, 1, 10, 3600, 86400, 864000)]
    tags = ['subdivision', 'sub', 'stack_86398', 'stack_8639']
    tags = [tags[i] for i in sorted(r.choice(4, 2, replace=False))]
    path = os.path.join(ctx.tmp(), 'db.h5')
    model = {}
    ops = []
    ever = set()
    for _ in range(3):
        with CorrelationDataBase(path, corr_options=CO) as cdb:
            for _ in range(int(r.integers(2, 6))):
                op = ctx.pick(['add', 'query', 'delete', 'list'])
                ops.append(op[0])
                if op == 'add' or not model:
                    fill(ctx, cdb, model, combos, times, tags,
                         int(r.integers(1, 12)))
                    ever |= set(model)
                elif op == 'query':
                    queries(ctx, cdb, model, combos, tags, times)
                elif op == 'list':
                    listings(ctx, cdb, model, combos, tags, ever)
                else:
                    delete(ctx, cdb, model, combos, tags, times)
    with CorrelationDataBase(path, mode='r') as cdb:
        queries(ctx, cdb, model, combos, tags, times)
        listings(ctx, cdb, model, combos, tags, ever)
    ctx.note(combos=combos, tags=tags, ops=''.join(ops), stored=len(model))
    ctx.sig(''.join(ops), len(model), len(combos))
