"""Random archives shared by the checks of the correlation workflow."""
import numpy as np
from obspy import Trace, UTCDateTime

from vlib import synth
from vlib.refcorr import Record


def pattern(rng, n, sr, corr_len, kind):
    """Defined samples (bool) of a record of n samples."""
    m = np.ones(n, bool)
    if kind == 'full':
        return m
    m = _pattern(rng, m, n, sr, corr_len, kind)
    # gaps of one sample may be interpolated or not
    for i in range(1, n-1):
        if not m[i] and m[i-1] and m[i+1]:
            m[i+1] = False
    return m


def _pattern(rng, m, n, sr, corr_len, kind):
    def hole(length):
        k = max(1, int(length*sr))
        a = int(rng.integers(-k//2, n))
        m[max(a, 0):max(a+k, 0)] = False
    if kind == 'late':
        m[:int(rng.integers(1, n))] = False
    elif kind == 'early':
        m[-int(rng.integers(1, n)):] = False
    elif kind == 'one':
        hole(2/sr)
    elif kind == 'short':
        for _ in range(int(rng.integers(1, 4))):
            hole(rng.uniform(2/sr, 30))
    elif kind == 'long':
        hole(corr_len*rng.uniform(.8, 2.5))
    elif kind == 'window':
        # exactly one window or more is missing
        k = int(corr_len*sr)
        a = k*int(rng.integers(0, max(n//k, 1)))
        m[a:a+k+1] = False
    elif kind == 'snippets':
        # pieces around the minimum length
        p = int(rng.integers(0, 100*sr))
        while p < n:
            p += int(rng.choice([78, 79, 80, 81, 85, 200])*sr) \
                + int(rng.integers(-1, 2))
            m[p:p+int(rng.integers(1, 40*sr))] = False
            p += int(40*sr)
    elif kind == 'edges':
        k = int(rng.uniform(1, 60)*sr)
        m[:k] = False
        m[-int(rng.uniform(1, 60)*sr):] = False
    elif kind == 'none':
        m[:] = False
    return m


KINDS = ['full', 'full', 'late', 'early', 'one', 'short', 'long', 'window',
         'snippets', 'edges']


def records(rng, start, dur, sr, corr_len, nsta=None, chans=None,
            kinds=KINDS, offset=True, common=True, flips=False, integer=None):
    """Random records covering start ... start+dur (s)."""
    nsta = nsta or int(rng.integers(2, 4))
    chans = chans or [['HHZ'], ['HHZ', 'HHE'], ['HHZ', 'HHE', 'HHN']][
        int(rng.choice(3, p=[.6, .25, .15]))]
    # all kinds of sensors
    band = str(rng.choice(['HH', 'HH', 'BN', 'SP', 'DL']))
    chans = [band+c[-1] for c in chans]
    out = []
    n = int(round(dur*sr)) + 1
    shared = rng.standard_normal(n + 200)
    for net, sta in synth.stations(rng, nsta):
        off = int(rng.integers(-int(2500/sr), int(2500/sr)+1))*10**5 \
            if offset and rng.random() < .4 and n < 32000 else 0
        flip = bool(flips and rng.random() < .3)
        kind = kinds[int(rng.integers(len(kinds)))]
        for cha in chans:
            if rng.random() < .1 and len(out) > 1:
                continue
            if rng.random() < .3:
                kind = kinds[int(rng.integers(len(kinds)))]
            m = pattern(rng, n, sr, corr_len, kind)
            d = rng.standard_normal(n)
            if common:
                s = int(rng.integers(0, 60))
                d = .4*d + shared[s:s+n]
            d = d*1000 + rng.uniform(-500, 500) \
                + rng.uniform(-1, 1)*np.linspace(0, 3000, n)
            isint = rng.random() < .4 if integer is None else integer
            isint = isint and not off
            d = np.round(d).astype(np.int32) if isint else \
                d.astype(np.float32)
            segs = []
            e = np.concatenate(([False], m, [False]))
            b = np.flatnonzero(e[1:] != e[:-1])
            for i, j in zip(b[::2], b[1::2]):
                segs.append((int(i), d[i:j]))
            out.append(Record(net, sta, cha, start.ns + off, sr, segs,
                              flip and cha[-1] == 'Z'))
    return out


def traces(rec, sr=None):
    """obspy traces of a record (one per segment)."""
    out = []
    sr = sr or rec.sr
    for k, d in rec.segs:
        out.append(Trace(np.array(d), header=dict(
            network=rec.net, station=rec.sta, channel=rec.cha,
            starttime=UTCDateTime(ns=rec.t0 + int(round(k*1e9/sr))),
            sampling_rate=sr)))
    return out


def safe_masks(masks, recs, bounds):
    """Masks (ns) that do not end where a piece of data does.

    One sample more on each side is masked within a piece, not across.
    bounds: further times (ns) at which data is cut.
    """
    edges, d = [np.asarray(bounds, float)], 0
    for r in recs:
        d = max(d, 2e9/r.sr)
        for k, x in r.segs:
            edges.append(r.t0 + np.array([k, k+len(x)-1])*1e9/r.sr)
    edges = np.concatenate(edges)
    return [m for m in masks
            if all(np.abs(edges-t).min() > d for t in m)]
