"""Independent model of the correlation workflow (numpy and scipy only).

A record is described by its codes, its grid (first possible sample time in
ns, sampling rate) and a dictionary-free list of segments (first sample index
on the grid, samples).  Nothing of seismic is imported here.
"""
import numpy as np
import scipy.fftpack
import scipy.signal

TAPER = 20.


class Record:
    """One channel: segments on one regular grid t = t0 + k/sr."""
    response = None

    def __init__(self, net, sta, cha, t0, sr, segs, flip=False):
        self.net, self.sta, self.cha = net, sta, cha
        self.t0, self.sr, self.flip = int(t0), sr, flip
        self.segs = segs    # [(k, data)]

    @property
    def id(self):
        return (self.net, self.sta, self.cha)

    def cut(self, start, end):
        """Samples whose time is next to [start, end] (ns): grid, values."""
        d = 1e9/self.sr
        k0 = int(np.floor((start-self.t0)/d + .5))
        k1 = int(np.floor((end-self.t0)/d + .5))
        x = np.full(k1-k0+1, np.nan)
        for k, s in self.segs:
            a, b = max(k, k0), min(k+len(s), k1+1)
            if b > a:
                x[a-k0:b-k0] = s[a-k:b-k]
        return self.t0 + int(round(k0*d)), x


def runs(x):
    """Start and stop of the runs of defined samples."""
    ok = np.concatenate(([False], ~np.isnan(x), [False]))
    e = np.flatnonzero(ok[1:] != ok[:-1])
    return list(zip(e[::2], e[1::2]))


def detrend(y):
    if len(y) < 2:
        return y - y.mean()
    n = np.arange(len(y), dtype=float)
    n -= n.mean()
    return y - y.mean() - n*((n*(y-y.mean())).sum()/(n*n).sum())


def bandpass(y, sr, lo, hi):
    sos = scipy.signal.iirfilter(4, [lo/(.5*sr), hi/(.5*sr)],
                                 btype='band', ftype='butter', output='sos')
    return scipy.signal.sosfilt(sos, y)


def deconvolve(y, sr, response):
    """Ground velocity of what a sensor recorded."""
    import obspy
    tr = obspy.Trace(y.copy())
    tr.stats.sampling_rate = sr
    tr.stats.response = response
    return tr.remove_response(taper=False).data


def condition(x, start, sr, corr_len, flip=False, pre=(), response=None):
    """Detrend, taper and filter every gap-free piece; NaN for gaps.

    pre: [('bandpass', lo, hi) | ('mask', [(s_ns, e_ns)], reverse)]
    """
    out = np.full(len(x), np.nan)
    tn = int(round(TAPER*sr))
    ramp = np.sin(np.linspace(0, np.pi, 2*tn))
    t = start + np.arange(len(x))*1e9/sr
    for a, b in runs(x):
        y = detrend(x[a:b])
        if (b-a)/sr <= 4*TAPER or (b-a)/sr <= corr_len/20:
            continue
        y = y.copy()
        y[:tn] *= ramp[:tn]
        y[-tn:] *= ramp[-tn:]
        if response is not None:
            y = deconvolve(y, sr, response)
        if flip:
            y = -y
        pieces = [(a, y)]
        for p in pre:
            if p[0] == 'bandpass':
                pieces = [(k, bandpass(z, sr, *p[1:])) for k, z in pieces]
            else:
                new = []
                for k, z in pieces:
                    m = np.zeros(len(z), bool)
                    tz = t[k:k+len(z)]
                    for s, e in p[1]:
                        m |= (tz > s-1e9/sr) & (tz < e+1e9/sr)
                    if p[2]:
                        m = ~m
                    w = np.where(m, np.nan, z)
                    new += [(k+i, w[i:j]) for i, j in runs(w)]
                pieces = new
        for k, z in pieces:
            out[k:k+len(z)] = z
    return out


def windows(rec, start, read_len, corr_len, corr_inc, subdiv=False, pre=()):
    """{window number: (start in ns, samples with NaN, one extra sample)}"""
    sr = rec.sr
    t0, x = rec.cut(start, start+int(round(read_len*1e9)))
    n, inc = int(round(corr_len*sr)), int(round(corr_inc*sr))
    if not subdiv:
        x = condition(x, t0, sr, corr_len, rec.flip, pre,
                      rec.response)
    out = {}
    for k in range(int(np.ceil(read_len/corr_inc - 1e-9))):
        w = np.full(n+1, np.nan)
        part = x[k*inc:k*inc+n]
        w[:len(part)] = part
        tw = t0 + int(round(k*inc*1e9/sr))
        if subdiv:
            w = condition(w, tw, sr, corr_len, rec.flip, pre,
                          rec.response)
        if not np.isnan(w).all():
            out[k] = (tw, w)
    return out


def td_step(y, step):
    if step == 'demean':
        return y - y.mean()
    if step == 'detrend':
        return detrend(y)
    if step == 'sign':
        return np.sign(y)
    if step == 'std':
        s = y.std()
        return y/s if s else y*0.
    if step[0] == 'clip':
        lim = step[1]*y.std()
        return np.clip(y, -lim, lim)
    raise ValueError(step)


def correlate(a, b, sr, length, td=(), whiten=False, normalize=True,
              frac=0.):
    """sum_n a[n] b[n+l] for |l| <= ceil(length*sr); frac: sub-sample part
    of (start of a - start of b) in seconds."""
    x = []
    for w in (a, b):
        w = np.nan_to_num(w)
        for s in td:
            w = td_step(w, s)
        x.append(w)
    m = int(np.ceil(round(length*sr, 9)))
    nfft = scipy.fftpack.next_fast_len(len(a) + m)
    A, B = (np.fft.rfft(w, nfft) for w in x)
    f = np.fft.rfftfreq(nfft, 1/sr)
    if whiten:
        A, B = (np.divide(s, np.abs(s), out=np.zeros_like(s),
                          where=np.abs(s) > 0) for s in (A, B))
        A[0] = B[0] = 0.
    c = np.fft.irfft(A.conj()*B*np.exp(2j*np.pi*f*frac), n=nfft)
    c = np.concatenate((c[-m:] if m else c[:0], c[:m+1]))
    if normalize:
        e = []
        for s in (A, B):
            p = 2*np.sum(np.abs(s)**2) - np.abs(s[0])**2
            if nfft % 2 == 0:
                p -= np.abs(s[-1])**2
            e.append(p/nfft)
        c = c/np.sqrt(e[0]*e[1])
    return c


def pairs(ids, method, wanted=None):
    """Ordered index pairs of the sorted ids that the method defines."""
    out = []
    n = len(ids)
    for i in range(n):
        for j in range(n):
            a, b = ids[i], ids[j]
            if method == 'allCombinations':
                ok = True
            elif j < i:
                ok = False
            elif method == 'betweenStations':
                ok = a[:2] != b[:2] and (
                    wanted is None or frozenset((a[:2], b[:2])) in wanted)
            elif method == 'betweenComponents':
                ok = a[:2] == b[:2] and a[2][-1] != b[2][-1]
            elif method == 'autoComponents':
                ok = i == j
            else:
                ok = True
            if ok:
                out.append((i, j))
    return out


def expected(recs, start, end, read_len, read_inc, corr_len, corr_inc,
             length, method, td=(), whiten=False, normalize=True, pre=(),
             subdiv=False, wanted=None, center=False):
    """{(net, sta, cha, corr_start, corr_end): (data, lag0)} and batches.

    Earlier batches win if the same window is computed twice.
    """
    out, batches = {}, []
    recs = sorted(recs, key=lambda r: r.id)
    nb = int(np.ceil((end-start)/(read_inc*1e9) - 1e-9))
    for ib in range(nb):
        t = start + int(round(ib*read_inc*1e9))
        batch = {}
        wins = [windows(r, t, read_len, corr_len, corr_inc, subdiv, pre)
                for r in recs]
        for k in sorted({k for w in wins for k in w}):
            act = [(r, w[k]) for r, w in zip(recs, wins) if k in w]
            ids = [r.id for r, _ in act]
            for i, j in pairs(ids, method, wanted):
                (ra, (ta, xa)), (rb, (tb, xb)) = act[i], act[j]
                c = correlate(xa, xb, ra.sr, length, td, whiten, normalize,
                              (ta-tb)/1e9)
                if ids[j] < ids[i]:
                    ra, rb, c = rb, ra, c[::-1]
                dur = int(round((len(xa)-1)*1e9/ra.sr))
                key = (ra.net+'-'+rb.net, ra.sta+'-'+rb.sta,
                       ra.cha+'-'+rb.cha, max(ta, tb), min(ta, tb)+dur)
                if key not in batch:
                    batch[key] = c
        batches.append((t, batch))
        for k, c in batch.items():
            out.setdefault(k, c)
    return out, batches


def stack(items):
    """Average of {key: data} per pair, weighted by length, max one.

    Undetermined (NaN) if nothing is left but rounding errors.
    """
    groups = {}
    for k, c in items.items():
        groups.setdefault(k[:3], []).append((k, c))
    out = {}
    scale = max([np.max(np.abs(c)) for c in items.values()
                 if not np.isnan(c).any()], default=0)
    for g, v in groups.items():
        v.sort(key=lambda q: q[0][3])
        w = np.array([k[4]-k[3] for k, _ in v], float)
        a = np.sum([c*q for (_, c), q in zip(v, w)], axis=0)/w.sum()
        if np.max(np.abs(a)) < 1e-5*scale:
            a = a*np.nan    # nothing but rounding errors
        out[g + (v[0][0][3], v[-1][0][4])] = a/np.max(np.abs(a))
    return out
