"""Snapshots of nested mutable objects, and where two of them differ."""
import numpy as np
from obspy import UTCDateTime, Stream, Trace
from obspy.core import AttribDict

SCALARS = (str, bytes, int, float, complex, bool, type(None), np.generic)


def freeze(x, _depth=0):
    """Deep, independent description of x."""
    if _depth > 25:
        return '...'

    def sub(y):
        return freeze(y, _depth+1)

    if isinstance(x, np.ma.MaskedArray):
        return ('masked', x.dtype.str, np.array(x.data), np.array(
            np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('array', 'O', [sub(y) for y in x.ravel()], x.shape)
        return ('array', x.dtype.str, np.array(x))
    if isinstance(x, UTCDateTime):
        return ('utc', x.ns)
    if isinstance(x, Trace):
        return ('trace', type(x).__name__, sub(x.stats),
                sub(x.__dict__.get('data')))
    if isinstance(x, Stream):
        return ('stream', type(x).__name__, [sub(t) for t in x.traces])
    if isinstance(x, AttribDict):
        return ('dict', type(x).__name__,
                {k: sub(v) for k, v in x.__dict__.items()})
    if isinstance(x, dict):
        extra = {k: sub(v) for k, v in getattr(x, '__dict__', {}).items()}
        return ('dict', type(x).__name__,
                {repr(k): sub(v) for k, v in x.items()}, extra)
    if isinstance(x, (list, tuple)):
        return ('seq', type(x).__name__, [sub(y) for y in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    if isinstance(x, SCALARS):
        return ('val', type(x).__name__, repr(x))
    if callable(x):
        return ('callable', getattr(x, '__qualname__', '?'))
    if hasattr(x, '__dict__'):
        return ('object', type(x).__name__,
                {k: sub(v) for k, v in vars(x).items()})
    return ('other', type(x).__name__, repr(x))


def diff(a, b, rtol=0., path=''):
    """First place where two snapshots differ, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape:
            return path + ': shape'
        if a.dtype.kind in 'fc' and rtol:
            ok = np.allclose(a, b, rtol=rtol, atol=rtol*(
                np.nanmax(np.abs(a)) if np.isfinite(a).any() else 0),
                equal_nan=True)
        else:
            ok = a.tobytes() == b.tobytes() or (
                a.dtype.kind in 'fc' and np.array_equal(a, b, True))
        if not ok:
            with np.errstate(all='ignore'):
                n = np.sum(~((a == b) | ((a != a) & (b != b))))
            return f'{path}: {n} of {a.size} values'
        return None
    if type(a) is not type(b):
        return f'{path}: {type(a).__name__}/{type(b).__name__}'
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f'{path}: keys {sorted(a.keys() ^ b.keys())}'
        for k in a:
            d = diff(a[k], b[k], rtol, f'{path}[{k}]')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: length {len(a)} / {len(b)}'
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff(p, q, rtol, f'{path}.{i}' if isinstance(a, list)
                     else path)
            if d:
                return d
        return None
    if a != b:
        return f'{path}: {a!r} / {b!r}'[:200]
    return None


def arrays(x, _seen=None):
    """All arrays in x."""
    seen = set() if _seen is None else _seen
    if id(x) in seen or isinstance(x, SCALARS):
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            yield x
        return
    if isinstance(x, dict):
        for v in x.values():
            yield from arrays(v, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v, seen)
    if hasattr(x, '__dict__') and not callable(x):
        for v in vars(x).values():
            yield from arrays(v, seen)


def shared(a, b):
    """Whether any array of a overlaps one of b."""
    bb = list(arrays(b))
    return any(np.may_share_memory(p, q) and np.shares_memory(p, q)
               for p in arrays(a) for q in bb if p.size and q.size)
