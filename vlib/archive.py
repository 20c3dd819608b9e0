"""Synthetic waveform archives and runs of the real correlation workflow."""
import glob
import logging
import os

import h5py
import numpy as np
from obspy import Stream, UTCDateTime

SDS = '{year}/{net}/{sta}/{cha}.D/{net}.{sta}.{loc}.{cha}.D.{year}.{doy:03d}'


def write_sds(path, traces):
    """Write traces into <path>/mseed, one file per day (SDS).

    Samples within half an interval of midnight belong to the new day and
    records are large: obspy selects whole records when reading, a sample
    next to the requested start could be missed otherwise.
    """
    files = {}
    for tr in traces:
        t = tr.stats.starttime
        h = .5*tr.stats.delta
        while t <= tr.stats.endtime:
            d = t + h
            nxt = UTCDateTime(d.year, d.month, d.day) + 86400 - h
            part = tr.slice(t, nxt - 1e-6, nearest_sample=False)
            if part is not None and part.stats.npts:
                s = tr.stats
                f = SDS.format(year=d.year, net=s.network, sta=s.station,
                               cha=s.channel, loc=s.location, doy=d.julday)
                files.setdefault(f, Stream()).append(part)
            t = nxt + 1e-6
    for f, st in files.items():
        f = os.path.join(path, 'mseed', f)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        for tr in st:
            tr.stats.pop('mseed', None)
        st.write(f, format='MSEED', reclen=2**15 if any(
            tr.data.dtype.kind == 'i' for tr in st) else 2**17)


def write_inventory(path, inv):
    d = os.path.join(path, 'inventory')
    os.makedirs(d, exist_ok=True)
    inv.write(os.path.join(d, 'all.xml'), format='STATIONXML')


class NoRemote:
    """Stand-in for the FDSN client: must not be used."""
    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, a, k))
            raise RuntimeError('remote client used')
        return f


def client(path, read_only=False, remote=None):
    from seismic.trace_data.waveform import Store_Client
    return Store_Client(remote or NoRemote(), path, read_only=read_only)


def options(proj, start, end, sr=10., read_len=3600, read_inc=3600,
            corr_len=600, corr_inc=600, method='betweenStations',
            net='*', sta='*', comp='*', length=20, td=(), fd=(), pre=(),
            recombine=False, delete=False, separate=True, subdiv=False,
            center=False, normalize=True, xcombis=None, rem_resp=False,
            **co):
    o = {
        'proj_dir': proj, 'save_comps_separately': separate,
        'log_subdir': 'log', 'log_level': 'CRITICAL',
        'fig_subdir': 'figures',
        'net': {'network': net, 'station': sta, 'component': comp},
        'co': {
            'subdir': 'corr', 'read_start': str(start),
            'read_end': str(end), 'read_len': read_len,
            'read_inc': read_inc, 'sampling_rate': sr,
            'remove_response': rem_resp, 'combination_method': method,
            'preProcessing': list(pre), 'preprocess_subdiv': subdiv,
            'subdivision': {
                'corr_inc': corr_inc, 'corr_len': corr_len,
                'recombine_subdivision': recombine,
                'delete_subdivision': delete},
            'corr_args': {
                'TDpreProcessing': list(td), 'FDpreProcessing': list(fd),
                'lengthToSave': length, 'center_correlation': center,
                'normalize_correlation': normalize, 'combinations': []}}}
    if xcombis is not None:
        o['co']['xcombinations'] = xcombis
    o['co'].update(co)
    return o


def close_logs():
    for name in list(logging.root.manager.loggerDict):
        if name.startswith('seismic') or name == 'py.warnings':
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()


def correlator(path, opts, remote=None, read_only=True):
    from seismic.correlate.correlate import Correlator
    try:
        return Correlator(client(path, read_only, remote), opts)
    finally:
        close_logs()


def dump_db(corr_dir):
    """{(file-independent key): (data, attrs)} read with plain h5py."""
    out = {}
    files = {}
    for f in sorted(glob.glob(os.path.join(corr_dir, '*.h5'))):
        with h5py.File(f, 'r') as h:
            def visit(name, obj):
                if isinstance(obj, h5py.Dataset) and \
                        'corr_start' in obj.attrs:
                    p = name.split('/')
                    at = {k: (v.tolist() if isinstance(
                        v, (np.ndarray, np.generic)) else v)
                        for k, v in obj.attrs.items()}
                    key = (p[0], at['network'], at['station'],
                           at['channel'],
                           UTCDateTime(at['corr_start']).ns,
                           UTCDateTime(at['corr_end']).ns)
                    if key in out:
                        files.setdefault('dup', []).append(key)
                    out[key] = (np.array(obj), at)
            h.visititems(visit)
    return out
