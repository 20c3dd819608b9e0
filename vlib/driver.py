"""Run the correlation workflow in a process of its own (also below mpirun).

usage: driver.py SRC ARCHIVE OPTIONS.json [KILL]
KILL: "write:N" ends the process before the N-th database file is opened for
      writing, "read:N" at the N-th reading of waveforms.
"""
import json
import logging
import os
import sys
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    src, path, optf = sys.argv[1:4]
    kill = sys.argv[4] if len(sys.argv) > 4 else ''
    sys.path.insert(0, src)
    sys.path.insert(0, HERE)
    import numpy as np
    from obspy import UTCDateTime
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    from vlib import archive
    import seismic.correlate.correlate as co
    assert co.__file__.startswith(src)
    with open(optf) as fh:
        opts = json.load(fh)
    for p in opts['co']['preProcessing']:
        for k in ('starts', 'ends'):
            if k in p['args']:
                p['args'][k] = [UTCDateTime(ns=t) for t in p['args'][k]]
    co.tqdm = lambda x, *a, **k: x
    if kill:
        what, n = kill.split(':')
        hook(what, int(n))
    c = archive.correlator(path, opts)
    if c.rank == 0:
        print('started', flush=True)
    c.pxcorr()
    if c.rank == 0:
        print('finished', flush=True)


def hook(what, n):
    """End the process when something happens for the n-th time."""
    count = [0]

    def tick():
        if count[0] == n:
            os._exit(9)
        count[0] += 1
    if what == 'write':
        import h5py
        old = h5py.File.__init__

        def init(self, name, mode='r', *a, **k):
            if mode != 'r':
                tick()
            return old(self, name, mode, *a, **k)
        h5py.File.__init__ = init
    else:
        from obspy.clients.filesystem.sds import Client
        old2 = Client.get_waveforms

        def get(self, *a, **k):
            tick()
            return old2(self, *a, **k)
        Client.get_waveforms = get


if __name__ == '__main__':
    main()
