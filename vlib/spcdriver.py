"""Compute a spectrogram by one of several processes."""
import json
import sys
import warnings

src, optf, out = sys.argv[1:4]
sys.path.insert(0, src)
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
from mpi4py import MPI  # noqa: E402
from obspy import UTCDateTime  # noqa: E402
from seismic.trace_data.waveform import (  # noqa: E402
    Store_Client, __file__ as code)
import os  # noqa: E402
assert os.path.realpath(code).startswith(os.path.realpath(src))
print('started', flush=True)
with open(optf) as fh:
    o = json.load(fh)
sc = Store_Client('None', o['path'], read_only=True)
f, t, S = sc.compute_spectrogram(
    o['net'], o['sta'], o['cha'], UTCDateTime(o['start']),
    UTCDateTime(o['end']), o['win'], freq_max=o['fmax'],
    read_increment=o['inc'], remove_response=False)
if MPI.COMM_WORLD.Get_rank() == 0:
    np.savez(out, f=f, t=[str(x) for x in t], S=S)
else:
    assert f is None and t is None and S is None
MPI.COMM_WORLD.Barrier()
print('finished', flush=True)
