"""Run parts of the monitoring workflow, by one of several processes."""
import json
import os
import sys
import warnings

src, optf, steps = sys.argv[1:4]
sys.path.insert(0, src)
warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
from seismic.monitor.monitor import Monitor, __file__ as code  # noqa: E402
assert os.path.realpath(code).startswith(os.path.realpath(src))
print('started', flush=True)
with open(optf) as fh:
    m = Monitor(json.load(fh))
for s in steps.split(','):
    getattr(m, s)()
m.comm.Barrier()
print('finished', flush=True)
