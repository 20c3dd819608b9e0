#!/usr/bin/env python3
"""Nothing to build: verify that the tools the checks need are present."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
r = subprocess.run(['/opt/venv/bin/python', '-c',
                    'import numpy, scipy, obspy, h5py, mpi4py'])
sys.exit(r.returncode)
