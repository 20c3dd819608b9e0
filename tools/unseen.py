"""
unseen.py DIR: lines of the code under test that no check executed; DIR was
given to the checks as VERIF_LINES. (Subprocesses are not watched.)
"""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import lines   # noqa: E402

root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'seismic')
seen = set()
for f in glob.glob(os.path.join(sys.argv[1], 'C*')):
    with open(f) as fh:
        seen.update(tuple(x) for x in json.load(fh))
tot = [0, 0]
for d, _, files in sorted(os.walk(root)):
    for f in sorted(files):
        if not f.endswith('.py'):
            continue
        p = os.path.join(d, f)
        ex = lines.executable(p)
        miss = sorted(ex-{n for g, n in seen if g == os.path.relpath(p, root)})
        tot[0] += len(ex)-len(miss)
        tot[1] += len(ex)
        if ex:
            print(os.path.relpath(p, root), f'{len(ex)-len(miss)} of {len(ex)}')
        src = open(p).read().splitlines()
        for n in miss:
            print('   ', n, src[n-1].strip()[:90])
print('total', tot)
