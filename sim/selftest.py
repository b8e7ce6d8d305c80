#!/usr/bin/env python3
"""selftest.py [n] : runs the first n scenarios of every check twice, with different numbers of workers, and
compares every recorded history hash.  Exit 0: one seed is one execution."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
n = sys.argv[1] if len(sys.argv) > 1 else '240'
bad = 0
with tempfile.TemporaryDirectory(dir='/dev/shm' if os.path.isdir('/dev/shm') else None) as d:
    for c in ['C%02d' % i for i in range(1, 11)]:
        got = []
        for w in ('8', '3'):
            out = os.path.join(d, c + w)
            e = dict(os.environ, TFSIM_WORKERS=w, TFSIM_N=n if c != 'C01' else '60', TFSIM_EVIDENCE=os.path.join(d, 'ev'))
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c, out], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 2:
                print(r.stdout.decode())
            got.append(sorted(open(out).read().splitlines()))
        diff = sum(1 for a, b in zip(*got) if a != b) + abs(len(got[0]) - len(got[1]))
        print('%s: %d histories, %d differ' % (c, len(got[0]), diff))
        bad += diff
sys.exit(1 if bad else 0)
