#!/usr/bin/env python3
"""Nothing to build: checks that a simulated process can be started on the current tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pool import Pool  # noqa: E402

p = Pool(1)
r = p.map([{'lives': [{'kind': 'api', 'ops': [{'do': 'req', 'r': {'k': 'w', 'n': 2}, 'path': 'out'}]}]}])
print(r[0]['lives'][0]['results'][0]['out'])
p.close()
