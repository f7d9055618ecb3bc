#!/usr/bin/env python3
"""Executes many seeds twice, in different processes, and reports executions that differ: detsweep.py PROFILE FIRST COUNT"""
import subprocess, sys, concurrent.futures as cf, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prof, first, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
def go(a):
    r = subprocess.run([V + '/build/vsim', 'batch', prof, str(a[0]), str(a[1]), '1', '0', 'hashes'], capture_output=True, text=True).stdout
    return [l for l in r.splitlines() if l[:2] in ('H ', 'V ', 'E ')]
step = 50
tasks = [(s, min(step, first + count - s)) for s in range(first, first + count, step)]
with cf.ThreadPoolExecutor(8) as ex:
    a = sum(ex.map(go, tasks), [])
    b = sum(ex.map(go, [(s + 0, n) for s, n in tasks]), [])
bad = [(x, y) for x, y in zip(a, b) if x != y]
print(prof, len(a), 'lines,', len(bad), 'differences', 'LENGTH' if len(a) != len(b) else '')
for x, y in bad[:3]:
    print(' ', x[:300]); print(' ', y[:300])
