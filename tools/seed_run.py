"""Applies each planted change to a scratch copy and runs the check of its property there.
Usage: seed_run.py [substr] (not read by any check)."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pat = sys.argv[1] if len(sys.argv) > 1 else ''


def one(name):
    d = f'{V}/seeded/{name}'
    m = json.load(open(d + '/meta.json'))
    w = f'/tmp/seedrun/{name}'
    subprocess.run(f'rm -r -f {w}; mkdir -p /tmp/seedrun; cp -a /repo {w}; git -C {w} apply {d}/patch.diff', shell=True, check=True)
    r = subprocess.run([f'{V}/bin/check', m['property'], '--tier', 'quick', '--repo', w], capture_output=True, text=True, cwd=V)
    subprocess.run(f'rm -r -f {w}', shell=True)
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'KNOWN' in l]
    return name, m['property'], r.returncode, lines[:2], r.stdout[-400:] + r.stderr[-600:]


names = [n for n in sorted(os.listdir(V + '/seeded')) if pat in n]
with ThreadPoolExecutor(3) as ex:
    for name, p, rc, lines, tail in ex.map(one, names):
        weak = any('no-failing-input-found' in l for l in lines)
        print(f'{"CAUGHT" if rc == 1 and lines else "MISSED"}{" (no input)" if weak else ""} {name} rc={rc}', flush=True)
        if not (rc == 1 and lines) or weak:
            print('   ', lines, tail, flush=True)
