"""Builds /verif/seeded/<id>/ from the changes below, keeping only those confirmed in a
scratch copy of /repo: applies, builds, passes the 409 stable tests, demo passes without and
fails with it. Usage: make_seeds.py [substr] (not read by any check)."""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
HELPER = open(os.path.join(HERE, 'seed_helper.mjs')).read()
SEEDS = {}


def seed(name, prop, needs, breaks, edits, demo):
    SEEDS[name] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


exec(open(os.path.join(HERE, 'seed_list.py')).read())


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def write(name, s, work):
    d = os.path.join(OUT, name)
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = os.path.join(work, 'src', f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit(f'{name}: {f}: pattern found {t.count(old)} times')
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', work).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'h.mjs'), 'w').write(HELPER)
    open(os.path.join(d, 'demo.mjs'), 'w').write("import { Resend, net, ok, run, json, raw, load, render, file } from './h.mjs';\n\nawait run(async () => {\n"
                                                 + s['demo'].strip('\n') + '\n});\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec timeout 120 node "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return d


def added_lines(work):
    """Lines of the current tree that the fix commits added."""
    out = {}
    cur = None
    for l in sh('git diff -U0 5a26e2c HEAD', '/repo').stdout.splitlines():
        if l.startswith('+++ '):
            cur = l[6:]
        m = re.match(r'@@ -\S+ \+(\d+)(?:,(\d+))? @@', l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            out.setdefault(cur, set()).update(range(a, a + n))
    return out


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    work = '/tmp/seedwork'
    fixed = added_lines(work)
    for name, s in SEEDS.items():
        if pat not in name:
            continue
        shutil.rmtree(work, ignore_errors=True)
        sh(f'cp -a /repo {work}', '/')
        d = write(name, s, work)
        cur, orig = None, False
        for l in sh('git diff -U0', work).stdout.splitlines():
            if l.startswith('--- '):
                cur = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, n = int(m[1]), int(m[2] or 1)
                if any(x not in fixed.get(cur, ()) for x in range(a, a + n)):
                    orig = True
        log = []
        if not orig:
            log.append('changes only lines of the fix commits')
        demo = f'bash {d}/demo.sh'
        r = sh(demo, '/repo')
        if r.returncode != 0:
            log.append('demo fails on the clean tree: ' + (r.stdout + r.stderr)[-600:])
        tc = sh('./node_modules/.bin/tsc --noEmit -p /tmp/seed_tsconfig.json', work)
        b = sh('./node_modules/.bin/tsdown src/index.ts --format esm,cjs --dts', work)
        if tc.returncode or b.returncode:
            log.append('build: ' + (tc.stdout + b.stdout + b.stderr)[-800:])
        else:
            t = sh('CI=1 TZ=UTC ./node_modules/.bin/vitest run --reporter=json --outputFile=/tmp/seedtests.json', work)
            try:
                j = json.load(open('/tmp/seedtests.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                failed = [x['fullName'] for f in j['testResults'] for x in f['assertionResults'] if x['status'] == 'failed']
                log += [f'test fails: {x}' for x in failed[:5]]
            except Exception as e:
                log.append('tests: ' + str(e) + t.stdout[-300:])
            r = sh(demo, work)
            if r.returncode == 0:
                log.append('demo passes with the change')
            last = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()][-1:]
        print(('ok   ' if not log else 'BAD  ') + name, '' if log else last, flush=True)
        for l in log:
            print('     ', l, flush=True)
    shutil.rmtree(work, ignore_errors=True)


main()
