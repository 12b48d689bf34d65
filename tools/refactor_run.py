"""Runs verifier and concrete assertions against every edit of refactors.py in
scratch copies; anything but silence is printed.
  python3-vt tools/refactor_run.py [name-substring] [--cases N]"""
import sys, os, json, subprocess, shutil, multiprocessing as mp
HERE = '/verif'
sys.path[:0] = [HERE + '/engine', HERE + '/tools']
from refactors import R
from refactors2 import R2
from refactors3 import R3
R = {**R, **R2, **R3}


def work(name):
    w = f'/tmp/refac/{name}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree('/repo/src', w + '/src')
    for f in ('package.json', 'tsconfig.json'):
        shutil.copy('/repo/' + f, w)
    os.symlink('/repo/node_modules', w + '/node_modules')
    res = {'name': name}
    for f, o, n in R[name]:
        t = open(f'{w}/{f}').read()
        if o not in t:
            res['err'] = f'{f}: not found: {o[:60]!r}'
            return res
        open(f'{w}/{f}', 'w').write(t.replace(o, n))
    import verify as V
    try:
        ast = w + '/ast.json'
        p = subprocess.run(['node', HERE + '/engine/extract.mjs', w, HERE + '/contracts', ast], capture_output=True, text=True)
        if p.returncode:
            res['err'] = p.stderr[-300:]
            return res
        a = json.load(open(ast))
        bad = {f: v['parseErrors'] for f, v in a['files'].items() if v.get('parseErrors')}
        if bad:
            res['err'] = str(bad)[:300]
            return res
        V.setup(a, w, HERE + '/contracts')
        active = {c['id']: c for c in a['internal']}
        todo = list(active)
        while todo:
            dropped = set()
            rs = {}
            for c in todo:
                rs[c] = V.verify_internal(active[c], active)
                if not V.holds(rs[c]):
                    dropped.add(c)
            for d in dropped:
                active.pop(d)
            todo = [c for c in active if c in rs and dropped & set(rs[c].get('contracts', []))]
        res['inactive'] = [c['id'] for c in a['internal'] if c['id'] not in active]
        bad, uns = {}, {}
        for o in a['ops']:
            r = V.verify_op(o, active)
            if 'unsupported' in r or 'error' in r:
                uns.setdefault((r.get('unsupported') or r.get('error')) + (' ' + r.get('trace', '')[-300:] if r.get('unsupported') == 'internal error' else ''), []).append(o['id'])
            b = [(x['label'], x['verdict'], x.get('uf')) for x in r['obligations'] if x['verdict'] != 'discharged']
            if b:
                bad[o['id']] = b
        res['bad'], res['uns'] = bad, uns
        cases = sys.argv[sys.argv.index('--cases') + 1] if '--cases' in sys.argv else '40'
        out = w + '/out.json'
        p = subprocess.run(['node', HERE + '/replay/harness.mjs', '--repo', w, '--contracts', HERE + '/contracts', '--scratch', w + '/h', '--ops', ','.join(o['id'] for o in a['ops']), '--cases', cases, '--seed', '5', '--out', out], capture_output=True, text=True, timeout=600)
        n = json.load(open(out)) if os.path.exists(out) else {'error': (p.stdout + p.stderr)[-400:]}
        if 'error' in n:
            res['nerr'] = n['error'][-400:]
        else:
            res['native'] = sorted({(x['op'], x['label']) for x in n['failures']})
    except Exception as e:
        import traceback
        res['err'] = traceback.format_exc()[-600:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


if __name__ == '__main__':
    sub = [a for a in sys.argv[1:] if not a.startswith('--') and not a.isdigit()]
    names = [n for n in R if not sub or any(s in n for s in sub)]
    with mp.get_context('fork').Pool(8, maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(work, names):
            st = 'ERR ' if 'err' in r else ('BAD ' if r['bad'] else 'UNS ' if r['uns'] else 'ok  ')
            nat = 'NAT' if r.get('native') or r.get('nerr') else ''
            print(st, nat, r['name'], 'inlined: ' + ','.join(r['inactive']) if r.get('inactive') else '', flush=True)
            for k in ('err', 'nerr'):
                if k in r: print('    ', k, r[k])
            for k, v in list(r.get('bad', {}).items())[:4]: print('     bad', k, v[:4])
            for k, v in list(r.get('uns', {}).items())[:4]: print('     uns', k, len(v), v[:5])
            if r.get('native'): print('     native', r['native'][:6])
