"""Mutation campaign for the verifier itself (not a check): applies each mutant
to a scratch copy of the sources, verifies, executes, and records both verdicts.
  python3-vt tools/mutation_run.py MUTANTS.json OUT.jsonl [start:stop[:step]]"""
import json, os, subprocess, sys, shutil, multiprocessing as mp
HERE = '/verif'
sys.path.insert(0, HERE + '/engine')
CORE = ['post', 'get', 'put', 'patch', 'delete', 'emails.send', 'batch.send', 'contacts.imports.create', 'new', 'contacts.get', 'emails.receiving.forward', 'templates.create.publish']
MAP = {'automation-runs': 'automations.runs', 'api-keys': 'apiKeys', 'contact-properties': 'contactProperties', 'oauth-grants': 'oauthGrants'}
COMMON = {'parse-automation': ['automations.create', 'automations.update'], 'parse-email': ['emails.send', 'batch.send'], 'parse-template': ['templates.create', 'templates.update'],
          'parse-contact-prop': ['contactProperties.'], 'parse-domain': ['domains.create', 'domains.claims.create'], 'pagination': ['emails.list', 'contacts.list', 'logs.list', 'automations.list', 'broadcasts.recipients', 'suppressions.list', 'templates.list'],
          'encode-contact': ['contacts.']}


def ops_of(f, allops):
    p = f.split('/')[1:]
    if p[0] == 'common':
        for k, v in COMMON.items():
            if k in p[-1]:
                return [o for o in allops if any(o == x or (x.endswith('.') and o.startswith(x)) for x in v)]
    if p[0] in ('resend.ts', 'render.ts', 'index.ts', 'common', 'error.ts'):
        return CORE
    pre = MAP.get(p[0], p[0])
    r = [o for o in allops if o.startswith(pre + '.')]
    if p[0] == 'segments':
        r += ['audiences.list']
    if len(p) > 2:
        sub = '.'.join(p[1:-1])
        q = [o for o in r if o.startswith(f'{pre}.{sub}.')]
        r = q or r
    return r


def work(job):
    idx, m = job
    w = f'/tmp/mut/w{mp.current_process()._identity[0]}'
    if not os.path.exists(w):
        os.makedirs(w)
        shutil.copytree('/repo/src', w + '/src')
        shutil.copy('/repo/package.json', w)
        shutil.copy('/repo/tsconfig.json', w)
        os.symlink('/repo/node_modules', w + '/node_modules')
    import verify as V
    f = f'{w}/{m["file"]}'
    orig = open('/repo/' + m['file'], newline='').read()
    u = orig.encode('utf-16-le')
    text = (u[:m['start'] * 2] + m['text'].encode('utf-16-le') + u[m['end'] * 2:]).decode('utf-16-le')
    open(f, 'w', newline='').write(text)
    res = {'i': idx, **m}
    line = orig[:m['start']].count('\n') + 1
    res['line'] = line
    try:
        ast = w + '/ast.json'
        r = subprocess.run(['node', HERE + '/engine/extract.mjs', w, HERE + '/contracts', ast], capture_output=True, text=True)
        if r.returncode:
            res['extract'] = r.stderr[-300:]
            return res
        a = json.load(open(ast))
        if a['files'].get(f, {}).get('parseErrors'):
            res['parse'] = True
            return res
        allops = [o['id'] for o in a['ops']]
        ids = m.get('ops') or ops_of(m['file'], allops)
        V.setup(a, w, HERE + '/contracts')
        active = {c['id']: c for c in a['internal']}
        if 'ops' in m:
            active = {}
        todo = list(active)
        rs = {}
        while todo:
            dropped = set()
            for c in todo:
                rs[c] = V.verify_internal(active[c], active)
                if not V.holds(rs[c]):
                    dropped.add(c)
            for d in dropped:
                active.pop(d)
            todo = [c for c in active if dropped & set(rs[c].get('contracts', []))]
        res['inactive'] = [c['id'] for c in a['internal'] if c['id'] not in active]
        bad, uns, uf = {}, {}, {}
        for o in a['ops']:
            if o['id'] in ids:
                r = V.verify_op(o, active)
                if 'unsupported' in r or 'error' in r:
                    uns[o['id']] = (r.get('unsupported') or r.get('error')) + (' ' + r.get('trace', '')[-200:] if r.get('unsupported') == 'internal error' else '')
                b = [x['label'] for x in r['obligations'] if x['verdict'] != 'discharged']
                if b:
                    bad[o['id']] = b
                    u = sorted({y for x in r['obligations'] for y in x.get('uf', [])})
                    if u:
                        uf[o['id']] = u
        res['bad'], res['uns'], res['uf'] = bad, uns, uf
        d = w + '/h'
        os.makedirs(d, exist_ok=True)
        out = d + '/out.json'
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.run(['node', HERE + '/replay/harness.mjs', '--repo', w, '--contracts', HERE + '/contracts', '--scratch', d, '--ops', ','.join(ids), '--cases', '150', '--seed', '5', '--out', out], capture_output=True, text=True, timeout=300)
        if os.path.exists(out):
            n = json.load(open(out))
            if 'error' in n:
                res['nerr'] = n['error'][-400:]
            else:
                nb = {}
                for x in n['failures']:
                    nb.setdefault(x['op'], [])
                    if x['label'] not in nb[x['op']]:
                        nb[x['op']].append(x['label'])
                res['native'] = nb
        else:
            res['nerr'] = (p.stdout + p.stderr)[-400:]
    except Exception as e:
        res['exc'] = repr(e)[:500]
    finally:
        open(f, 'w', newline='').write(orig)
    return res


if __name__ == '__main__':
    ms = list(enumerate(json.load(open(sys.argv[1]))))
    if len(sys.argv) > 3:
        ms = ms[slice(*[int(x) if x else None for x in sys.argv[3].split(':')])]
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.loads(l)['i'] for l in open(sys.argv[2])}
    shutil.rmtree('/tmp/mut', ignore_errors=True)
    with mp.get_context('fork').Pool(8, maxtasksperchild=None) as pool, open(sys.argv[2], 'a') as out:
        for r in pool.imap_unordered(work, [x for x in ms if x[0] not in done]):
            out.write(json.dumps(r) + '\n')
            out.flush()
