"""The verifier: for every operation and every internal function under contract,
generates the obligations from the current source and discharges them."""
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
from values import *
from interp import Interp, World, Frame, Env, Cell
from program import Program, Shapes
from compare import Cmp

G = {}


# processor seconds for one operation or function, wall clock seconds for all: what
# is not proved by then counts as undecided (the unchanged tree needs a tenth of it)
BUDGET = (90, 400)


def setup(ast, repo, contracts):
    G['ast'], G['repo'], G['contracts'] = ast, repo, contracts
    G['until'] = time.time() + BUDGET[1]


class Run:
    """Solver context, program and client for one verification task."""

    def __init__(self, resp=(), contracts=None, verifying=None, timeout=10000):
        self.ctx = Ctx(timeout)
        self.ctx.stop = (BUDGET[0], G['until'])
        if G.get('cross'):
            from cross import Cross
            self.ctx.cross = Cross()
        self.w = World(self.ctx)
        self.sh = Shapes(self.ctx, G['ast']['shapes'])
        self.w.shapes = G['ast']['shapes']
        self.w.inst = lambda s, n, a, o: self.sh.make(s, n, a, o)
        self.w.resp_shapes = [{'k': 'ref', 'name': r} if r else None for r in (resp or ())]
        self.it = Interp(self.w, None, contracts, verifying)
        self.it.phase = 0
        self.prog = Program(G['ast'], G['repo'], G['contracts'], self.it)
        self.it.prog = self.prog
        self.prog.load_all()
        self.its = Interp(self.w, None, {}, None, True)
        self.progs = Program(G['ast'], G['repo'], G['contracts'], self.its)
        self.its.prog = self.progs
        self.it.phase = self.its.phase = 1

    def client(self):
        it, c = self.it, self.ctx
        key, base, ua = (z3.Const('client.' + n, STR) for n in ('key', 'baseUrl', 'userAgent'))
        c.fact(key != z3.StringVal(''))
        fr = Frame(TRUE)
        o = it.construct(self.prog.cls(), [S(('t', key)), it.obj(baseUrl=S(('t', base)), userAgent=S(('t', ua)))], fr)
        if any(c.feasible(g) for g, _ in fr.throws) or it.events or it.logs:
            raise Unsupported('the constructor throws or has effects')
        mark(o, 'client', 'client')
        it.writes = []
        it.used_functions = set()
        self.its.client = self.its.obj(key=S(('t', key)), baseUrl=S(('t', base)), userAgent=S(('t', ua)))
        it.client = o
        it.phase = self.its.phase = 2
        return o

    def args(self, specs):
        return [(n, self.sh.make(s, n)) for n, s in specs]


def outcome(fr, val):
    return (fr.act if fr.ctx_feasible else FALSE, val, fr.throws)


def run(it, f, this, args, settle=True):
    fr = Frame(TRUE)
    v = it.call(f, this, args, fr)
    if settle and not is_f(fr.act):
        v = it.settle(v, fr)
    ok = fr.act if it.ctx.feasible(fr.act) else FALSE
    return ok, v, [(g, e) for g, e in fr.throws if it.ctx.feasible(g)]


def spec_name(op):
    n = op.get('spec') or op['id'].replace('.', '_')
    return n + '_' if n in ('new', 'delete') else n


def execute(op, contracts, timeout):
    r = Run(op.get('resp'), contracts, None, timeout)
    it, its = r.it, r.its
    cfg = op.get('config')
    client = None if cfg else r.client()
    a, b = r.args(op['args']), r.args(op['args'])
    if op.get('driver'):
        f, this = r.prog.spec(op['driver']), UNDEF
        o = it.obj(**dict(a))
        if client is not None:
            o.fields['client'] = [TRUE, client]
        args = [o]
    else:
        this = client
        fr = Frame(TRUE)
        parts = op['id'].split('.')
        for p in parts[:-1]:
            this = it.get(this, p, fr)
        f = it.get(this, parts[-1], fr)
        if not isinstance(f, Clo):
            raise Unsupported(f'{op["id"]} is not a method')
        args = [v for _, v in a]
    ra = run(it, f, this, args, not op.get('sync'))
    rb = run(its, r.progs.spec(spec_name(op)), UNDEF, [its.obj(**dict(b))], True)
    return r, ra, rb


def compare(r, ra, rb):
    c = Cmp(r.it)
    c.events(r.it.events, r.its.events)
    c.logs(r.it.logs, r.its.logs)
    c.outcome(ra, rb)
    c.frame(r.it.writes)
    c.shared(ra)
    return c


def discharge(r, c, res, tries=(4000, 30000)):
    """Every obligation, with its verdict and, if it fails, a model."""
    ctx = r.ctx
    for label, fs in sorted(c.obs.items()):
        t = time.time()
        o = {'label': label, 'n': len(fs) or 1}
        goal = And(*fs)
        if is_t(goal):
            o['verdict'], o['by'] = 'discharged', 'syntactic identity'
        else:
            v = z3.unknown
            for ms in tries:
                if ctx.late():
                    break
                ctx.s.set('timeout', ms)
                ctx.s.push()
                ctx.s.add(z3.Not(goal))
                ctx.queries += 1
                v = ctx.s.check()
                if ctx.second(v) == 'sat':
                    v = z3.unknown
                if v == z3.sat:
                    o['model'] = read_model(r, ctx.s.model())
                    o['uf'] = impl_only_ufs(goal)
                ctx.s.pop()
                if v != z3.unknown:
                    break
            o['verdict'] = {'unsat': 'discharged', 'sat': 'failed'}.get(str(v), 'undecided')
            o['by'] = 'z3 ' + z3.get_version_string()
            if ctx.cross and o['verdict'] == 'discharged':
                o['by'] += ' and ' + ctx.cross.name if ctx.cross.last == 'unsat' else f' ({ctx.cross.name} undecided)'
            if v == z3.sat:
                bad = []
                m = None
                for f in fs:
                    ctx.s.push()
                    ctx.s.add(z3.Not(f))
                    if ctx.s.check() == z3.sat:
                        bad.append(str(z3.simplify(f))[:1500])
                    ctx.s.pop()
                    if len(bad) >= 3:
                        break
                o['goals'] = bad
            ctx.solver_s += time.time() - t
        o['s'] = round(time.time() - t, 3)
        res['obligations'].append(o)
    ctx.s.set('timeout', 8000)


def impl_only_ufs(e):
    seen, out, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n.startswith(('String.', 'formDecode', 'encodeURI', 'decodeURI', 'bytes.', 'typeof', 'is_', 'has.', 'null.', 'member.', 'regex', 'malformed', 'numstr')):
                out.add(n)
        todo.extend(x.children())
    return sorted(out)


def read_model(r, m):
    """The values of the named inputs in a counter-model, as JSON."""
    out = {}
    for name, (sort, args) in r.sh.consts.items():
        if args:
            continue
        v = m.eval(z3.Const(name, sort), model_completion=False)
        if z3.is_string_value(v):
            out[name] = v.as_string()
        elif z3.is_true(v) or z3.is_false(v):
            out[name] = z3.is_true(v)
        elif z3.is_int_value(v) or z3.is_rational_value(v):
            out[name] = str(v)
    for d in m.decls():
        n = d.name()
        if d.arity() == 0 and (n.startswith(('resp', 'client.', 'process', 'env', 'renderer'))):
            v = m[d]
            out[n] = v.as_string() if z3.is_string_value(v) else str(v)
    return out


def verify_op(op, contracts, timeout=10000):
    t = time.time()
    res = {'id': op['id'], 'kind': 'operation', 'obligations': []}
    r = None
    try:
        r, ra, rb = execute(op, {} if op.get('config') else contracts, timeout)
        c = compare(r, ra, rb)
        discharge(r, c, res)
        # vacuity: the assumptions are satisfiable, and each way to end is reachable
        if r.ctx.check() == z3.unsat:
            res['error'] = 'vacuous: the assumptions are contradictory'
        for k in range(len(op.get('resp') or [0])):
            if not any(r.ctx.check(e.guard, e.dist.get(k, FALSE)) == z3.sat for e in r.its.events) and not op.get('local'):
                res['error'] = f'vacuous: the contract never reaches request {k}'
        res['reach'] = {'requests': len(r.its.events), 'returns': r.ctx.check(rb[0]) == z3.sat}
        res['failed_writes'] = [w[2] for w in r.it.writes]
        res['contracts'] = sorted(r.it.used_contracts)
        res['functions'] = sorted(r.it.used_functions)
        res['externs'] = sorted(r.it.externs)
    except Unsupported as e:
        res['unsupported'] = str(e)
        res['trace'] = traceback.format_exc()[-1500:]
    except Exception:
        res['unsupported'] = 'internal error'
        res['trace'] = traceback.format_exc()[-3000:]
    if r is not None:
        res['queries'], res['solver_s'], res['unknown'] = r.ctx.queries, round(r.ctx.solver_s, 3), r.ctx.unknown
        if r.ctx.cross:
            x = r.ctx.cross
            if x.pruned:
                res['unsupported'] = 'the solvers disagree whether a path is feasible'
            res['cross'] = {'confirmed': x.confirmed, 'undecided': x.undecided, 'rejected': x.rejected, 'why': x.why, 's': round(x.s, 1), 'disagreements': x.disagreements[:3]}
    res['wall_s'] = round(time.time() - t, 3)
    return res


def verify_internal(c, contracts, timeout=10000):
    t = time.time()
    res = {'id': c['id'], 'kind': 'function', 'obligations': []}
    r = None
    try:
        cs = {k: v for k, v in contracts.items() if k != c['id']}
        r = Run((), cs, c['id'], timeout)
        client = r.client()
        f = r.prog.find(c['id'])
        if f is None:
            res['absent'] = True
            return res
        a, b = r.args(c['args']), r.args(c['args'])
        it, its = r.it, r.its
        this = UNDEF
        if c.get('self'):
            this = client
            fr = Frame(TRUE)
            for n in filter(None, (c.get('on') or '').split('.')):
                this = it.get(this, n, fr)
            f = it.get(this, c['id'].split('.')[1], fr)
        if len(f.fn['params']) != len(c['args']):
            res['absent'] = True
            return res
        it.in_contract = 1
        ra = run(it, f, this, [v for _, v in a], f.fn['async'])
        spec = r.progs.spec(c['spec'])
        rb = run(its, spec, UNDEF, [its.obj(**dict(b))], f.fn['async'])
        cm = compare(r, ra, rb)
        discharge(r, cm, res)
        if r.ctx.check() == z3.unsat:
            res['error'] = 'vacuous: the assumptions are contradictory'
        res['contracts'] = sorted(it.used_contracts)
        res['functions'] = sorted(it.used_functions | {c['id']})
    except Unsupported as e:
        res['unsupported'] = str(e)
        res['trace'] = traceback.format_exc()[-1500:]
    except Exception:
        res['unsupported'] = 'internal error'
        res['trace'] = traceback.format_exc()[-3000:]
    if r is not None:
        res['queries'], res['solver_s'], res['unknown'] = r.ctx.queries, round(r.ctx.solver_s, 3), r.ctx.unknown
        if r.ctx.cross:
            x = r.ctx.cross
            if x.pruned:
                res['unsupported'] = 'the solvers disagree whether a path is feasible'
            res['cross'] = {'confirmed': x.confirmed, 'undecided': x.undecided, 'rejected': x.rejected, 'why': x.why, 's': round(x.s, 1), 'disagreements': x.disagreements[:3]}
    res['wall_s'] = round(time.time() - t, 3)
    return res


def holds(res):
    return 'unsupported' not in res and 'absent' not in res and 'error' not in res and all(o['verdict'] == 'discharged' for o in res['obligations'])


def _op(args):
    return verify_op(*args)


def _int(args):
    return verify_internal(*args)


def verify(ids=None, jobs=8, modular=True):
    import multiprocessing as mp
    ast = G['ast']
    active = {c['id']: c for c in ast['internal']} if modular else {}
    internals = {}
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=8) as pool:
        todo = list(active)
        while todo:
            rs = pool.map(_int, [(active[i], active) for i in todo], chunksize=1)
            dropped = set()
            for r in rs:
                internals[r['id']] = r
                if not holds(r):
                    dropped.add(r['id'])
            for d in dropped:
                active.pop(d, None)
            todo = [i for i in active if dropped & set(internals[i].get('contracts', []))]
        ops = [o for o in ast['ops'] if ids is None or o['id'] in ids]
        heavy = lambda o: -len(json.dumps(o)) - (100000 if o['id'] in ('batch.create', 'batch.send', 'emails.receiving.forward', 'new') else 0)
        rs = pool.map(_op, [(o, active) for o in sorted(ops, key=heavy)], chunksize=1)
    return internals, sorted(rs, key=lambda r: [o['id'] for o in ops].index(r['id'])), sorted(active)


if __name__ == '__main__':
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('ast')
    p.add_argument('--repo', default='/repo')
    p.add_argument('--contracts', default=os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts'))
    p.add_argument('--op')
    p.add_argument('--fn')
    p.add_argument('--no-contracts', action='store_true')
    p.add_argument('--cross', action='store_true')
    p.add_argument('-o')
    a = p.parse_args()
    G['cross'] = a.cross
    setup(json.load(open(a.ast)), a.repo, a.contracts)
    ast = G['ast']
    act = {} if a.no_contracts else {c['id']: c for c in ast['internal']}
    if a.op:
        r = verify_op(next(o for o in ast['ops'] if o['id'] == a.op), act)
        print(json.dumps(r, indent=1))
    elif a.fn:
        r = verify_internal(next(o for o in ast['internal'] if o['id'] == a.fn), act)
        print(json.dumps(r, indent=1))
    else:
        t = time.time()
        ints, ops, active = verify()
        for r in list(ints.values()) + ops:
            bad = [o for o in r['obligations'] if o['verdict'] != 'discharged']
            print(('ok  ' if holds(r) else 'FAIL'), r['id'], f"{r['wall_s']}s q={r.get('queries')}", r.get('unsupported', ''), r.get('error', ''),
                  ' '.join(f"{o['label']}:{o['verdict']}" for o in bad[:12]))
        print('wall', time.time() - t, 'ok', sum(holds(r) for r in ops), '/', len(ops))
        if a.o:
            json.dump({'internals': ints, 'ops': ops, 'active': active}, open(a.o, 'w'))
