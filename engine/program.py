"""The program under verification: modules, shapes of inputs, the vocabulary of
the contracts."""
import json
import os
import sys
import z3
import builtins_js as bj
from values import *
from interp import Interp, Env, Cell, Frame, World, Req


def load_ast(path):
    return json.load(open(path))


class Program:
    def __init__(self, ast, repo, contracts, interp):
        self.ast, self.repo, self.it = ast, os.path.abspath(repo), interp
        self.contracts_dir = os.path.abspath(contracts)
        self.mods = {}
        self.exports = {}
        self.cids = {}
        self.spec_root = self.spec_env()
        self.src = os.path.join(self.repo, 'src')

    # ---- modules ----------------------------------------------------------------
    def resolve(self, frm, spec):
        p = os.path.normpath(os.path.join(os.path.dirname(frm), spec))
        for c in (p, p + '.ts', p + '.tsx', p + '.mjs', p + '.js', os.path.join(p, 'index.ts'), p[:-3] + '.ts' if p.endswith('.js') else p):
            if c in self.ast['files']:
                return c
        return None

    def load(self, path):
        if path in self.mods:
            return self.exports[path]
        spec = path.startswith(self.contracts_dir)
        env = Env(self.spec_root if spec else None)
        self.mods[path] = env
        ex = self.exports[path] = {}
        body = self.ast['files'][path]['body']
        it = self.it
        fr = Frame(TRUE)
        stars = []
        for s in body:
            if s['t'] == 'FnDecl':
                c = Clo(s['fn'], env, cid=None if spec else s['name'], spec=spec)
                env.vars[s['name']] = Cell(c, 0, None if spec else 'module', s['name'])
                if not spec:
                    self.cids.setdefault(s['name'], []).append((path, c))
                if s.get('exported'):
                    ex['default' if s.get('def') else s['name']] = env.vars[s['name']]
            elif s['t'] == 'ClassDecl':
                c = ClassV(s['cls'], env, s['name'])
                env.vars[s['name']] = Cell(c, 0, 'module', s['name'])
                for m in s['cls']['members']:
                    if m['kind'] == 'method' and not m.get('static'):
                        self.cids.setdefault(f"{s['name']}.{m.get('key')}", []).append((path, c))
                if s.get('exported'):
                    ex['default' if s.get('def') else s['name']] = env.vars[s['name']]
        for s in body:
            if s['t'] == 'Import':
                self.do_import(path, s, env)
        for s in body:
            t = s['t']
            if t in ('FnDecl', 'Import'):
                continue
            if t == 'ClassDecl':
                for m in s['cls']['members']:
                    if m['kind'] == 'field' and m.get('static') and m['init']:
                        c = env.vars[s['name']].value
                        c.statics.fields[m['key']] = [TRUE, it.ev(m['init'], env, fr)]
                        mark(c.statics, 'module', s['name'])
                continue
            if t == 'Var':
                it.st(s, env, fr)
                for d in s['decls']:
                    for n in names(d['pat']):
                        c = env.vars.get(n)
                        if c is None:
                            continue
                        if not spec:
                            c.owner = 'module'
                            if isinstance(c.value, Clo) and c.value.cid is None and d['init'] and d['init']['t'] == 'Fn':
                                c.value.cid = n
                                self.cids.setdefault(n, []).append((path, c.value))
                            mark(c.value, 'module', n)
                        elif isinstance(c.value, Clo):
                            c.value.spec = True
                        if s.get('exported'):
                            ex[n] = c
            elif t == 'ExportNames':
                if s['from']:
                    p = self.resolve(path, s['from'])
                    src = self.load(p) if p else {}
                    for n in s['names']:
                        if n['local'] in src:
                            ex[n['exported']] = src[n['local']]
                else:
                    for n in s['names']:
                        if n['local'] in env.vars:
                            ex[n['exported']] = env.vars[n['local']]
            elif t == 'ExportAll':
                p = self.resolve(path, s['from'])
                if p:
                    for k, v in self.load(p).items():
                        ex.setdefault(k, v)
            elif t == 'ExportDefault':
                ex['default'] = Cell(it.ev(s['e'], env, fr), 0, 'module', 'default')
            else:
                it.st(s, env, fr)
        if any(it.ctx.feasible(g) for g, _ in fr.throws):
            raise Unsupported('module initialisation may throw: ' + path)
        return ex

    def do_import(self, path, s, env):
        frm = s['from']
        if frm.startswith('.'):
            if frm.endswith('package.json'):
                pkg = self.pkg()
                for n in s['names']:
                    if n['imported'] in ('default', '*'):
                        env.vars[n['local']] = Cell(pkg, 0, 'module', n['local'])
                    elif n['imported'] in pkg.fields:
                        env.vars[n['local']] = Cell(pkg.fields[n['imported']][1], 0, 'module', n['local'])
                return
            p = self.resolve(path, frm)
            if p is None:
                return
            src = self.load(p)
            for n in s['names']:
                if n['imported'] == '*':
                    o = HObj(0)
                    o.owner = 'module'
                    o.fields = {k: [TRUE, c.value] for k, c in src.items()}
                    env.vars[n['local']] = Cell(o, 0, 'module', n['local'])
                elif n['imported'] in src:
                    env.vars[n['local']] = src[n['imported']]
                elif p in self.mods and n['imported'] in self.mods[p].vars:
                    env.vars[n['local']] = self.mods[p].vars[n['imported']]
            return
        mod = bj.extern(self.it, frm)
        if mod is None:
            return
        self.it.externs.add(frm)
        for n in s['names']:
            if n['imported'] in mod:
                env.vars[n['local']] = Cell(mod[n['imported']], 0, 'module', n['local'])
            elif n['imported'] == '*':
                o = self.it.obj(**mod)
                env.vars[n['local']] = Cell(o, 0, 'module', n['local'])

    def pkg(self):
        o = HObj(0)
        for k, v in self.ast['pkg'].items():
            if isinstance(v, str):
                o.fields[k] = [TRUE, lit(v)]
        o.owner, o.label = 'module', 'package.json'
        return o

    def extern(self, it, name):
        m = bj.extern(it, name)
        o = it.obj(**m)
        return o

    def find(self, cid):
        """The one function or class with this name, or None."""
        l = self.cids.get(cid, [])
        return l[0][1] if len(l) == 1 else None

    def cls(self, name='Resend'):
        return self.load(os.path.join(self.src, 'index.ts'))[name].value

    def load_all(self):
        """Only what index.ts reaches is code that runs."""
        return self.load(os.path.join(self.src, 'index.ts'))

    def spec(self, name):
        return self.load(os.path.join(self.contracts_dir, 'specs.mjs'))[name].value

    # ---- the vocabulary of the contracts -------------------------------------------
    def spec_env(self):
        env = Env()
        for n, f in INTRINSICS.items():
            env.vars[n] = Cell(Nat(n, f), 0)
        return env


def names(pat):
    if pat['t'] == 'Id':
        return [pat['name']]
    if pat['t'] == 'ObjPat':
        return [x for p in pat['props'] for x in names(p.get('rest') or p['value'])]
    if pat['t'] == 'ArrPat':
        return [x for p in pat['elems'] if p for x in names(p['value'])]
    return []


# ---- intrinsics ------------------------------------------------------------------------
def arg(a, i):
    return a[i] if i < len(a) else UNDEF


def fld(it, o, name, fr):
    return it.get1(o, name, fr, None)


def defined_items(it, m, fr):
    """[(guard, name, value)] of the members of a map that are not undefined."""
    out = []
    for k, (p, v) in m.fields.items():
        for g, x in it.ctx.cases(v, fr.act):
            if x is UNDEF:
                continue
            out.append((And(p, g), k, x))
    return out


def query_items(it, m, fr):
    out = []
    for g, k, x in defined_items(it, m, fr):
        for g2, s in alts(it.to_str(x, fr)):
            out.append((And(g, g2), lit(k), s))
    return tuple(out)


def i_request(it, this, args, fr, node):
    q = arg(args, 0)
    act = fr.act
    conf = fld(it, q, 'client', fr)
    if conf is UNDEF:
        conf = it.client
    key, base, ua = (it.get1(conf, n, fr, node) for n in ('key', 'baseUrl', 'userAgent'))
    init = fld(it, q, 'init', fr)
    path = fld(it, q, 'rawPath', fr)
    if path is UNDEF:
        def seg(v):
            return bj.g_encode(it, [v], fr, node)

        def build(a):
            out = lit('')
            for s in a.segs:
                out = it.concat(it.concat(out, lit('/'), fr), seg(s.value), fr)
            return out
        path = it.map(fld(it, q, 'path', fr), fr, build)
        qm = fld(it, q, 'query', fr)
        if qm is not UNDEF:
            items = query_items(it, qm, fr)
            path = it.concat(path, S(('qopt', items)), fr)
    url = it.concat(it.to_str(base, fr), path, fr)
    if init is not UNDEF:
        canon = it.canon_fetch(url, init, fr, node)
    else:
        body = fld(it, q, 'body', fr)
        ent = fld(it, q, 'entity', fr)
        form = fld(it, q, 'form', fr)
        is_form = FALSE
        if form is not UNDEF:
            f = HForm(it.level)
            for g, k, x in defined_items(it, form, fr):
                if isinstance(x, O):
                    f.items.append((g, lit(k), x))
                else:
                    for g2, s in alts(it.to_str(x, fr)):
                        f.items.append((And(g, g2), lit(k), s))
            body, is_form = f, TRUE
        else:
            src = ent if 'entity' in q.fields else body
            out = []
            for g, x in it.ctx.cases(src, act):
                if isinstance(x, HForm):
                    is_form = Or(is_form, g)
                    out.append((g, snapshot(x)))
                elif x is UNDEF:
                    out.append((g, x))
                else:
                    out.append((g, S(('json', snapshot(x)))))
            body = mk_un(out)
        layers = []

        def put(name, v, g=TRUE):
            for g2, s in it.ctx.cases(it.to_str(v, fr), act):
                layers.append(('set', And(g, g2), name, it.term(s)))
        put('authorization', it.concat(lit('Bearer '), it.to_str(key, fr), fr))
        put('user-agent', ua)
        put('content-type', lit('application/json'), Not(is_form))
        dfl = fld(it, q, 'defaults', fr)
        if dfl is not UNDEF:
            for k, (p, v) in dfl.fields.items():
                put(k, v, p)
        for g, o in it.ctx.cases(fld(it, q, 'options', fr), act):
            if not isinstance(o, HObj):
                continue
            a0 = fr.act
            fr.act = And(a0, g)
            layers += [(l[0], And(g, l[1]), *l[2:]) for l in bj.header_layers(it, it.get1(o, 'headers', fr, node), fr, node)]
            for g2, k in it.ctx.cases(it.get1(o, 'idempotencyKey', fr, node), fr.act):
                if isinstance(k, S):
                    put('idempotency-key', k, And(g, g2, it.nonempty(k)))
            fr.act = a0
        canon = Req(fld(it, q, 'method', fr), url, layers, body, [])
    dist = it.request(fr, canon=canon)
    return mk_un([(g, Resp(k, path, True)) for k, g in dist.items()])


def i_download(it, this, args, fr, node):
    url = it.to_str(arg(args, 0), fr)
    dist = it.request(fr, canon=Req(lit('GET'), url, [], UNDEF, []))
    return mk_un([(g, Resp(k, url, True)) for k, g in dist.items()])


def i_render(it, this, args, fr, node):
    it.throw(fr, it.err('Error', TEXT), Not(it.w.import_ok))
    if is_f(fr.act):
        return UNDEF
    return it.settle(bj.do_render(it, [arg(args, 0)], fr, node), fr, node)


def i_log(it, this, args, fr, node):
    it.logs.append((fr.act, 'error', [snapshot(arg(args, 0))], bool(it.loops), True))
    return UNDEF


def i_logging(it, this, args, fr, node):
    w = it.w
    e = it.eq(w.env_var('NODE_ENV', it.phase), lit('production'), fr)
    return B(And(w.proc_def, w.env_def, Not(e)))


def i_query(it, this, args, fr, node):
    items = query_items(it, arg(args, 0), fr)
    return S(('qs', items)) if items else S()


def i_json(it, this, args, fr, node):
    return it.map(arg(args, 0), fr, lambda x: S(('json', snapshot(x))))


def i_trim(it, this, args, fr, node):
    return it.map(arg(args, 0), fr, lambda s: bj.anchored_replace(it, s, Spec('regex', src='^<|>$', flags='g'), ''))


def i_env(it, this, args, fr, node):
    return it.w.env_var(arg(args, 0).lit(), it.phase)


def i_throw(it, this, args, fr, node):
    it.throw(fr, it.err('Error', TEXT))
    return UNDEF


def i_parse_mime(it, this, args, fr, node):
    key = arg(args, 0).term
    it.throw(fr, O(mime_err(key), 'err'), Not(mime_ok(key)))
    return it.mime(key, 'base64')


def i_new(it, this, args, fr, node):
    # a constructor that throws ends the operation
    return it.construct(it.prog.cls(), args, fr, node)


def i_change_env(it, this, args, fr, node):
    it.phase += 1
    return UNDEF


def i_scramble(it, this, args, fr, node):
    for g, x in it.ctx.cases(arg(args, 0), fr.act):
        if isinstance(x, HObj):
            for k in list(x.fields):
                x.fields[k] = [TRUE, S(('t', it.ctx.fresh('scrambled', STR)))]
    return UNDEF


INTRINSICS = {
    '$request': i_request, '$download': i_download, '$render': i_render, '$log': i_log, '$logging': i_logging,
    '$query': i_query, '$json': i_json, '$trimAngles': i_trim, '$env': i_env, '$throw': i_throw, '$parseMime': i_parse_mime,
    '$new': i_new, '$changeEnvironment': i_change_env, '$scramble': i_scramble,
    '$text': lambda it, t, a, fr, nd: TEXT,
    '$base64': lambda it, t, a, fr, nd: S(('t', b64_f(arg(a, 0).term))),
    '$verifySignature': lambda it, t, a, fr, nd: bj.verify_sig(it, *a, fr=fr, node=nd),
    '$segment': lambda it, t, a, fr, nd: bj.g_encode(it, a, fr, nd),
    '$hasEnv': lambda it, t, a, fr, nd: B(And(it.w.proc_def, it.w.env_def)),
    '$packageVersion': lambda it, t, a, fr, nd: lit(it.prog.ast['pkg']['version']),
}


# ---- shapes -------------------------------------------------------------------------------
class Shapes:
    """Arbitrary inputs of a shape: every value the shape allows is a valuation
    of the constants introduced here, which are named after the input."""

    def __init__(self, ctx, shapes):
        self.ctx, self.shapes = ctx, shapes
        self.known = set()
        self.consts = {}             # name -> (sort, args): for reading a model

    def fact(self, e):
        k = e.get_id()
        if k not in self.known:
            self.known.add(k)
            self.ctx.keep.append(e)
            self.ctx.fact(e)

    def c(self, name, sort, args):
        self.consts[name] = (sort, tuple(args))
        if not args:
            return z3.Const(name, sort)
        return z3.Function(name, *[a.sort() for a in args], sort)(*args)

    def make(self, shape, name, args=(), owner='input'):
        v = self.mk(shape, name, tuple(args))
        mark(v, owner, name)
        return v

    def mk(self, sh, name, args):
        """A value of the shape; `opt` shapes may be undefined."""
        v = self.val(sh, name, args)
        if sh.get('opt') == 1:
            d = self.c(name + '?', z3.BoolSort(), args)
            return mk_un([(d, v), (Not(d), UNDEF)])
        return v

    def val(self, sh, name, args):
        k = sh['k']
        if k == 'str':
            t = self.c(name, STR, args)
            if sh.get('ne'):
                self.fact(t != z3.StringVal(''))
            if sh.get('tok'):
                self.fact(urlsafe(t))
            return S(('t', t))
        if k == 'num':
            t = self.c(name, z3.RealSort(), args)
            if sh.get('pos'):
                self.fact(t > 0)
            return N(t)
        if k == 'bool':
            return B(self.c(name, z3.BoolSort(), args))
        if k == 'null':
            return NULL
        if k == 'false':
            return B(False)
        if k == 'enum':
            t = self.c(name, STR, args)
            self.fact(z3.Or(*[t == z3.StringVal(x) for x in sh['v']]))
            for x in sh['v']:
                self.fact(urlsafe(z3.StringVal(x)))
            self.fact(urlsafe(t))
            self.fact(t != z3.StringVal(''))
            return S(('t', t))
        if k == 'any':
            n = self.c(name + '=null', z3.BoolSort(), args)
            return mk_un([(n, NULL), (Not(n), O(self.c(name, U, args), 'json'))])
        if k == 'rec':
            return O(self.c(name, U, args), 'obj')
        if k in ('node', 'buf', 'blob'):
            return O(self.c(name, U, args), k)
        if k == 'hdrs':
            return HdrsIn(name)
        if k == 'init':
            o = HObj()
            o.fields = {'method': [TRUE, S(('t', self.c(name + '.method', STR, args)))], 'headers': [TRUE, HdrsIn(name + '.headers')]}
            d = self.c(name + '.body@', z3.IntSort(), args)
            self.fact(z3.And(d >= 0, d < 3))
            o.fields['body'] = [TRUE, Un([(d == 0, S(('t', self.c(name + '.body', STR, args)))), (d == 1, UNDEF),
                                          (Not(Or(d == 0, d == 1)), O(self.c(name + '.bodyObject', U, args), 'body'))])]
            for f in ('idempotencyKey', 'batchValidation'):
                e = self.c(f'{name}.{f}?', z3.BoolSort(), args)
                o.fields[f] = [e, S(('t', self.c(f'{name}.{f}', STR, args)))]
            return o
        if k == 'entity':
            n = self.c(name + '@', z3.IntSort(), args)
            self.fact(z3.And(n >= 0, n < 3))
            f = HForm()
            f.items = [(TRUE, lit('part'), O(self.c(name + '.formPart', U, args), 'blob'))]
            return Un([(n == 0, NULL), (n == 1, O(self.c(name, U, args), 'json')), (Not(Or(n == 0, n == 1)), f)])
        if k == 'ref':
            return self.val(self.shapes[sh['name']], name, args)
        if k == 'obj':
            o = HObj()
            for f, s in sh['f'].items():
                n = f'{name}.{f}'
                if s.get('opt') == 2:
                    p = self.c(n + '?', z3.BoolSort(), args)
                    o.fields[f] = [p, self.val(s, n, args)]
                elif s.get('opt'):
                    v = self.mk(s, n, args)
                    d = self.c(n + '?', z3.BoolSort(), args)
                    p = self.c(n + '!', z3.BoolSort(), args)
                    self.fact(z3.Implies(d, p))
                    o.fields[f] = [p, v]
                else:
                    o.fields[f] = [TRUE, self.mk(s, n, args)]
            if name.startswith(('resp', 'mime')) and not sh.get('closed'):       # what an answer holds besides
                o.rests.append((TRUE, self.c(name + '.rest', U, args)))
                REST_KNOWN[name + '.rest'] = frozenset(o.fields)
            return o
        if k == 'arr':
            ln = self.c(name + '#len', z3.IntSort(), args)
            self.fact(ln >= 0)
            idx = z3.Int(name + '#i')
            src = Src(name, args, ln, idx)
            return HArr(0, [Loop(src, [(TRUE, self.mk(sh['e'], name + '[]', args + (idx,)))])])
        if k == 'or':
            n = len(sh['a'])
            if n == 1:
                return self.val(sh['a'][0], name, args)
            s = self.c(name + '@', z3.IntSort(), args)
            self.fact(z3.And(s >= 0, s < n))
            out = []
            for i, a in enumerate(sh['a']):
                g = s == i if i < n - 1 else Not(Or(*[s == j for j in range(n - 1)]))
                out.append((g, self.val(a, f'{name}@{i}', args)))
            return Un(out)
        raise Unsupported('shape ' + k)
