"""Predicated symbolic execution of the extracted TypeScript (and of the
contracts): one state, every effect under the guard of its path."""
import json
import os
import re
import urllib.parse
import z3
from values import *

MAXDEPTH = 70
MAXSAME = 12     # of one function, inside itself


_ARGS = {}


def mentions_arguments(fn):
    """Does the text of a function name its arguments object?"""
    r = _ARGS.get(id(fn))
    if r is None:
        r = (fn, '"arguments"' in json.dumps(fn))
        _ARGS[id(fn)] = r
    return r[1]


class Cell:
    __slots__ = ('value', 'level', 'owner', 'name')

    def __init__(self, value, level=0, owner=None, name=''):
        self.value, self.level, self.owner, self.name = value, level, owner, name


class Env:
    __slots__ = ('vars', 'parent')

    def __init__(self, parent=None):
        self.vars, self.parent = {}, parent

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return None


class Frame:
    """One activation: the guard under which control is here, and the guarded
    ways it has been left."""

    def __init__(self, act, this=None, clo=None):
        self.act, self.this, self.clo = act, this, clo
        self.rets, self.throws = [], []
        self.brk, self.cont = [], []
        self.shorts = []


class LoopCtx:
    def __init__(self, src, level):
        self.src, self.level, self.pushed = src, level, []
        self.read, self.grown = set(), set()


def enter(src, level, node):
    """The generic iteration over src, which stands for an arbitrary index of it: for one at a time."""
    if any(lc.src.key() == src.key() or z3.eq(lc.src.idx, src.idx) and not isinstance(src, HSrc) for lc in LOOPS):
        raise Unsupported('a loop over a sequence inside a loop over the same sequence', node)
    return LoopCtx(src, level)


class Event:
    def __init__(self, guard, dist, req, loop=False):
        self.guard, self.dist, self.req, self.loop = guard, dist, req, loop


class Req:
    """A request: method, URL, header layers, body, other fetch options."""

    def __init__(self, method, url, layers, body, extra):
        self.method, self.url, self.layers, self.body, self.extra = method, url, layers, body, extra


# members of fetch's options that change the request (method, headers and body apart)
FETCH_KEYS = {'signal', 'redirect', 'cache', 'credentials', 'mode', 'keepalive', 'integrity', 'referrer', 'referrerPolicy', 'window',
              'duplex', 'dispatcher', 'priority'}


ERRORS = {'Error': None, 'TypeError': 'Error', 'SyntaxError': 'Error', 'RangeError': 'Error', 'ReferenceError': 'Error',
          'URIError': 'Error', 'AggregateError': 'Error', 'EvalError': 'Error'}


class World:
    """What is shared by the runs that are compared: solver, network, environment."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.resp = {}
        self.resp_shapes = []
        self.proc_def = z3.Bool('process.defined')
        self.env_def = z3.Bool('process.env.defined')
        self.import_ok = z3.Bool('renderer.installed')
        self.loop_regs = {}
        self.mime = {}
        self.qs_consts = {}
        self.qs_keep = []
        self.inst = None            # shape instantiation, set by verify.py
        self.shapes = {}

    def env_var(self, name, phase):
        d = z3.Bool(f'env{phase}.{name}.set')
        return mk_un([(d, S(('t', z3.Const(f'env{phase}.{name}', STR)))), (Not(d), UNDEF)])

    def r(self, k):
        if k in self.resp:
            return self.resp[k]
        c = self.ctx
        o = lambda n, s: z3.Const(f'resp{k}.{n}', s)
        r = {
            'delivered': o('delivered', z3.BoolSort()), 'status': o('status', z3.RealSort()),
            'readable': o('readable', z3.BoolSort()), 'isJson': o('isJson', z3.BoolSort()),
            'err': o('fetchError', U), 'readErr': o('readError', U), 'readErrIsError': o('readErrorIsError', z3.BoolSort()),
            'readErrMessage': o('readErrorMessage', STR), 'text': o('text', STR), 'statusText': o('statusText', STR),
            'bytes': o('bytes', U), 'headers': o('headers', U), 'kind': o('jsonKind', z3.IntSort()), 'json': o('json', U),
            'jstr': o('jsonString', STR), 'jnum': o('jsonNumber', z3.RealSort()), 'jbool': o('jsonBool', z3.BoolSort()),
        }
        r['ok'] = z3.And(r['status'] >= 200, r['status'] < 300)
        c.fact(z3.And(r['status'] >= 200, r['status'] <= 599))
        c.fact(z3.IsInt(r['status']))
        c.fact(z3.And(r['kind'] >= 0, r['kind'] <= 5))
        # a 2xx JSON answer is an object or an array, as the API documents
        c.fact(z3.Implies(z3.And(r['ok'], r['isJson']), z3.Or(r['kind'] == 1, r['kind'] == 2)))
        shape = self.resp_shapes[k] if k < len(self.resp_shapes) else None
        r['shape'] = shape
        if shape is not None:
            c.fact(z3.Implies(z3.And(r['ok'], r['isJson']), r['kind'] == 1))
        self.resp[k] = r
        return r

    def resp_json(self, k, act, level=0):
        """The JSON value of the k-th answer."""
        r = self.r(k)
        kind = r['kind']
        out = [
            (kind == 0, NULL), (kind == 2, O(r['json'], 'arr')), (kind == 3, S(('t', r['jstr']))),
            (kind == 4, N(r['jnum'])), (kind == 5, B(r['jbool'])),
        ]
        if r['shape'] is not None:
            v = self.inst(r['shape'], f'resp{k}.json', (), 'resp')
            out.append((And(kind == 1, r['ok']), v))
            out.append((And(kind == 1, Not(r['ok'])), O(r['json'], 'obj')))
        else:
            out.append((kind == 1, O(r['json'], 'obj')))
        return self.ctx.prune(Un(out), act)


def whole(e):
    """a number known to be whole (a length, an index, a whole literal and what is computed of them): on these JavaScript's
    arithmetic is the mathematical one; on other numbers it rounds"""
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return all(whole(c) for c in e.children())
    return k == z3.Z3_OP_ITE and whole(e.arg(1)) and whole(e.arg(2))


class Interp:
    def __init__(self, world, program, contracts=None, verifying=None, spec_mode=False):
        self.w = world
        self.ctx = world.ctx
        self.prog = program
        self.contracts = contracts or {}
        self.verifying = verifying
        self.events, self.logs, self.writes = [], [], []
        self.loops = []
        self.depth = 0
        self.active = {}
        self.phase = 1
        self.used_contracts = set()
        self.used_functions = set()
        self.externs = set()
        self.in_contract = 0
        self.client = None
        self.len_src = {}
        self.body_used = {}

    # ---- helpers ------------------------------------------------------------
    @property
    def level(self):
        return len(self.loops)

    def obj(self, **kw):
        o = HObj(self.level)
        for k, v in kw.items():
            o.fields[k] = [TRUE, v]
        return o

    def arr(self, vals=()):
        return HArr(self.level, [Elem(TRUE, v) for v in vals])

    def err(self, cls, msg):
        o = HObj(self.level, cls='$' + cls)
        o.fields['message'] = [TRUE, msg if isinstance(msg, Val) else lit(msg)]
        o.fields['name'] = [TRUE, lit(cls)]
        return o

    def throw(self, fr, exc, guard=TRUE):
        g = And(fr.act, guard)
        if self.ctx.feasible(g):
            fr.throws.append((g, exc))
        fr.act = And(fr.act, Not(guard)) if not is_t(guard) else FALSE

    def uns(self, why, node, fr):
        """Outside the fragment: only matters where control can be."""
        if self.ctx.feasible(fr.act):
            raise Unsupported(why, node)
        return UNDEF

    def map(self, v, fr, f):
        """f on every feasible alternative of v, each under its guard."""
        cs = self.ctx.cases(v, fr.act)
        if not cs:
            fr.act = FALSE
            return UNDEF
        if len(cs) == 1:
            return f(cs[0][1])
        act0 = fr.act
        out, acts = [], []
        for g, x in cs:
            fr.act = And(act0, g)
            r = f(x)
            out.append((g, r))
            acts.append((And(act0, g), fr.act))
        fr.act = self.join(act0, acts)
        return mk_un(out)

    def join(self, act0, acts):
        """The guard after branches (entry guard, exit guard)."""
        if all(a.get_id() == b.get_id() for a, b in acts):
            return act0
        return Or(*[b for _, b in acts])

    # ---- frame --------------------------------------------------------------
    def note_write(self, obj, what, fr, changed=TRUE):
        if obj.owner in ('input', 'client', 'module', 'resp'):
            g = And(fr.act, changed)
            if self.ctx.feasible(g):
                self.writes.append((g, obj.owner, f'{obj.label}.{what}' if what else obj.label))

    def check_level(self, level, what, node, fr):
        if level < self.level and self.ctx.feasible(fr.act):
            raise Unsupported(f'write to {what} from a loop over an unbounded sequence', node)

    # ---- truth, typeof, equality, strings -------------------------------------
    def nonempty(self, s):
        out = []
        for p in s.parts:
            k = p[0]
            if k == 'lit':
                return TRUE
            if k in ('t', 'enc', 'encat'):
                out.append(p[1] != z3.StringVal(''))
            elif k == 'qs':
                out.append(Or(*[g for g, _, _ in p[1]]))
            elif k == 'json':
                return TRUE
            elif k == 'join':
                gs = [g for g, _ in p[2]]
                one = Or(*[And(g, self.nonempty(v)) for g, v in p[2]])
                two = FALSE
                if p[1]:
                    for i in range(len(gs)):
                        for j in range(i):
                            two = Or(two, And(gs[i], gs[j]))
                out.append(Or(one, two))
            elif k == 'joina':
                out.append(p[2] != z3.StringVal(''))
            else:
                raise Unsupported('string part ' + k)
        return Or(*out)

    def term(self, s):
        """z3 string of a rope."""
        out = []
        for p in s.parts:
            k = p[0]
            if k == 'lit':
                out.append(z3.StringVal(p[1]))
            elif k == 't':
                out.append(p[1])
            elif k == 'enc':
                out.append(enc_f(p[1]))
            elif k == 'joina':
                out.append(p[2])
            else:
                key = pkey(p)
                if key not in self.w.qs_consts:
                    c = self.ctx.fresh('str', STR)
                    self.w.qs_consts[key] = (c, p)
                    self.ctx.fact((c != z3.StringVal('')) == self.nonempty(S(p)))
                    if k == 'encat':
                        pass
                out.append(self.w.qs_consts[key][0])
        if not out:
            return z3.StringVal('')
        return out[0] if len(out) == 1 else z3.Concat(*out)

    def truthy(self, v, fr):
        def one(x):
            if x in (UNDEF, NULL):
                return FALSE
            if isinstance(x, B):
                return x.e
            if isinstance(x, N):
                return Not(z3.simplify(x.e == 0)) if z3.is_rational_value(x.e) else x.e != 0
            if isinstance(x, S):
                return self.nonempty(x)
            if isinstance(x, O):
                return truthy_f(x.term) if x.tag in ('node', 'json') else TRUE
            return TRUE
        return Or(*[And(g, one(x)) for g, x in self.ctx.cases(v, fr.act)])

    def nullish(self, v, fr):
        return Or(*[g for g, x in self.ctx.cases(v, fr.act) if x in (UNDEF, NULL)])

    def typeof(self, v, fr, node=None):
        def one(x):
            if x is UNDEF:
                return 'undefined'
            if x is NULL:
                return 'object'
            if isinstance(x, B):
                return 'boolean'
            if isinstance(x, N):
                return 'number'
            if isinstance(x, S):
                return 'string'
            if isinstance(x, (Clo, Nat, ClassV)):
                return 'function'
            if isinstance(x, O):
                if x.tag in ('json', 'node'):
                    return None
                return 'object'
            return 'object'
        out = []
        for g, x in self.ctx.cases(v, fr.act):
            t = one(x)
            out.append((g, lit(t) if t else S(('t', z3.Function('typeof', U, STR)(x.term)))))
        return mk_un(out)

    def loose_null(self, x):
        return x in (UNDEF, NULL)

    def eq1(self, a, b, node, fr):
        if same(a, b):
            return TRUE
        if type(a).__name__ == '_NoIndex' or type(b).__name__ == '_NoIndex':
            raise Unsupported('comparison of an untracked index', node)
        if a in (UNDEF, NULL) or b in (UNDEF, NULL):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, O) and x.tag in ('json', 'node') and not isinstance(y, O):
                # an opaque JSON value may equal a primitive
                if isinstance(y, (Heap, Clo, Nat, ClassV, Resp)):
                    return FALSE
                return z3.Function('is_' + type(y).__name__, U, y.e.sort() if isinstance(y, (B, N)) else STR, z3.BoolSort())(
                    x.term, y.e if isinstance(y, (B, N)) else self.term(y))
        if isinstance(a, B) and isinstance(b, B):
            return z3.simplify(a.e == b.e)
        if isinstance(a, N) and isinstance(b, N):
            e = self.index_test('==', a, b)
            return z3.simplify(a.e == b.e) if e is None else e
        if isinstance(a, S) and isinstance(b, S):
            la, lb = a.lit(), b.lit()
            if la is not None and lb is not None:
                return z3.BoolVal(la == lb)
            if la == '':
                return Not(self.nonempty(b))
            if lb == '':
                return Not(self.nonempty(a))
            return self.term(a) == self.term(b)
        if isinstance(a, O) and isinstance(b, O):
            return a.term == b.term
        return FALSE

    def eq(self, a, b, fr, node=None, loose=False):
        out = []
        ca, cb = self.ctx.cases(a, fr.act), self.ctx.cases(b, fr.act)
        for ga, x in ca:
            for gb, y in cb:
                g = And(ga, gb)
                if loose and (x in (UNDEF, NULL) or y in (UNDEF, NULL)):
                    r = z3.BoolVal(x in (UNDEF, NULL) and y in (UNDEF, NULL))
                else:
                    if loose and type(x) is not type(y) and not isinstance(x, O) and not isinstance(y, O):
                        raise Unsupported('== between different types', node)
                    r = self.eq1(x, y, node, fr)
                out.append(And(g, r))
        return Or(*out)

    def index_test(self, op, a, b):
        """s.indexOf(t) compared with 0 or -1, as a statement about prefixes."""
        if op in ('==',) and self.num_lit(a) is not None:
            a, b = b, a
        n, e = self.num_lit(b), a.e
        if n is None or e.decl().kind() != z3.Z3_OP_TO_REAL or e.arg(0).decl().kind() != z3.Z3_OP_SEQ_INDEX:
            return None
        s, t = e.arg(0).arg(0), e.arg(0).arg(1)
        if e.arg(0).num_args() > 2 and str(e.arg(0).arg(2)) != '0':
            return None
        if op == '==' and n == 0:
            return z3.PrefixOf(t, s)
        has = z3.Contains(s, t)
        if (op, n) in (('>=', 0), ('>', -1)):
            return has
        if (op, n) in (('<', 0), ('<=', -1), ('==', -1)):
            return Not(has)
        return None

    def num_lit(self, n):
        if isinstance(n, N) and z3.is_rational_value(n.e):
            f = n.e.as_fraction()
            return int(f) if f.denominator == 1 else float(f)
        return None

    def to_str(self, v, fr, node=None):
        def one(x):
            if isinstance(x, S):
                return x
            if x is UNDEF:
                return lit('undefined')
            if x is NULL:
                return lit('null')
            if isinstance(x, N):
                n = self.num_lit(x)
                if n is not None:
                    return lit(str(n))
                return self.numstr(x)
            if isinstance(x, B):
                if is_t(x.e) or is_f(x.e):
                    return lit('true' if is_t(x.e) else 'false')
                return mk_un([(x.e, lit('true')), (Not(x.e), lit('false'))])
            if isinstance(x, O):
                if x.tag in ('obj',):
                    return lit('[object Object]')
                return S(('t', ostr_f(x.term)))
            if isinstance(x, HArr):
                return self.join_arr(x, lit(','), fr, node)
            if isinstance(x, HUsp):
                return self.qs(x)
            if isinstance(x, HObj):
                m = self.get(x, 'toString', fr, node, quiet=True)
                if isinstance(m, Clo):
                    return self.to_str(self.call(m, x, [], fr, node), fr, node)
                return lit('[object Object]')
            return self.uns('string conversion of ' + type(x).__name__, node, fr)
        return self.map(v, fr, one)

    def numstr(self, n):
        t = numstr(n.e)
        k = ('numstr', t.get_id())
        if k not in self.w.qs_consts:
            self.w.qs_consts[k] = t
            self.ctx.fact(z3.And(t != z3.StringVal(''), urlsafe(t)))
        return S(('t', t))

    def concat(self, a, b, fr):
        """Concatenation of two (unions of) ropes."""
        ca, cb = self.ctx.cases(a, fr.act), self.ctx.cases(b, fr.act)
        out = []
        for ga, x in ca:
            for gb, y in cb:
                g = And(ga, gb)
                if len(ca) > 1 and len(cb) > 1 and not self.ctx.feasible(And(fr.act, g)):
                    continue
                out.append((g, S(*x.parts, *y.parts)))
        return mk_un(out)

    def qs(self, usp):
        items = []
        for g, k, v in usp.items:
            if not is_f(g):
                items.append((g, k, v))
        if not items:
            return S()
        return S(('qs', tuple(items)))

    # ---- property access --------------------------------------------------------
    def get(self, o, name, fr, node=None, quiet=False):
        def one(x):
            return self.get1(x, name, fr, node, quiet)
        return self.map(o, fr, one)

    def get1(self, x, name, fr, node, quiet=False):
        if x in (UNDEF, NULL):
            self.throw(fr, self.err('TypeError', f'cannot read {name}'))
            return UNDEF
        if isinstance(x, HObj):
            if name in x.fields:
                p, v = x.fields[name]
                p = p if not self.ctx.feasible(And(fr.act, Not(p))) else p
                if is_t(p):
                    return self.ctx.prune(v, fr.act) if isinstance(v, Un) else v
                # the unknown members of an answer are other ones
                import builtins_js as bj
                um = unmasked(x, name)
                return self.ctx.prune(mk_un([(p, v)] + [(And(Not(p), g), bj.opaque_prop(self, t, name)) for g, t in um]
                                            + [(And(Not(p), Not(Or(*[g for g, _ in um]))), UNDEF)]), fr.act)
            elif x.rests:
                import builtins_js as bj
                out = mk_un([(g, bj.opaque_prop(self, t, name)) for g, t in x.rests] + [(Not(Or(*[g for g, _ in x.rests])), UNDEF)])
                return self.ctx.prune(out, fr.act)
            c = x.cls
            if isinstance(c, ClassV):
                m = self.lookup_method(c, name, 'method')
                if m is not None:
                    return self.method_clo(m, x)
                gt = self.lookup_method(c, name, 'get')
                if gt is not None:
                    return self.call(self.method_clo(gt, x), x, [], fr, node)
            if isinstance(c, str) and c.startswith('$') and name == 'stack':
                return lit('stack')
            import builtins_js as bj
            if name in bj.PROTO and self.ctx.feasible(fr.act):
                return self.uns('member that is inherited', node, fr)
            return UNDEF
        import builtins_js as bj
        return bj.member(self, x, name, fr, node, quiet)

    def lookup_method(self, c, name, kind):
        while c is not None:
            for m in (c.node or {}).get('members', []):
                if m['kind'] == kind and not m.get('static') and m.get('key') == name:
                    return (c, m)
            c = c.parent
        return None

    def method_clo(self, cm, this):
        c, m = cm
        return Clo(m['fn'], c.env, this, cid=f'{c.name}.{m.get("key")}', home=c)

    def set(self, o, name, v, fr, node=None):
        for g, x in self.ctx.cases(o, fr.act):
            act0 = fr.act
            fr.act = And(act0, g)
            self.set1(x, name, v, fr, node)
            # a throw (write to null) removes its part
            after = fr.act
            fr.act = act0 if after.get_id() == And(act0, g).get_id() else Or(And(act0, Not(g)), after)

    def set1(self, x, name, v, fr, node):
        if x in (UNDEF, NULL):
            self.throw(fr, self.err('TypeError', f'cannot set {name}'))
            return
        if getattr(x, 'immutable', False):
            self.uns('write to a frozen object', node, fr)
            return
        if isinstance(x, HObj):
            c = x.cls
            if isinstance(c, ClassV):
                st = self.lookup_method(c, name, 'set')
                if st is not None:
                    self.call(self.method_clo(st, x), x, [v], fr, node)
                    return
            old = self.get1(x, name, fr, node) if name in x.fields else UNDEF
            if x.owner:
                try:
                    changed = Not(self.eq(old, v, fr))
                except Unsupported:
                    changed = TRUE
                present = x.fields[name][0] if name in x.fields else FALSE
                self.note_write(x, name, fr, Or(Not(present), changed) if not x.rests else TRUE)
            self.check_level(x.level, f'member {name}', node, fr)
            self.put(x, name, v, fr)
            return
        if isinstance(x, ClassV):
            x.statics.owner = 'module'
            x.statics.label = x.name
            self.set1(x.statics, name, v, fr, node)
            return
        self.uns(f'assignment to a member of {type(x).__name__}', node, fr)

    def put(self, x, name, v, fr):
        if name in x.fields:
            p, old = x.fields[name]
            if is_t(fr.act) or fr.act.get_id() == getattr(x, 'born', TRUE).get_id():
                x.fields[name] = [TRUE, v]
            else:
                nv = mk_un([(fr.act, v), (Not(fr.act), old)])
                x.fields[name] = [Or(p, fr.act), nv]
        else:
            born = getattr(x, 'born', TRUE)
            if fr.act.get_id() == born.get_id() or is_t(fr.act):
                x.fields[name] = [TRUE, v]
            else:
                x.fields[name] = [fr.act, v]

    # ---- calls ----------------------------------------------------------------
    def call(self, f, this, args, fr, node=None):
        def one(x):
            if isinstance(x, Clo):
                return self.call_clo(x, this if x.fn.get('arrow') is not True and x.this is None else x.this, args, fr, node)
            if isinstance(x, Nat):
                return x.f(self, this, args, fr, node)
            if x in (UNDEF, NULL) or isinstance(x, (S, N, B, HObj, HArr)):
                self.throw(fr, self.err('TypeError', 'not a function'))
                return UNDEF
            if isinstance(x, ClassV) and x.builtin:
                return x.builtin(self, None, args, fr, node)
            return self.uns('call of ' + type(x).__name__, node, fr)
        return self.map(f, fr, one)

    def contract_for(self, clo, args, this=UNDEF):
        cid = clo.cid
        if cid is None or clo.spec or cid == self.verifying:
            return None
        c = self.contracts.get(cid)
        if c is None:
            return None
        if isinstance(c.get('self'), str):
            p, v = this.fields.get(c['self'], (FALSE, UNDEF)) if isinstance(this, HObj) else (FALSE, UNDEF)
            if not is_t(p) or not isinstance(v, HObj):
                return None
        if len(args) != len(c['args']):
            if mentions_arguments(clo.fn):
                return None
            args = args[:len(c['args'])]     # the body cannot see how many there are
        if len(clo.fn['params']) != len(c['args']) or any(p['rest'] for p in clo.fn['params']):
            return None
        for a, (nm, shape) in zip(args, c['args']):
            if shape.get('path'):
                for _, x in alts(a):
                    if not isinstance(x, S):
                        return None
        for nm, shape in c['args'][len(args):]:
            if not shape.get('opt'):
                return None
        return c

    def call_clo(self, clo, this, args, fr, node):
        c = self.contract_for(clo, args, this)
        if c is not None and all(self.conforms(a, s, fr.act) for a, (n, s) in zip(args, c['args'])):
            self.used_contracts.add(clo.cid)
            a = self.obj()
            for i, (nm, _) in enumerate(c['args']):   # further arguments are ignored
                a.fields[nm] = [TRUE, args[i] if i < len(args) else UNDEF]
            spec = self.prog.spec(c['spec'])
            client0 = self.client
            if c.get('self') and isinstance(this, HObj):
                self.client = this if c['self'] == 1 else this.fields[c['self']][1]
            res = self.run_clo(spec, UNDEF, [a], fr, node, async_=clo.fn['async'])
            self.client = client0
            return res
        if not clo.spec:
            if clo.cid:
                self.used_functions.add(clo.cid)
        return self.run_clo(clo, this, args, fr, node, async_=clo.fn['async'])

    def conforms(self, v, shape, act):
        """The precondition of a contract: v has the shape, under the guard act."""
        for g, x in self.ctx.cases(v, act):
            if x is UNDEF and shape.get('opt') == 1:
                continue
            if not self.fits(x, shape, And(act, g)):
                return False
        return True

    def fits(self, x, sh, act):
        k = sh['k']
        if k == 'ref':
            return self.fits(x, {**self.w.shapes[sh['name']], 'opt': 0}, act)
        if k == 'or':
            return any(self.fits(x, a, act) for a in sh['a'])
        valid = lambda e: is_t(e) or self.ctx.check(act, Not(e)) == z3.unsat
        if k == 'str':
            return isinstance(x, S) and (not sh.get('ne') or valid(self.nonempty(x))) and (not sh.get('tok') or valid(urlsafe(self.term(x)))) \
                and not sh.get('seg') and not sh.get('hv') or (isinstance(x, S) and (sh.get('seg') or sh.get('hv')) and valid(self.nonempty(x)))
        if k == 'num':
            return isinstance(x, N) and (not sh.get('pos') or valid(x.e > 0))
        if k == 'bool':
            return isinstance(x, B)
        if k == 'false':
            return isinstance(x, B) and valid(Not(x.e))
        if k == 'null':
            return x is NULL
        if k == 'enum':
            return isinstance(x, S) and valid(Or(*[self.term(x) == z3.StringVal(e) for e in sh['v']]))
        if k == 'any' or k == 'entity':
            if k == 'entity' and isinstance(x, HForm):
                return True
            return (isinstance(x, (HArr, S, N, B)) or (isinstance(x, O) and x.tag in ('json', 'obj', 'arr')) or x is NULL
                    or (isinstance(x, HObj) and not isinstance(x.cls, ClassV)))
        if k == 'rec':
            return isinstance(x, O) and x.tag == 'obj' or isinstance(x, HObj) and not isinstance(x.cls, ClassV)
        if k in ('node', 'buf', 'blob'):
            return isinstance(x, O) and x.tag == k
        if k == 'hdrs':
            return isinstance(x, (HdrsIn, HHeaders, HdrObj, HObj))
        if k == 'init':
            return isinstance(x, HObj) and not x.rests and all(
                f in ('method', 'headers', 'body', 'idempotencyKey', 'batchValidation') for f, (p, _) in x.fields.items() if self.ctx.feasible(And(act, p)))
        if k == 'obj':
            if not isinstance(x, HObj) or x.rests or isinstance(x.cls, ClassV):
                return False
            for f, (p, y) in x.fields.items():
                if not self.ctx.feasible(And(act, p)):
                    continue
                if f not in sh['f'] or not self.conforms(y, sh['f'][f], And(act, p)):
                    return False
            return all(s.get('opt') or f in x.fields and valid(x.fields[f][0]) for f, s in sh['f'].items())
        if k == 'arr':
            if not isinstance(x, HArr):
                return False
            for s in x.segs:
                if isinstance(s, Elem):
                    if not self.conforms(s.value, sh['e'], And(act, s.guard)):
                        return False
                elif not all(self.conforms(y, sh['e'], And(act, s.src.inr(), g)) for g, y in s.items):
                    return False
            return True
        return False

    def mime(self, term, enc):
        name = 'mime' if enc == 'base64' else f'mime[{enc}]'
        key = (name, term.get_id())
        if key not in self.w.mime:
            self.w.qs_keep.append(term)
            self.w.mime[key] = True
        return self.w.inst({'k': 'ref', 'name': 'ParsedMime'}, name, (term,), 'resp')

    def run_clo(self, clo, this, args, fr, node, async_=False):
        k, d = id(clo.fn), self.depth
        n = self.active.get(k, 0)
        if d >= MAXDEPTH or n >= MAXSAME:
            raise Unsupported('recursion', node)
        self.depth, self.active[k] = d + 1, n + 1
        try:
            return self.run_body(clo, this, args, fr, node, async_)
        finally:
            self.depth, self.active[k] = d, n

    def run_body(self, clo, this, args, fr, node, async_):
        fn = clo.fn
        if fn.get('gen'):
            return self.uns('generator function', node, fr)
        env = Env(clo.env)
        f2 = Frame(fr.act, this, clo)
        if not fn.get('arrow'):
            env.vars['arguments'] = Cell(Spec('arguments', args=args), self.level)
        for i, p in enumerate(fn['params']):
            if p['rest']:
                self.bind(p['pat'], self.arr(args[i:]), env, f2)
            else:
                v = args[i] if i < len(args) else UNDEF
                self.bind_def(p['pat'], v, p['def'], env, f2)
            if p.get('prop') and isinstance(this, HObj):
                self.set1(this, p['pat']['name'], env.vars[p['pat']['name']].value, f2, node)
        if 'expr' in fn:
            v = self.ev(fn['expr'], env, f2)
            if self.ctx.feasible(f2.act):
                f2.rets.append((f2.act, v))
            f2.act = FALSE
        elif 'block' in fn:
            self.block(fn['block'], env, f2)
            if self.ctx.feasible(f2.act):
                f2.rets.append((f2.act, UNDEF))
        rets = [(g, v) for g, v in f2.rets if self.ctx.feasible(g)]
        rg = Or(*[g for g, _ in rets]) if rets else FALSE
        if len(rets) == 1:
            val = rets[0][1]
        else:
            val = mk_un(rets) if rets else UNDEF
        if async_:
            return self.promise(fr, rg, val, f2.throws)
        fr.throws.extend(f2.throws)
        if f2.throws or not rets:
            fr.act = rg
        return val

    def promise(self, fr, rg, val, throws):
        """A promise, flattened: the promises it resolves to are followed."""
        throws = list(throws)
        f3 = Frame(rg)
        if self.ctx.feasible(rg):
            val = self.settle(val, f3)
        throws += f3.throws
        p = HPromise(f3.act, val, throws, self.level)
        return p

    def settle(self, v, fr, node=None):
        """await: the value of a promise or thenable; rejections become throws."""
        def one(x):
            if isinstance(x, HPromise):
                act0 = fr.act
                for g, e in x.throws:
                    gg = And(act0, g)
                    if self.ctx.feasible(gg):
                        fr.throws.append((gg, e))
                if x.throws:
                    fr.act = And(act0, *[Not(g) for g, _ in x.throws])
                return x.value
            if isinstance(x, HObj):
                then = self.get1(x, 'then', fr, node)
                if isinstance(then, (Clo, Nat)):
                    box = {'v': [], 't': []}

                    def res(it, this, args, fr2, nd):
                        box['v'].append((fr2.act, args[0] if args else UNDEF))
                        return UNDEF

                    def rej(it, this, args, fr2, nd):
                        box['t'].append((fr2.act, args[0] if args else UNDEF))
                        return UNDEF
                    self.call(then, x, [Nat('resolve', res), Nat('reject', rej)], fr, node)
                    act0 = fr.act
                    for g, e in box['t']:
                        if self.ctx.feasible(And(act0, g)):
                            fr.throws.append((And(act0, g), e))
                    if not box['v']:
                        fr.act = FALSE
                        return UNDEF
                    fr.act = And(act0, Or(*[g for g, _ in box['v']]))
                    v2 = box['v'][0][1] if len(box['v']) == 1 else mk_un(box['v'])
                    return self.settle(v2, fr, node)
            return x
        return self.map(v, fr, one)

    def construct(self, f, args, fr, node=None):
        def one(c):
            if not isinstance(c, ClassV):
                if isinstance(c, Nat) and c.name.startswith('new:'):
                    return c.f(self, None, args, fr, node)
                return self.uns('new of ' + repr(c), node, fr)
            if c.builtin:
                return c.builtin(self, 'new', args, fr, node)
            o = HObj(self.level, cls=c)
            o.born = fr.act
            self.init_class(c, o, args, fr, node)
            return o
        return self.map(f, fr, one)

    def init_class(self, c, o, args, fr, node):
        self.used_functions.add(f'new {c.name}')
        ctor = next((m for m in c.node['members'] if m['kind'] == 'ctor'), None)
        if any(m['kind'] == 'unsupported' for m in c.node['members']):
            self.uns('class member', node, fr)
        if c.parent is not None or c.node.get('ext'):
            return self.uns('class with a superclass', node, fr)
        env = Env(c.env)
        f2 = Frame(fr.act, o)
        benv = Env(env)
        if ctor:
            for i, p in enumerate(ctor['fn']['params']):
                if p['rest']:
                    self.bind(p['pat'], self.arr(args[i:]), benv, f2)
                else:
                    self.bind_def(p['pat'], args[i] if i < len(args) else UNDEF, p['def'], benv, f2)
                if p.get('prop'):
                    self.set1(o, p['pat']['name'], benv.vars[p['pat']['name']].value, f2, node)
        for m in c.node['members']:
            if m['kind'] == 'field' and not m['static']:
                v = self.ev(m['init'], env, f2) if m['init'] else UNDEF
                self.set1(o, m['key'], v, f2, node)
        if ctor:
            self.depth += 1
            self.block(ctor['fn']['block'], benv, f2)
            self.depth -= 1
        fr.throws.extend(f2.throws)
        fr.act = Or(f2.act, *[g for g, _ in f2.rets])

    # ---- binding ----------------------------------------------------------------
    def bind_def(self, pat, v, dflt, env, fr):
        if dflt is not None:
            v = self.with_default(v, dflt, env, fr)
        self.bind(pat, v, env, fr)

    def with_default(self, v, dflt, env, fr):
        cs = self.ctx.cases(v, fr.act)
        u = Or(*[g for g, x in cs if x is UNDEF])
        if is_f(u):
            return v
        act0 = fr.act
        fr.act = And(act0, u)
        d = self.ev(dflt, env, fr)
        a1 = fr.act
        fr.act = self.join(act0, [(And(act0, u), a1), (And(act0, Not(u)),) * 2])
        return mk_un([(And(g), x) for g, x in cs if x is not UNDEF] + [(u, d)])

    def bind(self, pat, v, env, fr, assign=False):
        t = pat['t']
        if t == 'Id':
            if assign:
                self.assign_var(pat['name'], v, env, fr, pat)
            else:
                env.vars[pat['name']] = Cell(v, self.level, None, pat['name'])
        elif t == 'ObjPat':
            nul = self.nullish(v, fr)
            if not is_f(nul):
                self.throw(fr, self.err('TypeError', 'destructuring of undefined'), nul)
                v = self.ctx.prune(v, fr.act)
            taken = []
            for p in pat['props']:
                if 'rest' in p:
                    self.bind(p['rest'], self.rest_of(v, taken, fr, pat), env, fr, assign)
                    continue
                if 'computed' in p:
                    k = self.ev(p['computed'], env, fr)
                    k = k.lit() if isinstance(k, S) else None
                    if k is None:
                        self.uns('computed key in a pattern', pat, fr)
                        continue
                else:
                    k = p['key']
                taken.append(k)
                x = self.get(v, k, fr, pat)
                if p.get('def') is not None:
                    x = self.with_default(x, p['def'], env, fr)
                self.bind(p['value'], x, env, fr, assign)
        elif t == 'ArrPat':
            import builtins_js as bj
            for i, p in enumerate(pat['elems']):
                if p is None:
                    continue
                if p.get('rest'):
                    x = self.map(v, fr, lambda a: bj.arr_slice(self, a, i, fr, pat))
                else:
                    x = self.map(v, fr, lambda a: bj.arr_at(self, a, i, fr, pat))
                    if p.get('def') is not None:
                        x = self.with_default(x, p['def'], env, fr)
                self.bind(p['value'], x, env, fr, assign)
        elif assign and t in ('Mem', 'Idx'):
            self.assign_to(pat, v, env, fr)
        else:
            self.uns('pattern ' + t, pat, fr)

    def rest_of(self, v, taken, fr, node):
        def one(x):
            if isinstance(x, HObj):
                o = HObj(self.level)
                for k, (p, y) in x.fields.items():
                    if k not in taken:
                        o.fields[k] = [p, y]
                o.rests = list(x.rests)
                return o
            return self.uns('rest of ' + type(x).__name__, node, fr)
        return self.map(v, fr, one)

    def assign_var(self, name, v, env, fr, node):
        c = env.find(name)
        if c is None:
            return self.uns('assignment to unknown ' + name, node, fr)
        if c.owner == 'module':
            try:
                ch = Not(self.eq(c.value, v, fr))
            except Unsupported:
                ch = TRUE
            if self.ctx.feasible(And(fr.act, ch)):
                self.writes.append((And(fr.act, ch), 'module', name))
        if c.level < self.level and self.ctx.feasible(fr.act):
            self.check_level(c.level, f'variable {name}', node, fr)
        c.value = v if is_t(fr.act) else mk_un([(fr.act, v), (Not(fr.act), c.value)])

    def assign_to(self, to, v, env, fr):
        t = to['t']
        if t == 'Id':
            self.assign_var(to['name'], v, env, fr, to)
        elif t == 'Mem':
            self.set(self.ev(to['o'], env, fr), to['p'], v, fr, to)
        elif t == 'Idx':
            o = self.ev(to['o'], env, fr)
            k = self.ev(to['i'], env, fr)
            if isinstance(k, S) and k.lit() is not None:
                self.set(o, k.lit(), v, fr, to)
            else:
                import builtins_js as bj
                bj.set_index(self, o, k, v, fr, to)
        elif t in ('ObjPat', 'ArrPat'):
            self.bind(to, v, env, fr, assign=True)
        else:
            self.uns('assignment to ' + t, to, fr)

    # ---- statements ---------------------------------------------------------------
    def block(self, stmts, env, fr):
        for s in stmts:                       # hoisting
            if s['t'] == 'FnDecl':
                env.vars[s['name']] = Cell(Clo(s['fn'], env), self.level, None, s['name'])
            elif s['t'] == 'ClassDecl':
                env.vars[s['name']] = Cell(ClassV(s['cls'], env, s['name']), self.level, None, s['name'])
        for s in stmts:
            if is_f(fr.act):
                return
            self.st(s, env, fr)

    def st(self, s, env, fr):
        t = s['t']
        if t == 'Expr':
            self.ev(s['e'], env, fr)
        elif t == 'Var':
            if s.get('kind') == 'var':
                self.uns('var', s, fr)               # one variable per function, not per block
            for d in s['decls']:
                v = self.ev(d['init'], env, fr) if d['init'] else UNDEF
                self.bind(d['pat'], v, env, fr)
        elif t == 'Ret':
            v = self.ev(s['e'], env, fr) if s['e'] else UNDEF
            if not is_f(fr.act):
                fr.rets.append((fr.act, v))
            self.leave(fr, s, 'return')
        elif t == 'If':
            c = self.truthy(self.ev(s['c'], env, fr), fr)
            self.branch(fr, c, lambda: self.block1(s['a'], env, fr), (lambda: self.block1(s['b'], env, fr)) if s['b'] else None)
        elif t == 'Block':
            self.block(s['body'], Env(env), fr)
        elif t == 'Throw':
            v = self.ev(s['e'], env, fr)
            self.throw(fr, v)
        elif t == 'Try':
            self.try_(s, env, fr)
        elif t in ('ForOf', 'For', 'ForIn', 'While', 'Do'):
            import builtins_js as bj
            bj.loop(self, s, env, fr)
        elif t == 'Switch':
            self.switch(s, env, fr)
        elif t == 'Break':
            fr.brk[-1].append(fr.act)
            self.leave(fr, s, 'break')
        elif t == 'Continue':
            fr.cont[-1].append(fr.act)
            fr.act = FALSE
        elif t in ('FnDecl', 'ClassDecl'):
            pass
        else:
            self.uns(f'statement {t} {s.get("kind", "")} {s.get("text", "")}', s, fr)

    def leave(self, fr, node, what):
        if self.loops and fr.__dict__.get('loop_level', 0) < self.level and self.ctx.feasible(fr.act):
            # return or break out of a loop over an unbounded sequence
            if getattr(fr, 'base_level', None) is not None and fr.base_level < self.level:
                raise Unsupported(f'{what} inside a loop over an unbounded sequence', node)
        fr.act = FALSE

    def block1(self, s, env, fr):
        if s is None:
            return
        if s['t'] == 'Block':
            self.block(s['body'], Env(env), fr)
        else:
            self.st(s, Env(env), fr)

    def branch(self, fr, c, a, b):
        act0 = fr.act
        ga, gb = And(act0, c), And(act0, Not(c))
        fa, fb = self.ctx.feasible(ga), self.ctx.feasible(gb)
        if fa and not fb:
            a()
            return
        if fb and not fa:
            if b:
                b()
            return
        if not fa and not fb:
            fr.act = FALSE
            return
        fr.act = ga
        a()
        ea = fr.act
        fr.act = gb
        if b:
            b()
        fr.act = self.join(act0, [(ga, ea), (gb, fr.act)])

    def try_(self, s, env, fr):
        saved = fr.throws
        act0 = fr.act
        nr = len(fr.rets)
        fr.throws = []
        self.block(s['body'], Env(env), fr)
        caught = fr.throws
        fr.throws = saved
        end = fr.act
        if s['handler'] is not None:
            caught = [(g, e) for g, e in caught if self.ctx.feasible(g)]
            if caught:
                fr.act = Or(*[g for g, _ in caught])
                exc = caught[0][1] if len(caught) == 1 else mk_un(caught)
                env2 = Env(env)
                if s['fin'] is not None:
                    fr.throws = []
                if s['param']:
                    self.bind(s['param'], exc, env2, fr)
                self.block(s['handler'], env2, fr)
                if s['fin'] is not None:
                    pending = fr.throws
                    fr.throws = saved
                else:
                    pending = []
                end = Or(end, fr.act)
            else:
                pending = []
            fr.act = end
        else:
            pending = caught
        if s['fin'] is not None:
            live = fr.act
            fr.act = act0
            nr2 = len(fr.rets)
            self.block(s['fin'], Env(env), fr)
            if len(fr.rets) != nr2 or fr.act.get_id() != act0.get_id():
                self.uns('abrupt completion in finally', s, fr)
            fr.act = live
        fr.throws.extend(pending)

    def switch(self, s, env, fr):
        v = self.ev(s['e'], env, fr)
        env2 = Env(env)
        act0 = fr.act
        fr.brk.append([])
        matched, fall, dflt = FALSE, FALSE, None
        conds = []
        for c in s['cases']:
            if c['test'] is None:
                conds.append(None)
            else:
                t = self.ev(c['test'], env2, fr)
                e = And(self.eq(v, t, fr), Not(matched))
                conds.append(e)
                matched = Or(matched, e)
        none = Not(matched)
        cur = FALSE
        for c, cond in zip(s['cases'], conds):
            g = none if cond is None else cond
            fr.act = Or(cur, And(act0, g))
            if self.ctx.feasible(fr.act):
                self.block(c['body'], env2, fr)
            else:
                fr.act = FALSE
            cur = fr.act
        end = cur
        if not any(c is None for c in conds):
            end = Or(end, And(act0, none))
        brk = fr.brk.pop()
        fr.act = Or(end, *brk)

    # ---- expressions ----------------------------------------------------------------
    def ev(self, n, env, fr):
        if is_f(fr.act):
            return UNDEF
        return getattr(self, 'e_' + n['t'], self.e_unknown)(n, env, fr)

    def e_unknown(self, n, env, fr):
        return self.uns(f'expression {n["t"]} {n.get("kind", "")} {n.get("text", "")}', n, fr)

    def e_Num(self, n, env, fr):
        return N(z3.RealVal(n['v']))

    def e_Str(self, n, env, fr):
        return lit(n['v'])

    def e_Bool(self, n, env, fr):
        return B(n['v'])

    def e_Null(self, n, env, fr):
        return NULL

    def e_This(self, n, env, fr):
        return fr.this if fr.this is not None else UNDEF

    def e_Regex(self, n, env, fr):
        return Spec('regex', src=n['src'], flags=n['flags'])

    def e_Id(self, n, env, fr):
        name = n['name']
        c = env.find(name)
        if c is not None:
            return self.ctx.prune(c.value, fr.act)
        if name == 'undefined':
            return UNDEF
        if name == 'process':
            self.throw(fr, self.err('ReferenceError', 'process is not defined'), Not(self.w.proc_def))
            return Spec('process')
        import builtins_js as bj
        v = bj.glob(self, name)
        if v is None:
            return self.uns('unknown identifier ' + name, n, fr)
        return v

    def e_Tpl(self, n, env, fr):
        out = lit(n['head'])
        for s in n['spans']:
            v = self.to_str(self.ev(s['e'], env, fr), fr, n)
            if is_f(fr.act):
                return UNDEF
            out = self.concat(out, v, fr)
            if s['s']:
                out = self.concat(out, lit(s['s']), fr)
        return out

    def e_Arr(self, n, env, fr):
        a = HArr(self.level)
        a.born = fr.act
        import builtins_js as bj
        for e in n['elems']:
            if 'spread' in e:
                v = self.ev(e['spread'], env, fr)
                bj.append_all(self, a, v, fr, n)
            else:
                a.segs.append(Elem(TRUE, self.ev(e['e'], env, fr)))
        return a

    def e_Obj(self, n, env, fr):
        o = HObj(self.level)
        o.born = fr.act
        hdrs = []                       # header collections spread so far, and what was added to them
        for p in n['props']:
            if 'spread' in p:
                v = self.ev(p['spread'], env, fr)
                if hdrs or any(isinstance(x, HdrObj) for _, x in self.ctx.cases(v, fr.act)):
                    if not hdrs:
                        hdrs = self.header_object(o, fr, n)
                    for g, x in self.ctx.cases(v, fr.act):
                        if isinstance(x, HdrObj):
                            hdrs.append(('merge', g, x.layers))
                        elif isinstance(x, HObj):
                            hdrs += [(l[0], And(g, l[1]), *l[2:]) for l in self.header_object(x, fr, n)]
                        elif x not in (UNDEF, NULL):
                            raise Unsupported('spread into an object of headers', n)
                    continue
                self.spread_into(o, v, fr, n)
                continue
            if 'computed' in p:
                k = self.to_str(self.ev(p['computed'], env, fr), fr, n)
                kk = k.lit() if isinstance(k, S) else None
                if kk is None:
                    self.uns('computed key', n, fr)
                    continue
            else:
                kk = p['key']
            v = self.ev(p['value'], env, fr)
            if isinstance(v, Clo) and v.this is None and p['value']['t'] == 'Fn' and not p['value'].get('arrow'):
                pass
            if hdrs:
                t = HObj(self.level)
                t.fields = {kk: [TRUE, v]}
                hdrs += self.header_object(t, fr, n)
                continue
            o.fields.pop(kk, None)
            o.fields[kk] = [TRUE, v]
        return HdrObj(hdrs) if hdrs else o

    def header_object(self, o, fr, node):
        """The members of an object that is read as headers later."""
        if o.rests or any(k != k.lower() for k in o.fields) or any(
                not isinstance(x, S) for p, v in o.fields.values() for _, x in self.ctx.cases(v, And(fr.act, p))):
            raise Unsupported('an object of headers with other members', node)
        import builtins_js as bj
        return bj.header_layers(self, o, fr, node)

    def spread_into(self, o, v, fr, node, act=None):
        """Object.assign(o, v) for a fresh o; v may be a union."""
        for g, x in self.ctx.cases(v, fr.act):
            if x in (UNDEF, NULL) or isinstance(x, (B, N)):
                continue
            if isinstance(x, HObj):
                for k, (p, y) in x.fields.items():
                    pg = And(g, p)
                    if is_f(pg):
                        continue
                    if not is_t(pg) and isinstance(y, Un) is False and False:
                        pass
                    if k in o.fields:
                        p0, y0 = o.fields[k]
                        if is_t(pg):
                            o.fields[k] = [TRUE, y]
                        else:
                            o.fields[k] = [Or(p0, pg), mk_un([(pg, y), (Not(pg), y0)])]
                    else:
                        if x.rests and False:
                            pass
                        o.fields[k] = [pg, y]
                for rg, t in x.rests:
                    if o.fields and any(kk not in x.fields for kk in o.fields):
                        self.uns('spread of an object with unknown members over known ones', node, fr)
                    if any(self.ctx.feasible(And(fr.act, g, rg, h)) for h, _ in o.rests):
                        self.uns('spread of several opaque objects', node, fr)
                    o.rests.append((And(g, rg), t))
            elif isinstance(x, O) and x.tag in ('obj',):
                if o.fields:
                    self.uns('spread of an opaque object over known members', node, fr)
                if any(self.ctx.feasible(And(fr.act, g, h)) for h, _ in o.rests):
                    self.uns('spread of several opaque objects', node, fr)
                o.rests.append((g, x.term))
            elif isinstance(x, Spec) and x.kind == 'env':
                self.uns('spread of the environment', node, fr)
            else:
                self.uns('spread of ' + repr(x)[:60], node, fr)

    def e_Fn(self, n, env, fr):
        if n.get('arrow'):
            return Clo(n, env, fr.this if fr.this is not None else UNDEF)
        return Clo(n, env)

    def e_Class(self, n, env, fr):
        return ClassV(n, env, n['name'] or 'anonymous')

    def e_Chain(self, n, env, fr):
        fr.shorts.append([])
        v = self.ev(n['e'], env, fr)
        sh = fr.shorts.pop()
        if not sh:
            return v
        s = Or(*sh)
        live = fr.act
        fr.act = Or(live, s)
        return mk_un([(live, v), (s, UNDEF)]) if not is_f(live) else UNDEF

    def short(self, v, fr):
        """?. on v: where it is nullish the chain ends."""
        nul = self.nullish(v, fr)
        if is_f(nul):
            return v
        g = And(fr.act, nul)
        fr.shorts[-1].append(g)
        fr.act = And(fr.act, Not(nul))
        if not self.ctx.feasible(fr.act):
            fr.act = FALSE
            return UNDEF
        return self.ctx.prune(v, fr.act)

    def e_Mem(self, n, env, fr):
        o = self.ev(n['o'], env, fr)
        if n.get('opt'):
            o = self.short(o, fr)
        if is_f(fr.act):
            return UNDEF
        return self.get(o, n['p'], fr, n)

    def e_Idx(self, n, env, fr):
        o = self.ev(n['o'], env, fr)
        if n.get('opt'):
            o = self.short(o, fr)
        k = self.ev(n['i'], env, fr)
        if is_f(fr.act):
            return UNDEF
        if isinstance(k, S) and k.lit() is not None:
            return self.get(o, k.lit(), fr, n)
        import builtins_js as bj
        return bj.index(self, o, k, fr, n)

    def e_Call(self, n, env, fr):
        f = n['f']
        this = UNDEF
        if f['t'] == 'Chain' and False:
            pass
        if f['t'] == 'Mem':
            o = self.ev(f['o'], env, fr)
            if f.get('opt'):
                o = self.short(o, fr)
            if is_f(fr.act):
                return UNDEF
            this = o
            if isinstance(o, Un):
                # one call per alternative of the receiver
                args_box = []

                def one(x):
                    fn = self.get1(x, f['p'], fr, n)
                    if n.get('opt'):
                        fn = self.short(fn, fr)
                    if is_f(fr.act):
                        return UNDEF
                    return self.call(fn, x, self.args(n, env, fr), fr, n)
                return self.map(o, fr, one)
            fn = self.get(o, f['p'], fr, n)
        elif f['t'] == 'Idx':
            this = self.ev(f['o'], env, fr)
            k = self.ev(f['i'], env, fr)
            if not (isinstance(k, S) and k.lit() is not None):
                return self.uns('computed method call', n, fr)
            fn = self.get(this, k.lit(), fr, n)
        elif f['t'] == 'Super':
            return self.uns('super', n, fr)
        else:
            fn = self.ev(f, env, fr)
        if n.get('opt'):
            fn = self.short(fn, fr)
        if is_f(fr.act):
            return UNDEF
        if isinstance(this, HArr) and isinstance(fn, Nat) and fn.name == 'push' and any('spread' in a for a in n['args']):
            vs = [('spread' in a, self.ev(a['spread'] if 'spread' in a else a['e'], env, fr)) for a in n['args']]
            if is_f(fr.act):
                return UNDEF
            import builtins_js as bj
            if any(sp and v is this for sp, v in vs):
                return self.uns('spread argument', n, fr)
            for sp, v in vs:
                if sp:
                    bj.append_all(self, this, v, fr, n)
                else:
                    bj.push(self, this, v, fr, n)
            return bj._NoIndex()
        args = self.args(n, env, fr)
        if is_f(fr.act):
            return UNDEF
        return self.call(fn, this, args, fr, n)

    def args(self, n, env, fr):
        out = []
        for a in n['args']:
            if 'spread' in a:
                v = self.ev(a['spread'], env, fr)
                if isinstance(v, Spec) and v.kind == 'arguments':
                    out.extend(v.args)
                elif isinstance(v, HArr) and all(isinstance(s, Elem) and is_t(s.guard) for s in v.segs):
                    out.extend(s.value for s in v.segs)
                else:
                    self.uns('spread argument', n, fr)
            else:
                out.append(self.ev(a['e'], env, fr))
        return out

    def e_New(self, n, env, fr):
        f = self.ev(n['f'], env, fr)
        args = self.args(n, env, fr)
        if is_f(fr.act):
            return UNDEF
        return self.construct(f, args, fr, n)

    def e_Cond(self, n, env, fr):
        c = self.truthy(self.ev(n['c'], env, fr), fr)
        out = {}

        def a():
            out['a'] = self.ev(n['a'], env, fr)

        def b():
            out['b'] = self.ev(n['b'], env, fr)
        self.branch(fr, c, a, b)
        if 'a' in out and 'b' in out:
            return mk_un([(c, out['a']), (Not(c), out['b'])])
        return out.get('a', out.get('b', UNDEF))

    def e_Logic(self, n, env, fr):
        a = self.ev(n['a'], env, fr)
        if is_f(fr.act):
            return UNDEF
        op = n['op']
        if op == '??':
            c = self.nullish(a, fr)
        else:
            c = self.truthy(a, fr)
            if op == '||':
                c = Not(c)
        out = {}

        def right():
            out['b'] = self.ev(n['b'], env, fr)
        act0 = fr.act
        keep = self.ctx.feasible(And(act0, Not(c)))
        if not keep:
            return self.ev(n['b'], env, fr)
        self.branch(fr, c, right, None)
        if 'b' not in out:
            return a
        left = mk_un([(And(Not(c), g), x) for g, x in alts(a)])
        # drop alternatives of the left operand excluded by its own truth value
        left = mk_un([(g, x) for g, x in alts(left) if self.ctx.feasible(And(act0, g))])
        return mk_un([(Not(c), left), (c, out['b'])])

    def e_Await(self, n, env, fr):
        v = self.ev(n['e'], env, fr)
        if is_f(fr.act):
            return UNDEF
        return self.settle(v, fr, n)

    def e_TypeOf(self, n, env, fr):
        e = n['e']
        if e['t'] == 'Id' and env.find(e['name']) is None:
            if e['name'] == 'process':
                return mk_un([(self.w.proc_def, lit('object')), (Not(self.w.proc_def), lit('undefined'))])
            import builtins_js as bj
            if e['name'] != 'undefined' and bj.glob(self, e['name']) is None:
                return lit('undefined') if e['name'] in ('window', 'document', 'Deno', 'Bun', 'self') else self.uns('typeof ' + e['name'], n, fr)
        return self.typeof(self.ev(e, env, fr), fr, n)

    def e_Void(self, n, env, fr):
        self.ev(n['e'], env, fr)
        return UNDEF

    def e_Un(self, n, env, fr):
        v = self.ev(n['e'], env, fr)
        if n['op'] == '!':
            return B(Not(self.truthy(v, fr)))

        def num(x):
            if isinstance(x, N):
                return x
            if isinstance(x, B):
                return N(Ite(x.e, z3.RealVal(1), z3.RealVal(0)))
            return self.uns('number conversion', n, fr)
        v = self.map(v, fr, num)
        if not isinstance(v, N):
            return self.uns('unary ' + n['op'], n, fr)
        if n['op'] == '-':
            return N(z3.simplify(-v.e))
        if n['op'] == '+':
            return v
        return self.uns('unary ' + n['op'], n, fr)

    def e_Upd(self, n, env, fr):
        if n['e']['t'] != 'Id':
            return self.uns('++ on a member', n, fr)
        v = self.ev(n['e'], env, fr)
        if not isinstance(v, N):
            return self.uns('++', n, fr)
        if not whole(v.e):
            return self.uns('++ of a number that need not be whole', n, fr)
        nv = N(z3.simplify(v.e + (1 if n['op'] == '++' else -1)))
        self.assign_to(n['e'], nv, env, fr)
        return nv if n['prefix'] else v

    def e_Seq(self, n, env, fr):
        self.ev(n['a'], env, fr)
        return self.ev(n['b'], env, fr)

    def e_Delete(self, n, env, fr):
        e = n['e']
        if e['t'] == 'Chain':
            e = e['e']
        if e['t'] not in ('Mem', 'Idx'):
            return self.uns('delete', n, fr)
        o = self.ev(e['o'], env, fr)
        if e['t'] == 'Mem':
            k = e['p']
        else:
            kv = self.ev(e['i'], env, fr)
            k = kv.lit() if isinstance(kv, S) else None
            if k is None:
                return self.uns('delete of a computed key', n, fr)
        for g, x in self.ctx.cases(o, fr.act):
            if not isinstance(x, HObj):
                self.uns('delete on ' + type(x).__name__, n, fr)
                continue
            if unmasked(x, k):
                self.uns('delete of an unknown member', n, fr)
                continue
            if k in x.fields:
                p, v = x.fields[k]
                a = And(fr.act, g)
                self.note_write(x, k, fr, And(g, p))
                self.check_level(x.level, f'member {k}', n, fr)
                born = getattr(x, 'born', TRUE)
                x.fields[k] = [FALSE if a.get_id() == born.get_id() else And(p, Not(a)), v]
        return B(True)

    def e_In(self, n, env, fr):
        k = self.to_str(self.ev(n['a'], env, fr), fr, n)
        o = self.ev(n['b'], env, fr)
        kk = k.lit() if isinstance(k, S) else None
        if kk is None:
            return self.uns('in with a computed key', n, fr)

        def one(x):
            if isinstance(x, HObj):
                um = unmasked(x, kk)
                if kk in x.fields or um:
                    p = x.fields[kk][0] if kk in x.fields else FALSE
                    return B(Or(p, *[And(Not(p), g, has_f(t, kk)) for g, t in um]))
                if isinstance(x.cls, ClassV) and self.lookup_method(x.cls, kk, 'method'):
                    return B(True)
                return B(False)
            if isinstance(x, O) and x.tag in ('obj', 'json'):
                return B(z3.Function('has.' + kk, U, z3.BoolSort())(x.term))
            if x in (UNDEF, NULL) or isinstance(x, (S, N, B)):
                self.throw(fr, self.err('TypeError', 'in on a primitive'))
                return UNDEF
            return self.uns('in on ' + type(x).__name__, n, fr)
        return self.map(o, fr, one)

    def e_InstanceOf(self, n, env, fr):
        a = self.ev(n['a'], env, fr)
        c = self.ev(n['b'], env, fr)
        import builtins_js as bj
        return self.map(a, fr, lambda x: B(bj.instance_of(self, x, c, fr, n)))

    def e_Bin(self, n, env, fr):
        a = self.ev(n['a'], env, fr)
        b = self.ev(n['b'], env, fr)
        if is_f(fr.act):
            return UNDEF
        op = n['op']
        if op in ('===', '!==', '==', '!='):
            e = self.eq(a, b, fr, n, loose=op in ('==', '!='))
            return B(e if op in ('===', '==') else Not(e))
        if op == '+':
            def plus(x, y):
                if isinstance(x, N) and isinstance(y, N):
                    return N(z3.simplify(x.e + y.e)) if whole(x.e) and whole(y.e) else self.uns('+ of numbers that need not be whole', n, fr)
                if isinstance(x, S) or isinstance(y, S):
                    return self.concat(self.to_str(x, fr, n), self.to_str(y, fr, n), fr)
                return self.uns('+', n, fr)
            return self.map(a, fr, lambda x: self.map(b, fr, lambda y: plus(x, y)))
        def num(x):
            if isinstance(x, N):
                return x
            return self.uns(f'{op} on {type(x).__name__}', n, fr)
        def cmp(x, y):
            x, y = num(x), num(y)
            if not isinstance(x, N) or not isinstance(y, N):
                return B(False)
            if op in ('<', '>', '<=', '>='):
                e = self.index_test(op, x, y)
                if e is not None:
                    return B(e)
                e = {'<': x.e < y.e, '>': x.e > y.e, '<=': x.e <= y.e, '>=': x.e >= y.e}[op]
                return B(z3.simplify(e))
            if not whole(x.e) or not whole(y.e):
                return self.uns(f'{op} of numbers that need not be whole', n, fr)
            if op == '-':
                return N(z3.simplify(x.e - y.e))
            if op == '*' and (z3.is_rational_value(x.e) or z3.is_rational_value(y.e)):
                return N(z3.simplify(x.e * y.e))
            return self.uns(op, n, fr)
        return self.map(a, fr, lambda x: self.map(b, fr, lambda y: cmp(x, y)))

    def e_Assign(self, n, env, fr):
        op = n['op']
        if op == '=':
            v = self.ev(n['e'], env, fr)
            if is_f(fr.act):
                return UNDEF
            self.assign_to(n['to'], v, env, fr)
            return v
        if op in ('&&=', '||=', '??='):
            cur = self.ev(n['to'], env, fr)
            c = self.nullish(cur, fr) if op == '??=' else self.truthy(cur, fr)
            if op == '||=':
                c = Not(c)
            out = {}

            def go():
                out['v'] = self.ev(n['e'], env, fr)
                if not is_f(fr.act):
                    self.assign_to(n['to'], out['v'], env, fr)
            self.branch(fr, c, go, None)
            return mk_un([(c, out['v']), (Not(c), cur)]) if 'v' in out else cur
        v = self.e_Bin({'t': 'Bin', 'op': op[0], 'a': n['to'], 'b': n['e'], 'l': n['l']}, env, fr)
        if is_f(fr.act):
            return UNDEF
        self.assign_to(n['to'], v, env, fr)
        return v

    def e_ImportCall(self, n, env, fr):
        m = self.ev(n['arg'], env, fr)
        name = m.lit() if isinstance(m, S) else None
        if name is None:
            return self.uns('dynamic import', n, fr)
        if name == '@react-email/render':
            self.externs.add(name)
            ok = self.w.import_ok
            mod = self.prog.extern(self, name)
            return HPromise(And(fr.act, ok), mod, [(And(fr.act, Not(ok)), self.err('Error', 'cannot find module'))], self.level)
        return self.uns('dynamic import of ' + name, n, fr)

    # ---- unbounded sequences ---------------------------------------------------------
    def for_each(self, arr, fr, body, node, accs=()):
        """Run body(value) for every element of arr, in order. Over an unbounded
        segment: once, for an arbitrary index, with the effects summarised."""
        for seg in list(arr.segs):
            if is_f(fr.act):
                return
            if isinstance(seg, Elem):
                act0 = fr.act
                g = And(act0, seg.guard)
                if not self.ctx.feasible(g):
                    continue
                fr.act = g
                body(seg.value)
                if not is_t(seg.guard) and self.ctx.feasible(And(act0, Not(seg.guard))):
                    fr.act = self.join(act0, [(g, fr.act), (And(act0, Not(seg.guard)),) * 2])
                elif fr.act.get_id() == g.get_id():
                    fr.act = act0
            else:
                self.generic(seg, fr, body, node, accs)

    def generic(self, seg, fr, body, node, accs=()):
        if not hasattr(seg, 'src'):
            raise Unsupported('use of a sequence while a loop extends it', node)
        src = seg.src
        act0 = fr.act
        inr = src.inr()
        if not self.ctx.feasible(And(act0, inr)):
            return
        saved, fr.throws = fr.throws, []
        base = getattr(fr, 'base_level', None)
        fr.base_level = self.level
        lc = enter(src, self.level, node)
        accs = [self.acc_open(c, how, src, seg, node) for c, how in accs]
        self.loops.append(lc)
        LOOPS.append(lc)
        nrets = len(fr.rets)
        end = FALSE
        try:
            for g, v in seg.items:
                gg = And(act0, inr, g)
                if not self.ctx.feasible(gg):
                    continue
                fr.act = gg
                body(v)
                end = Or(end, fr.act)
        finally:
            self.loops.pop()
            LOOPS.pop()
            fr.base_level = base
        throws, fr.throws = fr.throws, saved
        if len(fr.rets) != nrets and any(self.ctx.feasible(g) for g, _ in fr.rets[nrets:]):
            raise Unsupported('return inside a loop over an unbounded sequence', node)
        fr.act = act0
        for a in accs:
            self.acc_close(a, src, act0, inr, end, lc, fr, node)
        self.loop_throws(src, throws, fr, lc)
        if fr.act.get_id() != act0.get_id():
            for a in accs:                    # not tracked when the loop was left by a throw
                c = a['cell']
                c.value = mk_un([(fr.act, c.value), (Not(fr.act), Spec('untracked'))])

    # Variables of the enclosing code a loop body assigns: the loop invariant is
    # found from the shape of the update and checked on the generic iteration.
    def acc_open(self, cell, how, src, seg, node):
        v, a = cell.value, {'cell': cell, 'level': cell.level, 'v': cell.value}
        if isinstance(v, HArr) and not v.owner and v.level == self.level:
            # items are appended: value at entry ++ one group per earlier index
            a['kind'] = 'arr'
            p = HArr(self.level + 1, [Prefix()])
            a['p'], a['segs'] = p, v.segs
            v.segs, v.frozen = [Prefix()], True
            cell.value = p
        elif isinstance(v, N) and len(seg.items) == 1 and is_t(seg.items[0][0]) and not isinstance(src, HSrc):
            a['kind'] = 'count'
            n = z3.ToReal(src.idx)
            a['at'] = n if self.num_lit(v) == 0 else v.e + n
            self.w.qs_keep.append(a['at'])
            cell.value = N(a['at'])
        elif isinstance(v, B) and how == 'written' and not isinstance(src, HSrc):
            a['kind'] = 'flag'
            a['f'] = self.ctx.fresh('flag', z3.BoolSort())
            cell.value = B(a['f'])
        else:
            raise Unsupported(f'assignment to {cell.name} in a loop over an unbounded sequence', node)
        cell.level = self.level + 1
        return a

    def acc_close(self, a, src, act0, inr, end, lc, fr, node):
        cell, kind = a['cell'], a['kind']
        new, cell.level = cell.value, a['level']
        body = And(act0, inr)
        bad = Unsupported(f'assignment to {cell.name} in a loop over an unbounded sequence', node)
        if kind == 'arr':
            a['v'].segs, a['v'].frozen = a['segs'], False
            if len(a['p'].segs) != 1:
                raise bad
            items = []
            for g, x in self.ctx.cases(new, body):
                if not isinstance(x, HArr) or not x.segs or x.segs[0] is not a['p'].segs[0] or not all(isinstance(s, Elem) for s in x.segs[1:]):
                    raise bad
                items += [(And(body, g, s.guard), s.value) for s in x.segs[1:]]
            out = HArr(self.level, list(a['segs']) + ([Loop(src, items, lc)] if items else []))
            out.born = getattr(a['v'], 'born', TRUE)
            cell.value = out
        elif kind == 'count':
            for g, x in self.ctx.cases(new, end):
                if not isinstance(x, N) or self.ctx.check(end, g, x.e != a['at'] + 1) != z3.unsat:
                    raise bad
            n = z3.ToReal(src.len)
            cell.value = N(n if self.num_lit(a['v']) == 0 else a['v'].e + n)
        else:
            if not isinstance(new, B):
                raise bad
            f = a['f']
            up, down = z3.substitute(new.e, (f, TRUE)), z3.substitute(new.e, (f, FALSE))
            if self.ctx.check(body, z3.Not(up)) == z3.unsat:
                cell.value = B(Or(a['v'].e, self.exists(src, And(body, down))))
            elif self.ctx.check(body, down) == z3.unsat:
                cell.value = B(And(a['v'].e, Not(self.exists(src, And(body, Not(up))))))
            else:
                raise bad

    def exists(self, src, T, first=False):
        """A boolean that says whether T holds for some index of src (and the
        first such index), related to every other such question about src."""
        if is_f(T):
            return (FALSE, None) if first else FALSE
        X = self.ctx.fresh('exists', z3.BoolSort())
        w = self.ctx.fresh('first', z3.IntSort())
        i = src.idx
        at = lambda e, t: z3.substitute(e, (i, t))
        f = self.ctx.fact
        if isinstance(src, HSrc):
            raise Unsupported('a search through headers')
        f(z3.Implies(X, z3.And(src.inr(w), at(T, w))))
        f(z3.Implies(z3.Not(X), z3.Implies(src.inr(), z3.Not(T))))
        f(z3.Implies(z3.And(X, src.inr(), i < w), z3.Not(T)))
        reg = self.w.loop_regs.setdefault(src.key(), [])
        for X2, T2, w2 in reg:
            f(z3.Implies(z3.Not(X), z3.Implies(src.inr(w2), z3.Not(at(T, w2)))))
            f(z3.Implies(z3.Not(X2), z3.Implies(src.inr(w), z3.Not(at(T2, w)))))
            f(z3.Implies(z3.And(X, src.inr(w2), w2 < w), z3.Not(at(T, w2))))
            f(z3.Implies(z3.And(X2, src.inr(w), w < w2), z3.Not(at(T2, w))))
        reg.append((X, T, w))
        return (X, w) if first else X

    def loop_throws(self, src, throws, fr, lc):
        throws = [(g, e) for g, e in throws if self.ctx.feasible(g)]
        if not throws:
            return
        T = Or(*[g for g, _ in throws])
        exc = throws[0][1] if len(throws) == 1 else mk_un(throws)
        X, w = self.exists(src, T, first=True)
        fr.throws.append((And(fr.act, X), subst(exc, [(src.idx, w)])))
        for seg in {id(s): s for s in lc.pushed}.values():      # what was appended before the throw
            seg.items = [(And(g, Or(Not(X), src.idx <= w)), v) for g, v in seg.items]
        fr.act = And(fr.act, Not(X))

    def join_arr(self, x, sep, fr, node):
        sl = sep.lit() if isinstance(sep, S) else None
        if sl is None:
            return self.uns('join with a computed separator', node, fr)
        if all(isinstance(s, Elem) for s in x.segs):
            items = []
            for s in x.segs:
                for g, v in self.ctx.cases(s.value, And(fr.act, s.guard)):
                    t = lit('') if v in (UNDEF, NULL) else self.to_str(v, fr, node)
                    for g2, t2 in alts(t):
                        items.append((And(s.guard, g, g2), t2))
            items = [(TRUE if not self.ctx.feasible(And(fr.act, Not(g))) else g, t) for g, t in items if self.ctx.feasible(And(fr.act, g))]
            if not all(is_t(g) for g, _ in items) and all(is_t(s.guard) for s in x.segs):
                n = 1
                cs = [self.ctx.cases(s.value, fr.act) for s in x.segs]
                for c in cs:
                    n *= len(c)
                if n <= 24:
                    out = lit('')
                    for i, s in enumerate(x.segs):
                        v = self.map(s.value, fr, lambda v: lit('') if v in (UNDEF, NULL) else self.to_str(v, fr, node))
                        out = self.concat(self.concat(out, lit(sl if i else ''), fr), v, fr)
                    return self.ctx.prune(out, fr.act)
            if all(is_t(g) for g, _ in items):
                parts = []
                for i, (_, t) in enumerate(items):
                    if i:
                        parts.append(('lit', sl))
                    parts.extend(t.parts)
                return S(*parts)
            if sl != '&' and len(x.segs) <= 4:
                states = [(TRUE, lit(''), False)]           # by which items are present
                for s in x.segs:
                    g = TRUE if not self.ctx.feasible(And(fr.act, Not(s.guard))) else s.guard
                    v = self.map(s.value, fr, lambda v: lit('') if v in (UNDEF, NULL) else self.to_str(v, fr, node))
                    states = [(And(h, k), t, f) for h, t, f in states for k, t, f in
                              ((g, self.concat(self.concat(t, lit(sl if f else ''), fr), v, fr), True), (Not(g), t, f))
                              if self.ctx.feasible(And(fr.act, h, k))]
                return self.ctx.prune(mk_un([(h, t) for h, t, _ in states]), fr.act)
            return S(('join', sl, tuple(items)))
        key = ('joina', sl, seqkey(x.segs))
        if key not in self.w.qs_consts:
            c = self.ctx.fresh('joined', STR)
            self.w.qs_consts[key] = c
            self.w.qs_keep.append(x.segs)
            src, item = None, None
            if len(x.segs) == 1 and len(x.segs[0].items) == 1:
                src, item = x.segs[0].src, x.segs[0].items[0]
            if src is not None and not isinstance(src, HSrc):
                self.ctx.fact(z3.Implies(c != z3.StringVal(''), src.len > 0))
                v = item[1]
                if isinstance(v, S) and self.ctx.check(src.inr(), z3.Not(And(item[0], self.nonempty(v)))) == z3.unsat:
                    self.ctx.fact(z3.Implies(src.len > 0, c != z3.StringVal('')))
                if sl and self.ctx.check(src.inr(), z3.Not(item[0])) == z3.unsat:
                    self.ctx.fact(z3.Implies(src.len > 1, c != z3.StringVal('')))
        return S(('joina', key, self.w.qs_consts[key]))

    # ---- what a request is ------------------------------------------------------------
    def canon_fetch(self, url, init, fr, node):
        """The request fetch(url, init) makes, as the contracts describe one."""
        import builtins_js as bj
        url = self.to_str(url, fr, node)

        def fld(name):
            out = []
            for g, x in self.ctx.cases(init, fr.act):
                if x in (UNDEF, NULL):
                    out.append((g, UNDEF))
                elif isinstance(x, HObj):
                    out.append((g, self.get1(x, name, fr, node)))
                else:
                    self.uns('request options of an unknown kind', node, fr)
            return mk_un(out)
        method = fld('method')
        method = mk_un([(g, lit('GET') if x is UNDEF else x) for g, x in alts(method)])
        layers = bj.header_layers(self, fld('headers'), fr, node)
        body = snapshot(fld('body'))
        body = mk_un([(g, UNDEF if x is NULL else x) for g, x in alts(body)])
        extra = []
        for g, x in self.ctx.cases(init, fr.act):
            if isinstance(x, HObj):
                if x.rests:
                    self.uns('request options with unknown members', node, fr)
                for k, (p, v) in x.fields.items():
                    if k in FETCH_KEYS:
                        for g2, y in self.ctx.cases(v, fr.act):
                            if y is not UNDEF:
                                extra.append((And(g, p, g2), k))
        return Req(method, url, layers, body, extra)

    # ---- network -------------------------------------------------------------------
    def request(self, fr, **kw):
        """A request now: returns its number as guarded alternatives."""
        act = fr.act
        dist = {0: TRUE}
        for e in self.events:
            nd = {}
            for k, g in dist.items():
                a, b = And(g, Not(e.guard)), And(g, e.guard)
                if self.ctx.feasible(And(act, a)):
                    nd[k] = Or(nd.get(k, FALSE), a)
                if self.ctx.feasible(And(act, b)):
                    nd[k + 1] = Or(nd.get(k + 1, FALSE), b)
            dist = nd
        if len(dist) == 1:
            dist = {k: TRUE for k in dist}
        ev = Event(act, dist, kw['canon'], bool(self.loops))
        self.events.append(ev)
        return dist



