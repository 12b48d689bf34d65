"""Symbolic values, guards and the solver context of the verifier."""
import itertools
import time
import z3

U = z3.DeclareSort('U')                     # opaque JSON values, nodes, buffers, errors
STR = z3.StringSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """A construct outside the verified fragment was reached."""

    def __init__(self, why, node=None):
        self.why = why
        self.line = node.get('l') if isinstance(node, dict) else None
        super().__init__(f'{why}' + (f' (line {self.line})' if self.line else ''))


# ---- guards ------------------------------------------------------------------
def is_t(e):
    return z3.is_true(e)


def is_f(e):
    return z3.is_false(e)


def Not(e):
    if is_t(e):
        return FALSE
    if is_f(e):
        return TRUE
    if z3.is_not(e):
        return e.arg(0)
    return z3.Not(e)


def And(*xs):
    out, seen = [], set()
    for x in xs:
        if is_t(x):
            continue
        if is_f(x):
            return FALSE
        for y in (x.children() if z3.is_and(x) else [x]):
            i = y.get_id()
            if i in seen:
                continue
            seen.add(i)
            out.append(y)
    for y in out:
        if z3.is_not(y) and y.arg(0).get_id() in seen:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out, seen = [], set()
    for x in xs:
        if is_f(x):
            continue
        if is_t(x):
            return TRUE
        for y in (x.children() if z3.is_or(x) else [x]):
            i = y.get_id()
            if i in seen:
                continue
            seen.add(i)
            out.append(y)
    for y in out:
        if z3.is_not(y) and y.arg(0).get_id() in seen:
            return TRUE
    if not out:
        return FALSE
    # A&c | A&~c  ==>  A
    if len(out) == 2:
        a, b = [set(c.get_id() for c in (y.children() if z3.is_and(y) else [y])) for y in out]
        da, db = a - b, b - a
        if not da:
            return out[0]
        if not db:
            return out[1]
        if len(da) == 1 and len(db) == 1:
            ca = [c for c in (out[0].children() if z3.is_and(out[0]) else [out[0]]) if c.get_id() in da][0]
            cb = [c for c in (out[1].children() if z3.is_and(out[1]) else [out[1]]) if c.get_id() in db][0]
            if Not(ca).get_id() == cb.get_id() or Not(cb).get_id() == ca.get_id():
                return And(*[c for c in (out[0].children() if z3.is_and(out[0]) else [out[0]]) if c.get_id() != ca.get_id()])
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if is_t(c):
        return a
    if is_f(c):
        return b
    if a.get_id() == b.get_id():
        return a
    return z3.If(c, a, b)


# ---- values -------------------------------------------------------------------
class Val:
    pass


class _Single(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNDEF, NULL = _Single('undefined'), _Single('null')
TEXT = _Single('<text>')     # wildcards of the contracts


class B(Val):
    def __init__(self, e):
        self.e = e if z3.is_expr(e) else z3.BoolVal(e)

    def __repr__(self):
        return f'B({self.e})'


class N(Val):
    def __init__(self, e):
        self.e = e if z3.is_expr(e) else z3.RealVal(e)

    def __repr__(self):
        return f'N({self.e})'


class S(Val):
    """A string as a rope. Parts: ('lit', str) ('t', z3 string) ('enc', z3 string:
    encodeURIComponent) ('encat', the same with %40 kept as @) ('qs', items) a
    serialised query, ('join', sep, items, nonempty) ('json', snapshot) ('opq', const)"""

    def __init__(self, *parts):
        out = []
        for p in parts:
            if p[0] == 'lit':
                if p[1] == '':
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                    continue
            out.append(p)
        self.parts = tuple(out)

    def lit(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and self.parts[0][0] == 'lit':
            return self.parts[0][1]
        return None

    def __repr__(self):
        return 'S' + repr(self.parts)


def lit(s):
    return S(('lit', s))


class O(Val):
    """Opaque value: a z3 term of sort U with a tag telling what is known of it:
    obj (a JSON object), arr, json (any JSON value but null/undefined), node, buf, blob, err, hdrs"""

    def __init__(self, term, tag):
        self.term, self.tag = term, tag

    def __repr__(self):
        return f'O({self.term}:{self.tag})'


class Heap(Val):
    _n = itertools.count()

    def __init__(self, level=0):
        self.id = next(Heap._n)
        self.owner = None       # None (fresh) | input | client | module | resp
        self.label = ''
        self.level = level      # depth of generic loops at creation


class HObj(Heap):
    def __init__(self, level=0, cls=None):
        super().__init__(level)
        self.fields = {}        # name -> [presence, value]
        self.rests = []         # (guard, U term): other, unknown members
        self.cls = cls

    def __repr__(self):
        return f'HObj#{self.id}({", ".join(self.fields)}{"+rest" if self.rests else ""})'


REST_KNOWN = {}      # name of an answer's unknown members -> the documented ones, which are not among them


def may_have(t, k):
    """Can the unknown members t include k?"""
    return k not in REST_KNOWN.get(t.decl().name(), ())


def unmasked(o, k):
    """[(guard, t)]: the unknown members of o that may include k, if o itself has no member k."""
    return [(g, t) for g, t in o.rests if may_have(t, k)]


def has_f(t, k):
    return z3.Function('has.' + k, U, z3.BoolSort())(t)


class Src:
    """A symbolic sequence: its length and the generic index used for it."""

    def __init__(self, name, args, length, idx):
        self.name, self.args, self.len, self.idx = name, tuple(args), length, idx

    def key(self):
        return (self.name, tuple(a.get_id() for a in self.args))

    def inr(self, i=None):
        i = self.idx if i is None else i
        return z3.And(i >= 0, i < self.len)


class HSrc(Src):
    """The entries of a header collection, in no particular order: `hk` stands
    for the name of an arbitrary one of them, `cond` says it is there."""

    def __init__(self, name, hk, cond):
        super().__init__(name, (), z3.IntVal(1), z3.IntVal(0))
        self.hk, self.cond = hk, cond

    def inr(self, i=None):
        return self.cond


class Elem:
    def __init__(self, guard, value):
        self.guard, self.value = guard, value


class Loop:
    """For each index of src in order: the items whose guards hold."""

    def __init__(self, src, items, ctx=None):
        self.src, self.items, self.ctx = src, items, ctx


class Prefix:
    """What a sequence held when the current loop iteration began."""
    guard = TRUE


LOOPS = []        # the generic iterations being executed, innermost last


def seen(h):
    """h is looked at: inside an iteration that extends it, what it holds is not known."""
    for lc in LOOPS:
        if h.level <= lc.level:
            if h.id in lc.grown:
                raise Unsupported('a collection read in the loop that extends it')
            lc.read.add(h.id)


def grown(h):
    """h, made outside the innermost iteration, is extended by it."""
    lc = LOOPS[-1]
    if h.id in lc.read:
        raise Unsupported('a collection read in the loop that extends it')
    lc.grown.add(h.id)


class HArr(Heap):
    def __init__(self, level=0, segs=None):
        super().__init__(level)
        self._segs = segs if segs is not None else []

    @property
    def segs(self):
        if LOOPS:
            seen(self)
        return self._segs

    @segs.setter
    def segs(self, v):
        self._segs = v

    def __repr__(self):
        return f'HArr#{self.id}[{len(self._segs)}]'


class HUsp(Heap):                # URLSearchParams
    def __init__(self, level=0):
        super().__init__(level)
        self.items = []          # (guard, key S, value S)


class HHeaders(Heap):
    def __init__(self, level=0):
        super().__init__(level)
        self._layers = []        # ('set'|'del', guard, key term, value term) | ('over', guard, has fn, val fn)

    @property
    def layers(self):
        if LOOPS:
            seen(self)
        return self._layers

    @layers.setter
    def layers(self, v):
        self._layers = v


class HMap(Heap):                # Map, Set and their weak variants
    def __init__(self, kind, level=0):
        super().__init__(level)
        self.kind = kind
        self._log = []           # ('set'|'del'|'clear', guard, key, value), oldest first
        self.loopy = False       # written by an unbounded loop

    @property
    def log(self):
        if self.loopy:
            raise Unsupported('a map filled by a loop over an unbounded sequence')
        if LOOPS:
            seen(self)
        return self._log


class HForm(Heap):
    def __init__(self, level=0):
        super().__init__(level)
        self.items = []          # (guard, name S, value)


class HPromise(Heap):
    def __init__(self, rguard, value, throws, level=0):
        super().__init__(level)
        self.rguard, self.value, self.throws = rguard, value, throws


class HdrsIn(Val):
    """A caller-supplied HeadersInit of unspecified form."""

    def __init__(self, label):
        self.label = label
        self.has = z3.Function(f'{label}.has', STR, z3.BoolSort())
        self.val = z3.Function(f'{label}.val', STR, STR)


class HdrObj(Val):
    """A plain object made of the entries of a header collection: lower-case names only."""

    def __init__(self, layers):
        self.layers = layers


class Resp(Val):
    """What the network answered to the k-th request."""

    def __init__(self, k, path=None, obs=False):
        self.k, self.path, self.obs = k, path, obs      # obs: as the contracts see it


class Spec(Val):
    """Special host objects: process, env, console, regex, builtin namespaces..."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f'<{self.kind}>'


class Clo(Val):
    def __init__(self, fn, env, this=None, cid=None, spec=False, home=None):
        self.fn, self.env, self.this, self.cid, self.spec, self.home = fn, env, this, cid, spec, home

    def __repr__(self):
        return f'<fn {self.cid or self.fn.get("name")}>'


class Nat(Val):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f'<native {self.name}>'


class ClassV(Val):
    def __init__(self, node, env, name, builtin=None, parent=None):
        self.node, self.env, self.name, self.builtin, self.parent = node, env, name, builtin, parent
        self.statics = HObj()

    def __repr__(self):
        return f'<class {self.name}>'


class Un(Val):
    """Guarded alternatives, mutually exclusive."""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Un{' + '; '.join(f'{g} -> {v}' for g, v in self.alts) + '}'


def alts(v):
    return v.alts if isinstance(v, Un) else [(TRUE, v)]


def same(a, b):
    """Syntactic identity of atoms."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (B, N)):
        return a.e.get_id() == b.e.get_id()
    if isinstance(a, O):
        return a.tag == b.tag and a.term.get_id() == b.term.get_id()
    if isinstance(a, S):
        return pkey(a.parts) == pkey(b.parts)
    if isinstance(a, Resp):
        return a.k == b.k and a.path is b.path and a.obs == b.obs
    return False


def pkey(x):
    if z3.is_expr(x):
        return ('z', x.get_id())
    if isinstance(x, (tuple, list)):
        return tuple(pkey(y) for y in x)
    if isinstance(x, S):
        return ('S', pkey(x.parts))
    if isinstance(x, (B, N)):
        return ('e', x.e.get_id())
    if isinstance(x, O):
        return ('o', x.term.get_id())
    if isinstance(x, Un):
        return ('U', tuple((g.get_id(), pkey(v)) for g, v in x.alts))
    if isinstance(x, Val):
        return ('id', id(x))
    return x


def mk_un(pairs):
    """Union of guarded values; flattens, merges equal atoms, and folds booleans
    and numbers into one term when every alternative is one."""
    flat = []
    for g, v in pairs:
        if is_f(g):
            continue
        if isinstance(v, Un):
            for g2, v2 in v.alts:
                gg = And(g, g2)
                if not is_f(gg):
                    flat.append((gg, v2))
        else:
            flat.append((g, v))
    if not flat:
        return UNDEF
    out = []
    for g, v in flat:
        for i, (g2, v2) in enumerate(out):
            if same(v, v2):
                out[i] = (Or(g2, g), v2)
                break
        else:
            out.append((g, v))
    if len(out) == 1:
        return out[0][1]
    bs = [(g, v) for g, v in out if isinstance(v, B)]
    if len(bs) > 1:
        e = bs[-1][1].e
        for g, v in reversed(bs[:-1]):
            e = Ite(g, v.e, e)
        rest = [(g, v) for g, v in out if not isinstance(v, B)]
        out = rest + [(Or(*[g for g, _ in bs]), B(e))]
        if len(out) == 1:
            return out[0][1]
    return Un(out)


# ---- substitution of a generic index -------------------------------------------
def subst(v, pairs, memo=None):
    if memo is None:
        memo = {}
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs, memo) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs, memo) for x in v]
    if isinstance(v, (B, N)):
        return type(v)(z3.substitute(v.e, *pairs))
    if isinstance(v, S):
        return S(*[subst(p, pairs, memo) for p in v.parts])
    if isinstance(v, O):
        return O(z3.substitute(v.term, *pairs), v.tag)
    if isinstance(v, Un):
        return mk_un([(subst(g, pairs), subst(x, pairs, memo)) for g, x in v.alts])
    if isinstance(v, Src):
        return Src(v.name, [z3.substitute(a, *pairs) for a in v.args], z3.substitute(v.len, *pairs), v.idx)
    if isinstance(v, Elem):
        return Elem(subst(v.guard, pairs), subst(v.value, pairs, memo))
    if isinstance(v, Loop):
        return Loop(subst(v.src, pairs, memo), subst(v.items, pairs, memo), v.ctx)
    if isinstance(v, HObj):
        if v.id in memo:
            return memo[v.id]
        if v.owner in ('client', 'module'):
            return v
        o = HObj(v.level, v.cls)
        o.owner, o.label = v.owner, v.label
        memo[v.id] = o
        o.fields = {k: [subst(p, pairs), subst(x, pairs, memo)] for k, (p, x) in v.fields.items()}
        o.rests = [(subst(g, pairs), subst(t, pairs)) for g, t in v.rests]
        return o
    if isinstance(v, HArr):
        if v.id in memo:
            return memo[v.id]
        o = HArr(v.level)
        o.owner, o.label = v.owner, v.label
        memo[v.id] = o
        o.segs = subst(v.segs, pairs, memo)
        return o
    return v


def vkey(v):
    """Structural key of a value (for values built from the same inputs)."""
    if isinstance(v, HObj):
        return ('obj', tuple(sorted((k, p.get_id(), vkey(x)) for k, (p, x) in v.fields.items())),
                tuple((g.get_id(), t.get_id()) for g, t in v.rests))
    if isinstance(v, HArr):
        return ('arr', seqkey(v.segs))
    if isinstance(v, Un):
        return ('un', tuple((g.get_id(), vkey(x)) for g, x in v.alts))
    return pkey(v)


def seqkey(segs):
    out = []
    for s in segs:
        if isinstance(s, Elem):
            out.append(('e', s.guard.get_id(), vkey(s.value)))
        else:
            out.append(('l', s.src.key(), tuple((g.get_id(), vkey(x)) for g, x in s.items)))
    return tuple(out)


def snapshot(v, memo=None):
    """A copy of a value that later writes do not reach."""
    if memo is None:
        memo = {}
    if isinstance(v, Un):
        return Un([(g, snapshot(x, memo)) for g, x in v.alts])
    if isinstance(v, HObj):
        if v.id in memo:
            return memo[v.id]
        o = HObj(v.level, v.cls)
        memo[v.id] = o
        o.fields = {k: [p, snapshot(x, memo)] for k, (p, x) in v.fields.items()}
        o.rests = list(v.rests)
        return o
    if isinstance(v, HArr):
        if v.id in memo:
            return memo[v.id]
        o = HArr(v.level)
        memo[v.id] = o
        o.segs = [Elem(s.guard, snapshot(s.value, memo)) if isinstance(s, Elem)
                  else Loop(s.src, [(g, snapshot(x, memo)) for g, x in s.items], s.ctx) for s in v.segs]
        return o
    if isinstance(v, HForm):
        o = HForm(v.level)
        o.items = [(g, k, snapshot(x, memo)) for g, k, x in v.items]
        return o
    if isinstance(v, HHeaders):
        o = HHeaders(v.level)
        o.layers = list(v.layers)
        return o
    if isinstance(v, HUsp):
        o = HUsp(v.level)
        o.items = list(v.items)
        return o
    return v


def mark(v, owner, label, seen=None):
    """Give every object reachable from v an owner (for the frame conditions)."""
    seen = set() if seen is None else seen
    if isinstance(v, Un):
        for _, x in v.alts:
            mark(x, owner, label, seen)
        return
    if not isinstance(v, Heap) or v.id in seen:
        return
    seen.add(v.id)
    v.owner, v.label = owner, label
    if isinstance(v, HObj):
        for k, (_, x) in v.fields.items():
            mark(x, owner, f'{label}.{k}', seen)
    elif isinstance(v, HArr):
        for s in v.segs:
            if isinstance(s, Elem):
                mark(s.value, owner, label + '[]', seen)
            else:
                for _, x in s.items:
                    mark(x, owner, label + '[]', seen)
    elif isinstance(v, HMap):
        for e in v._log:
            for x in e[2:]:
                mark(x, owner, label + '[]', seen)


# ---- solver context --------------------------------------------------------------
numstr = z3.Function('numstr', z3.RealSort(), STR)
enc_f = z3.Function('encodeURIComponent', STR, STR)
ostr_f = z3.Function('String_of', U, STR)
truthy_f = z3.Function('truthy', U, z3.BoolSort())
urlsafe = z3.Function('urlsafe', STR, z3.BoolSort())
mime_ok = z3.Function('mime.ok', U, z3.BoolSort())
mime_err = z3.Function('mime.error', U, U)
render_ok = z3.Function('render.ok', U, z3.BoolSort())
render_html = z3.Function('render.html', U, STR)
render_err = z3.Function('render.error', U, U)
b64_f = z3.Function('base64', U, STR)
member_f = {}


def ustr(kind, name, *sorts):
    return z3.Function(name, *sorts)


class Ctx:
    """Facts, feasibility and validity."""

    def __init__(self, timeout_ms=8000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.facts = []
        self.feas = {}
        self.keep = []
        self.n = itertools.count()
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.cross = None
        self.stop = None         # (processor seconds, wall clock): where to give up
        self.begin = time.process_time()

    def late(self):
        return self.stop is not None and (time.process_time() - self.begin > self.stop[0] or time.time() > self.stop[1])

    def fact(self, e):
        if is_t(e):
            return
        self.facts.append(e)
        self.s.add(e)

    def fresh(self, name, sort):
        # inside a loop over an unbounded sequence: one per iteration
        at = [lc.src.hk if isinstance(lc.src, HSrc) else lc.src.idx for lc in LOOPS]
        n = f'{name}!{next(self.n)}'
        return z3.Function(n, *[a.sort() for a in at], sort)(*at) if at else z3.Const(n, sort)

    def check(self, *assume):
        if self.late():
            raise Unsupported('the proof takes too long')
        t = time.time()
        self.queries += 1
        self.s.push()
        self.s.add(*assume)
        r = self.s.check()
        if self.second(r) == 'sat':
            self.cross.pruned += 1
        self.s.pop()
        self.solver_s += time.time() - t
        if r == z3.unknown:
            self.unknown += 1
        return r

    def second(self, r):
        if self.cross is not None and r == z3.unsat:
            return self.cross.ask(self.s)

    def feasible(self, g):
        if is_t(g):
            return True
        if is_f(g):
            return False
        i = g.get_id()
        if i in self.feas:
            return self.feas[i]
        self.keep.append(g)
        r = self.check(g) != z3.unsat
        self.feas[i] = r
        return r

    def cases(self, v, act):
        """Feasible alternatives of v under act."""
        if not isinstance(v, Un):
            return [(TRUE, v)]
        out = []
        for g, x in v.alts:
            if self.feasible(And(act, g)):
                out.append((g, x))
        if len(out) == 1:
            return [(TRUE, out[0][1])]
        return out

    def prune(self, v, act):
        if not isinstance(v, Un):
            return v
        c = self.cases(v, act)
        return c[0][1] if len(c) == 1 else mk_un(c)
