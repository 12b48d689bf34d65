"""Obligations: does what an implementation did agree with what its contract
demands? Every function here returns a formula that must be valid; generic
indices are free constants, so formulas are only used positively."""
import z3
import builtins_js as bj
from values import *
from interp import Req

NAMED = ('authorization', 'user-agent', 'content-type', 'idempotency-key', 'x-batch-validation')
HK = z3.Const('anyHeader', STR)


class Cmp:
    def __init__(self, it):
        self.it, self.ctx = it, it.ctx
        self.obs = {}                      # label -> [formula]
        self.guard = TRUE

    def ob(self, label, f, guard=TRUE):
        f = Implies(And(self.guard, guard), f)
        self.obs.setdefault(label, [])
        if not is_t(f):
            self.obs[label].append(f)

    def feas(self, *g):
        return self.ctx.feasible(And(self.guard, *g))

    # ---- JSON values ----------------------------------------------------------
    def jeq(self, a, b):
        """a (implementation) is the same JSON value as b (contract)."""
        if a is b:
            return TRUE
        out = []
        for ga, x in alts(a):
            for gb, y in alts(b):
                g = And(ga, gb)
                if is_f(g):
                    continue
                e = self.j1(x, y)
                if is_t(e):
                    continue
                if is_f(e) and not self.feas(g):
                    continue
                out.append(Implies(g, e))
        return And(*out)

    def j1(self, x, y):
        if x is y:
            return TRUE
        if y is TEXT:
            return z3.BoolVal(isinstance(x, S))
        if x is TEXT:
            return FALSE
        if type(x).__name__ == '_NoIndex' or type(y).__name__ == '_NoIndex':
            raise Unsupported('an array index used as a value')
        if isinstance(x, S) and isinstance(y, S):
            return self.seq(x, y)
        if isinstance(x, B) and isinstance(y, B):
            return TRUE if same(x, y) else x.e == y.e
        if isinstance(x, N) and isinstance(y, N):
            return TRUE if same(x, y) else x.e == y.e
        if isinstance(x, O) and isinstance(y, O):
            return TRUE if same(x, y) else x.term == y.term
        if isinstance(x, HObj) and isinstance(y, HObj):
            return self.obj_eq(x, y)
        if isinstance(x, HObj) and isinstance(y, O):
            return self.rest_only(x, y)
        if isinstance(x, O) and isinstance(y, HObj):
            return self.rest_only(y, x)
        if isinstance(x, HArr) and isinstance(y, HArr):
            return self.arr_eq(x, y)
        if isinstance(x, Spec) and x.kind == 'resph' and isinstance(y, O):
            return FALSE
        if {x, y} == {UNDEF, NULL} and self.undef_null:
            return TRUE
        return FALSE

    undef_null = False

    def rest_only(self, o, t):
        """The object is exactly the opaque object t."""
        fs = [Or(*[And(p, g) for g, v in alts(v0) if v is not UNDEF]) for p, v0 in o.fields.values()]
        hit = Or(*[g for g, r in o.rests if r.get_id() == t.term.get_id()])
        other = Or(*[g for g, r in o.rests if r.get_id() != t.term.get_id()])
        # a member of the object hides the one of t
        hide = [Implies(p, Not(has_f(t.term, k))) for k, (p, _) in o.fields.items() if may_have(t.term, k)]
        return And(hit, Not(other), *[Not(f) for f in fs], *hide)

    def present(self, o, k):
        """[(guard, value)] for a defined member."""
        if k not in o.fields:
            return []
        p, v = o.fields[k]
        return [(And(p, g), x) for g, x in alts(v) if x is not UNDEF and not isinstance(x, (Clo, Nat, ClassV))]

    def member_eq(self, x, y, k):
        px, py = self.present(x, k), self.present(y, k)
        ex, ey = Or(*[g for g, _ in px]), Or(*[g for g, _ in py])
        out = [TRUE if ex.get_id() == ey.get_id() else ex == ey]
        mx, my = (o.fields[k][0] if k in o.fields else FALSE for o in (x, y))
        if mx.get_id() != my.get_id():      # one hides an unknown member k, the other does not
            out += [Implies(And(g, Or(And(mx, Not(my)), And(my, Not(mx)))), Not(has_f(t, k))) for g, t in unmasked(x, k)]
        for g, v in px:
            for h, w in py:
                gh = And(g, h)
                if is_f(gh):
                    continue
                e = self.j1(v, w)
                if is_t(e) or (is_f(e) and not self.feas(gh)):
                    continue
                out.append(Implies(gh, e))
        return And(*out)

    def keys(self, x, y):
        return list(x.fields) + [k for k in y.fields if k not in x.fields]

    def rests_eq(self, x, y):
        ts = {}
        for side, o in ((0, x), (1, y)):
            for g, t in o.rests:
                ts.setdefault(t.get_id(), [FALSE, FALSE])
                ts[t.get_id()][side] = Or(ts[t.get_id()][side], g)
        out = []
        for a, b in ts.values():
            if a.get_id() != b.get_id():
                out.append(a == b)
        return And(*out)

    def obj_eq(self, x, y):
        if x.cls is not y.cls and not (isinstance(x.cls, str) or isinstance(y.cls, str)) and ClassV in (type(x.cls), type(y.cls)):
            return FALSE
        return And(self.rests_eq(x, y), *[self.member_eq(x, y, k) for k in self.keys(x, y)])

    def norm_segs(self, a):
        out = []
        for s in a.segs:
            if isinstance(s, Elem):
                if self.feas(s.guard):
                    out.append(s)
                continue
            items = [(g, v) for g, v in s.items if self.feas(s.src.inr(), g)]
            excl = True
            for i in range(len(items)):
                for j in range(i):
                    if self.feas(s.src.inr(), items[i][0], items[j][0]):
                        excl = False
            if excl and len(items) > 1:
                items = [(Or(*[g for g, _ in items]), mk_un(items))]
            if items:
                out.append(Loop(s.src, items, s.ctx))
        # alternatives of one position
        res = []
        for s in out:
            if res and isinstance(s, Elem) and isinstance(res[-1], Elem) and not is_t(s.guard) and not self.feas(s.guard, res[-1].guard):
                res[-1] = Elem(Or(res[-1].guard, s.guard), mk_un([(res[-1].guard, res[-1].value), (s.guard, s.value)]))
            else:
                res.append(s)
        return res

    def arr_eq(self, x, y):
        a, b = self.norm_segs(x), self.norm_segs(y)
        if len(a) != len(b):
            return And(*[Not(self.some(s)) for s in a + b])
        out = []
        old, self.undef_null = self.undef_null, True
        try:
            for s, t in zip(a, b):
                if isinstance(s, Elem) and isinstance(t, Elem):
                    out.append(TRUE if s.guard.get_id() == t.guard.get_id() else s.guard == t.guard)
                    out.append(Implies(And(s.guard, t.guard), self.jeq(s.value, t.value)))
                    continue
                if not (isinstance(s, Loop) and isinstance(t, Loop)) or s.src.key() != t.src.key() or len(s.items) != len(t.items):
                    return And(*[Not(self.some(q)) for q in a + b])
                inr = s.src.inr()
                for (g, v), (h, w) in zip(s.items, t.items):
                    out.append(Implies(inr, TRUE if g.get_id() == h.get_id() else g == h))
                    out.append(Implies(And(inr, g, h), self.jeq(v, w)))
        finally:
            self.undef_null = old
        return And(*out)

    def some(self, s):
        """The segment is not empty, as far as one formula can say (an
        over-approximation of emptiness is never claimed)."""
        if isinstance(s, Elem):
            return s.guard
        return s.src.len > 0 if not isinstance(s.src, HSrc) else TRUE

    # ---- strings -----------------------------------------------------------------
    def part_eq(self, p, q):
        """Equality of two rope parts, or None when unknown."""
        if pkey(p) == pkey(q):
            return TRUE
        if p[0] == 'json' and q[0] == 'json':
            return self.jeq(p[1], q[1])
        if p[0] == q[0] and p[0] in ('t', 'enc', 'encat'):
            return p[1] == q[1]
        if p[0] == 'join' and q[0] == 'join' and p[1] == q[1] and len(p[2]) == len(q[2]):
            return And(*[And(TRUE if g.get_id() == h.get_id() else g == h, Implies(g, self.seq(a, b))) for (g, a), (h, b) in zip(p[2], q[2])])
        if p[0] in ('qs', 'qopt') and q[0] in ('qs', 'qopt'):
            return self.query_eq(p[1], q[1])
        return None

    def query_eq(self, a, b):
        names = {}
        for side, items in ((0, a), (1, b)):
            for g, k, v in items:
                if k.lit() is None:
                    return FALSE
                names.setdefault(k.lit(), ([], []))[side].append((g, v))
        out = []
        for x, y in names.values():
            gx, gy = Or(*[g for g, _ in x]), Or(*[g for g, _ in y])
            out.append(TRUE if gx.get_id() == gy.get_id() else gx == gy)
            for l in (x, y):
                for i in range(len(l)):
                    for j in range(i):
                        out.append(Not(And(l[i][0], l[j][0])))
            for g, v in x:
                for h, w in y:
                    gh = And(g, h)
                    if not is_f(gh):
                        out.append(Implies(gh, self.seq(v, w)))
        return And(*out)

    def seq(self, x, y):
        if pkey(x.parts) == pkey(y.parts):
            return TRUE
        lx, ly = x.lit(), y.lit()
        if lx is not None and ly is not None:
            return z3.BoolVal(lx == ly)
        a, b = list(x.parts), list(y.parts)
        for rev in (False, True):
            while a and b:
                i = -1 if rev else 0
                p, q = a[i], b[i]
                if p[0] == 'lit' and q[0] == 'lit':
                    s, t = p[1], q[1]
                    n = 0
                    if rev:
                        while n < min(len(s), len(t)) and s[-1 - n] == t[-1 - n]:
                            n += 1
                        if n < min(len(s), len(t)):
                            return FALSE
                        a[i], b[i] = ('lit', s[:len(s) - n]), ('lit', t[:len(t) - n])
                    else:
                        while n < min(len(s), len(t)) and s[n] == t[n]:
                            n += 1
                        if n < min(len(s), len(t)):
                            return FALSE
                        a[i], b[i] = ('lit', s[n:]), ('lit', t[n:])
                    if not a[i][1]:
                        a.pop(i)
                    if not b[i][1]:
                        b.pop(i)
                elif pkey(p) == pkey(q):
                    a.pop(i)
                    b.pop(i)
                else:
                    break
        if not a and not b:
            return TRUE
        if not a or not b:
            return Not(self.it.nonempty(S(*(a or b))))
        if len(a) == len(b):
            es = [self.part_eq(p, q) if p[0] != 'lit' else None for p, q in zip(a, b)]
            if all(e is not None for e in es):
                if len(es) == 1:
                    return es[0]
                al = And(*es)
                return Or(al, self.it.term(S(*a)) == self.it.term(S(*b)))
        if any(p[0] == 'json' for p in a + b):
            return FALSE
        return self.it.term(S(*a)) == self.it.term(S(*b))

    # ---- URLs -------------------------------------------------------------------
    def split_url(self, s):
        path, query, seen = [], [], False
        for p in s.parts:
            if seen:
                query.append(p)
            elif p[0] == 'lit' and '?' in p[1]:
                a, b = p[1].split('?', 1)
                if a:
                    path.append(('lit', a))
                seen = True
                if b:
                    query.append(('lit', b))
            elif p[0] == 'qopt':
                seen = True
                query.append(p)
            else:
                path.append(p)
        return path, query, seen

    def path_eq(self, a, b):
        a, b = list(a), list(b)
        out = []
        while a and b:
            p, q = a[0], b[0]
            if p[0] == 'lit' and q[0] == 'lit':
                s, t = p[1], q[1]
                n = min(len(s), len(t))
                if s[:n] != t[:n]:
                    return FALSE
                a[0], b[0] = ('lit', s[n:]), ('lit', t[n:])
                if not a[0][1]:
                    a.pop(0)
                if not b[0][1]:
                    b.pop(0)
                continue
            e = self.seg_eq(p, q)
            if e is None:
                break
            out.append(e)
            a.pop(0)
            b.pop(0)
        if a or b:
            if not a or not b:
                out.append(Not(self.it.nonempty(S(*(a or b)))))
            else:
                out.append(self.it.term(S(*a)) == self.it.term(S(*b)))
        return And(*out)

    def seg_eq(self, p, q):
        """Path parts: the same text, or the same text once decoded and safe."""
        if pkey(p) == pkey(q):
            return TRUE
        kinds = ('t', 'enc', 'encat')
        if p[0] in kinds and q[0] in kinds:
            e = TRUE if p[1].get_id() == q[1].get_id() else p[1] == q[1]
            if p[0] == 't' and q[0] != 't':
                return And(e, urlsafe(p[1]))
            if q[0] == 't' and p[0] != 't':
                return And(e, urlsafe(q[1]))
            return e
        if p[0] == 'lit' or q[0] == 'lit':
            l, o = (p, q) if p[0] == 'lit' else (q, p)
            return None
        return self.part_eq(p, q)

    # ---- requests ----------------------------------------------------------------
    def items_of(self, query, fr):
        if not query:
            return []
        if len(query) == 1 and query[0][0] in ('qopt', 'qs'):
            return list(query[0][1])
        return bj.parse_query(self.it, S(*query), fr, None)

    def request(self, k, a, b, g):
        """Request k of the implementation (a) against that of the contract (b)."""
        from interp import Frame
        it = self.it
        L = lambda s: f'{k}.{s}'
        fr = Frame(And(self.guard, g))
        self.ob(L('method'), self.jeq(a.method, b.method), g)
        for ga, ua in alts(a.url):
            for gb, ub in alts(b.url):
                gg = And(g, ga, gb)
                if not self.feas(gg):
                    continue
                fr.act = And(self.guard, gg)
                pa, qa, sa = self.split_url(ua)
                pb, qb, sb = self.split_url(ub)
                base = pb[0] if pb and pb[0][0] == 't' and pb[0][1].decl().name() == 'client.baseUrl' else None
                if base is not None:
                    same_base = bool(pa) and pkey(pa[0]) == pkey(base)
                    self.ob(L('base'), z3.BoolVal(same_base), gg)
                    if same_base:
                        pa, pb = pa[1:], pb[1:]
                self.ob(L('path'), self.path_eq(pa, pb), gg)
                ia, ib = self.items_of(qa, fr), self.items_of(qb, fr)
                self.query(k, ia, ib, gg)
                self.ob(L('query.none'), TRUE, gg)
                opt_a = bool(qa) and qa[0][0] == 'qopt' and len(qa) == 1
                if sa and not opt_a:
                    # a literal '?': something must follow it
                    self.ob(L('query.none'), Or(*[h for h, _, _ in ia]), gg)
        self.headers(k, a.layers, b.layers, g)
        ex = Or(*[h for h, _ in a.extra])
        self.ob(L('init'), Not(ex), g)
        self.body(k, a.body, b.body, g)

    def query(self, k, ia, ib, g):
        names = {}
        for side, items in ((0, ia), (1, ib)):
            for h, key, v in items:
                n = key.lit()
                if n is None:
                    n = '<computed>'
                    if side == 0:
                        self.ob(f'{k}.query.{n}', Not(h), g)
                names.setdefault(n, ([], []))[side].append((h, v))
        for n, (x, y) in names.items():
            lab = f'{k}.query.{n}'
            gx, gy = Or(*[h for h, _ in x]), Or(*[h for h, _ in y])
            self.ob(lab, TRUE if gx.get_id() == gy.get_id() else gx == gy, g)
            for i in range(len(x)):
                for j in range(i):
                    self.ob(lab, Not(And(x[i][0], x[j][0])), g)
            for h, v in x:
                for h2, w in y:
                    hh = And(g, h, h2)
                    if self.feas(hh):
                        self.ob(lab, self.seq(v, w), hh)

    def headers(self, k, la, lb, g):
        for n in NAMED:
            self.header(f'{k}.headers.{n}', la, lb, n, g)
        distinct = And(*[HK != z3.StringVal(n) for n in NAMED])
        self.header(f'{k}.headers.other', la, lb, HK, And(g, distinct))

    def header(self, lab, la, lb, n, g):
        h1, v1 = bj.lookup(self.it, la, n)
        h2, v2 = bj.lookup(self.it, lb, n)
        self.ob(lab, TRUE if h1.get_id() == h2.get_id() else h1 == h2, g)
        if v1.get_id() != v2.get_id():
            self.ob(lab, v1 == v2, And(g, h1, h2))
        else:
            self.ob(lab, TRUE, g)

    def body(self, k, a, b, g):
        for ga, x in alts(a):
            for gb, y in alts(b):
                gg = And(g, ga, gb)
                if not self.feas(gg):
                    continue
                if isinstance(x, HForm) and isinstance(y, HForm):
                    self.form(k, x, y, gg)
                    continue
                jx = x.parts[0][1] if isinstance(x, S) and len(x.parts) == 1 and x.parts[0][0] == 'json' else None
                jy = y.parts[0][1] if isinstance(y, S) and len(y.parts) == 1 and y.parts[0][0] == 'json' else None
                if isinstance(jx, HObj) and isinstance(jy, HObj):
                    self.ob(f'{k}.body', self.rests_eq(jx, jy), gg)
                    for key in self.keys(jx, jy):
                        self.ob(f'{k}.body.{key}', self.member_eq(jx, jy, key), gg)
                elif jx is not None and jy is not None:
                    self.ob(f'{k}.body', self.jeq(jx, jy), gg)
                else:
                    self.ob(f'{k}.body', self.j1(x, y) if not isinstance(x, HForm) and not isinstance(y, HForm) else FALSE, gg)

    def form(self, k, x, y, g):
        names = {}
        for side, f in ((0, x), (1, y)):
            for h, key, v in f.items:
                names.setdefault(key.lit(), ([], []))[side].append((h, v))
        for n, (a, b) in names.items():
            lab = f'{k}.form.{n}'
            ga, gb = Or(*[h for h, _ in a]), Or(*[h for h, _ in b])
            self.ob(lab, TRUE if ga.get_id() == gb.get_id() else ga == gb, g)
            for i in range(len(a)):
                for j in range(i):
                    self.ob(lab, Not(And(a[i][0], a[j][0])), g)
            for h, v in a:
                for h2, w in b:
                    hh = And(g, h, h2)
                    if self.feas(hh):
                        self.ob(lab, self.jeq(v, w), hh)

    # ---- whole runs ----------------------------------------------------------------
    def events(self, ea, eb):
        self.spec_events = eb
        ks = sorted({k for e in ea + eb for k in e.dist})
        for e in ea:
            if e.loop and self.feas(e.guard):
                self.ob('requests.count', FALSE, e.guard)
        if not ks:
            self.ob('requests.count', TRUE)
        for k in ks:
            ga = Or(*[And(e.guard, e.dist[k]) for e in ea if k in e.dist])
            gb = Or(*[And(e.guard, e.dist[k]) for e in eb if k in e.dist])
            self.ob('requests.count', TRUE if ga.get_id() == gb.get_id() else ga == gb)
            for e in ea:
                for f in eb:
                    if k in e.dist and k in f.dist:
                        g = And(e.guard, e.dist[k], f.guard, f.dist[k])
                        if self.feas(g):
                            self.request(f'request{k}', e.req, f.req, g)

    def entry(self, log):
        """(ok, entry): the object a log call carries."""
        g, level, args, inloop, spec = log
        if spec:
            return TRUE, args[0]
        if level != 'error' or len(args) != 2:
            return FALSE, None
        t = args[0]
        if any(not (isinstance(x, S) and x.lit() is not None) for _, x in alts(t)):
            return FALSE, None
        return TRUE, args[1]

    def logs(self, la, lb):
        ga = Or(*[l[0] for l in la])
        gb = Or(*[l[0] for l in lb])
        self.ob('log.count', TRUE if ga.get_id() == gb.get_id() else ga == gb)
        for i in range(len(la)):
            if la[i][3] and self.feas(la[i][0]):
                self.ob('log.count', FALSE, la[i][0])
            for j in range(i):
                g = And(la[i][0], la[j][0])
                if self.feas(g):
                    self.ob('log.count', FALSE, g)
        for a in la:
            ok, ent = self.entry(a)
            if is_f(ok):
                self.ob('log.content', FALSE, a[0])
                continue
            for b in lb:
                g = And(a[0], b[0])
                if not self.feas(g):
                    continue
                for h, x in alts(ent):
                    for h2, y in alts(b[2][0]):
                        gg = And(g, h, h2)
                        if not self.feas(gg):
                            continue
                        if not isinstance(x, HObj):
                            self.ob('log.content', FALSE, gg)
                            continue
                        self.ob('log.content', self.rests_eq(x, y), gg)
                        for key in self.keys(x, y):
                            if key == 'path' and key in x.fields and key in y.fields:
                                self.log_path(x.fields[key], y.fields[key], gg)
                            else:
                                self.ob('log.content', self.member_eq(x, y, key), gg)

    def log_path(self, a, b, g):
        from interp import Frame
        self.ob('log.content', And(a[0], b[0]), g)
        for h, x in alts(a[1]):
            for h2, y in alts(b[1]):
                gg = And(g, h, h2)
                if not self.feas(gg):
                    continue
                if not isinstance(x, S) or not isinstance(y, S):
                    self.ob('log.content', FALSE, gg)
                    continue
                pa, qa, _ = self.split_url(x)
                pb, qb, _ = self.split_url(y)
                self.ob('log.content', self.path_eq(pa, pb), gg)
                fr = Frame(And(self.guard, gg))
                self.ob('log.content', self.query_eq(self.items_of(qa, fr), self.items_of(qb, fr)), gg)

    def outcome(self, ra, rb):
        """ra, rb: (guard of normal end, value, throws)."""
        ta, tb = Or(*[g for g, _ in ra[2]]), Or(*[g for g, _ in rb[2]])
        self.ob('outcome', TRUE if ta.get_id() == tb.get_id() else ta == tb)
        self.ob('outcome', TRUE if ra[0].get_id() == rb[0].get_id() else ra[0] == rb[0])
        for g, x in ra[2]:
            for h, y in rb[2]:
                gh = And(g, h)
                if self.feas(gh):
                    self.ob('outcome.error', self.exc_eq(x, y), gh)
        g0 = And(ra[0], rb[0])
        asked = Or(*[e.guard for e in self.spec_events])
        for pre, g1 in (('', asked), ('local.', Not(asked))):
            if not self.feas(g0, g1):
                continue
            self.result(ra, rb, And(g0, g1), pre)

    spec_events = ()

    def result(self, ra, rb, g0, pre):
        for g, x in alts(ra[1]):
            for h, y in alts(rb[1]):
                gg = And(g0, g, h)
                if not self.feas(gg):
                    continue
                if isinstance(x, HObj) and isinstance(y, HObj) and ('error' in y.fields or 'userAgent' in y.fields):
                    for key in self.keys(x, y):
                        lab = pre + ('result.' + key if key in y.fields else 'result')
                        self.ob(lab, self.member_eq(x, y, key), gg)
                    self.ob(pre + 'result', self.rests_eq(x, y), gg)
                else:
                    self.ob(pre + 'result', self.jeq(x, y), gg)

    def exc_eq(self, x, y):
        out = []
        for g, a in alts(x):
            for h, b in alts(y):
                gh = And(g, h)
                if is_f(gh) or not self.feas(gh):
                    continue
                if isinstance(b, HObj) and isinstance(b.cls, str):
                    e = z3.BoolVal((isinstance(a, HObj) and isinstance(a.cls, str)) or (isinstance(a, O) and a.tag == 'err'))
                else:
                    e = self.j1(a, b)
                out.append(Implies(gh, e))
        return And(*out)

    def frame(self, writes):
        for what in ('input', 'client', 'module'):
            self.ob('frame.' + what, TRUE)
            for g, owner, _ in writes:
                if owner == what:
                    self.ob('frame.' + what, Not(g))

    def shared(self, ra):
        """What a call hands out is not something later calls still use."""
        self.ob('frame.result', TRUE)
        done = set()

        def go(v, g):
            if isinstance(v, Un):
                for h, x in v.alts:
                    go(x, And(g, h))
                return
            if not isinstance(v, Heap) or (v.id, g.get_id()) in done:
                return
            done.add((v.id, g.get_id()))
            if v.owner in ('client', 'module') and not getattr(v, 'immutable', False):
                self.ob('frame.result', Not(g))
            if isinstance(v, HObj):
                for p, x in v.fields.values():
                    go(x, And(g, p))
            elif isinstance(v, HArr):
                for s in v.segs:
                    for h, x in [(s.guard, s.value)] if isinstance(s, Elem) else s.items:
                        go(x, And(g, h))
        go(ra[1], ra[0])
