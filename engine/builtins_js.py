"""The trusted contracts of the JavaScript built-ins and of the dependencies the
code uses. Whatever is not listed here is outside the fragment."""
import urllib.parse
import z3
from values import *
from interp import Interp, Env, Cell, Frame, LoopCtx, enter, ERRORS, Event

JS_SAFE = "!'()*~-._"                    # encodeURIComponent leaves these


def nat(name):
    def d(f):
        return Nat(name, lambda it, this, args, fr, node: f(it, args, fr, node))
    return d


def arg(args, i):
    return args[i] if i < len(args) else UNDEF


def uf_str(name, *xs):
    return z3.Function(name, *[x.sort() for x in xs], STR)(*xs)


# ---- members -------------------------------------------------------------------
def member(it, x, name, fr, node, quiet=False):
    t = type(x)
    if t is S:
        return str_member(it, x, name, fr, node)
    if t is N:
        if name == 'toString':
            return Nat('toString', lambda it, this, a, fr, nd: it.to_str(x, fr, nd) if not a else it.uns('toString(radix)', nd, fr))
        return it.uns('number.' + name, node, fr)
    if t is B:
        if name == 'toString':
            return Nat('toString', lambda it, this, a, fr, nd: it.to_str(x, fr, nd))
        return it.uns('boolean.' + name, node, fr)
    if t is O:
        return opaque_member(it, x, name, fr, node)
    if t is HArr:
        return arr_member(it, x, name, fr, node)
    if t is HUsp:
        return usp_member(it, x, name, fr, node)
    if t is HHeaders:
        return hdr_member(it, x, name, fr, node)
    if t is HForm:
        return form_member(it, x, name, fr, node)
    if t is HMap:
        return map_member(it, x, name, fr, node)
    if t is HPromise:
        return promise_member(it, x, name, fr, node)
    if t is Resp:
        return resp_member(it, x, name, fr, node)
    if t is HdrsIn:
        return it.uns('direct use of the caller\'s headers (.%s)' % name, node, fr)
    if t in (Clo, Nat):
        return fn_member(it, x, name, fr, node)
    if t is ClassV:
        if x.node is not None:
            if name in x.statics.fields:
                return x.statics.fields[name][1]
            c = x
            for m in (x.node.get('members') or []):
                if m.get('static') and m.get('key') == name and m['kind'] == 'method':
                    return Clo(m['fn'], x.env, x, cid=f'{x.name}.{name}', home=x)
            if name == 'name':
                return lit(x.name)
            return UNDEF
        s = STATICS.get((x.name, name))
        if s is None:
            return it.uns(f'{x.name}.{name}', node, fr)
        return s
    if t is Spec:
        return spec_member(it, x, name, fr, node)
    return it.uns(f'{t.__name__}.{name}', node, fr)


def opaque_prop(it, term, name):
    """A member of an opaque JSON object: absent, null or anything."""
    has = z3.Function('has.' + name, U, z3.BoolSort())(term)
    isnull = z3.Function('null.' + name, U, z3.BoolSort())(term)
    val = z3.Function('member.' + name, U, U)(term)
    return mk_un([(And(has, Not(isnull)), O(val, 'json')), (And(has, isnull), NULL), (Not(has), UNDEF)])


def opaque_member(it, x, name, fr, node):
    if x.tag in ('obj', 'json', 'hdrs'):
        if name in PROTO:
            return it.uns('opaque.' + name, node, fr)
        return opaque_prop(it, x.term, name)
    if x.tag == 'arr' and name == 'length':
        ln = z3.Function('length', U, z3.IntSort())(x.term)
        it.ctx.fact(ln >= 0)
        return N(z3.ToReal(ln))
    if x.tag == 'arr' and (name in ('error', 'name', 'message', 'statusCode', 'data', 'object', 'id', 'then') or name not in JS_ARR):
        if name not in ARR_METHODS and name not in PROTO and not name.isdigit():
            return UNDEF
    if x.tag in ('buf', 'bytes'):
        if name == 'toString':
            def f(it, this, args, fr, nd):
                e = arg(args, 0)
                if isinstance(e, S) and e.lit() == 'base64' and x.tag == 'buf':
                    return S(('t', b64_f(x.term)))
                if x.tag == 'bytes':
                    return lit('[object ArrayBuffer]')
                k = e.lit() if isinstance(e, S) else ('utf8' if e is UNDEF else None)
                if k is None:
                    return it.uns('toString of bytes', nd, fr)
                return S(('t', uf_str('bytes.' + k, x.term)))
            return Nat('toString', f)
        if name == 'length' and x.tag == 'bytes':
            return UNDEF
        if name in ('byteLength', 'length'):
            ln = z3.Function('byteLength', U, z3.IntSort())(x.term)
            it.ctx.fact(ln >= 0)
            return N(z3.ToReal(ln))
        return it.uns('bytes.' + name, node, fr)
    if x.tag in ('err', 'val'):
        if name == 'message' and x.tag == 'err':
            return S(('t', uf_str('error.message', x.term)))
        if name == 'name' and x.tag == 'err':
            return S(('t', uf_str('error.name', x.term)))
        if name == 'then':
            return UNDEF
        return it.uns('error.' + name, node, fr)
    if x.tag in ('node', 'blob') and name == 'then':
        return UNDEF
    if x.tag == 'blob' and name in ('name', 'type'):
        return S(('t', uf_str('blob.' + name, x.term)))
    return it.uns(f'{x.tag}.{name}', node, fr)


def fn_member(it, x, name, fr, node):
    if name == 'bind':
        def bind(it, this, args, fr, nd):
            th = arg(args, 0)
            pre = list(args[1:])
            return Nat('bound', lambda it2, t2, a2, fr2, n2: it2.call(x, th, pre + list(a2), fr2, n2))
        return Nat('bind', bind)
    if name == 'call':
        return Nat('call', lambda it2, t, a, fr2, n2: it2.call(x, arg(a, 0), list(a[1:]), fr2, n2))
    if name == 'apply':
        def apply(it2, t, a, fr2, n2):
            v = arg(a, 1)
            if isinstance(v, Spec) and v.kind == 'arguments':
                return it2.call(x, arg(a, 0), list(v.args), fr2, n2)
            if isinstance(v, HArr) and all(isinstance(s, Elem) and is_t(s.guard) for s in v.segs):
                return it2.call(x, arg(a, 0), [s.value for s in v.segs], fr2, n2)
            return it2.uns('apply', n2, fr2)
        return Nat('apply', apply)
    if name == 'then':
        return UNDEF
    return it.uns('function.' + name, node, fr)


# ---- strings ---------------------------------------------------------------------
def str_member(it, x, name, fr, node):
    if name == 'length':
        l = x.lit()
        if l is not None:
            return N(len(l.encode('utf-16-le', 'surrogatepass')) // 2)
        return N(z3.ToReal(z3.Length(it.term(x))))
    f = STR_METHODS.get(name)
    if f is not None:
        return Nat(name, lambda it, this, a, fr, nd: f(it, x, a, fr, nd))
    if name == 'then':
        return UNDEF
    if name in JS_STR or name in PROTO or name.isdigit():
        return it.uns('string.' + name, node, fr)
    return UNDEF


JS_ARR = set('''at concat copyWithin entries every fill filter find findIndex findLast findLastIndex flat flatMap forEach includes
indexOf join keys lastIndexOf length map pop push reduce reduceRight reverse shift slice some sort splice toLocaleString toReversed
toSorted toSpliced toString unshift values with'''.split())
JS_STR = set('''at charAt charCodeAt codePointAt concat endsWith includes indexOf isWellFormed lastIndexOf localeCompare match
matchAll normalize padEnd padStart repeat replace replaceAll search slice split startsWith substring substr toLocaleLowerCase
toLocaleUpperCase toLowerCase toString toUpperCase toWellFormed trim trimEnd trimStart valueOf constructor'''.split())


def s_test(pred):
    def f(it, x, a, fr, nd):
        def g(y):
            if not isinstance(y, S):
                return it.uns('string test', nd, fr)
            return B(pred(it, x, y))
        return it.map(arg(a, 0), fr, g)
    return f


def starts(it, x, y):
    l, p = x.lit(), y.lit()
    if l is not None and p is not None:
        return z3.BoolVal(l.startswith(p))
    if p is not None and x.parts and x.parts[0][0] == 'lit':
        h = x.parts[0][1]
        if len(h) >= len(p):
            return z3.BoolVal(h.startswith(p))
        if not p.startswith(h):
            return FALSE
    return z3.PrefixOf(it.term(y), it.term(x))


def ends(it, x, y):
    l, p = x.lit(), y.lit()
    if l is not None and p is not None:
        return z3.BoolVal(l.endswith(p))
    return z3.SuffixOf(it.term(y), it.term(x))


def incl(it, x, y):
    l, p = x.lit(), y.lit()
    if l is not None and p is not None:
        return z3.BoolVal(p in l)
    if p is not None and any(q[0] == 'lit' and p in q[1] for q in x.parts):
        return TRUE
    return z3.Contains(it.term(x), it.term(y))


def str_fun(name, conc=None):
    """An uninterpreted function of the string (named by the method and its
    literal arguments): equal strings give equal results, nothing else is known."""
    def f(it, x, a, fr, nd):
        ks = []
        for v in a:
            if isinstance(v, S) and v.lit() is not None:
                ks.append(v.lit())
            elif it.num_lit(v) is not None:
                ks.append(it.num_lit(v))
            elif isinstance(v, Spec) and v.kind == 'regex':
                ks.append(f'/{v.src}/{v.flags}')
            else:
                return it.uns('string.' + name, nd, fr)
        l = x.lit()
        if conc and l is not None:
            return lit(conc(l, *ks))
        return S(('t', uf_str(f'String.{name}{tuple(ks)!r}', it.term(x))))
    return f


def s_replace(allf):
    def f(it, x, a, fr, nd):
        p, r = arg(a, 0), arg(a, 1)
        if not isinstance(r, S) or r.lit() is None:
            return it.uns('replace', nd, fr)
        every = (isinstance(p, Spec) and p.kind == 'regex' and p.flags in ('g', 'gu') and p.src in ('\\+', '[+]')) or (isinstance(p, S) and p.lit() == '+' and allf)
        if every and r.lit() == '%20' and any(q[0] == 'qs' for q in x.parts) and all(q[0] in ('enc', 'encat', 'qs') or q[0] == 'lit' and '+' not in q[1] for q in x.parts):
            return x        # the + of a serialized query stands for a space
        if isinstance(p, Spec) and p.kind == 'regex':
            g = 'g' in p.flags
            if p.src == '%40' and g and r.lit() == '@' and all(q[0] in ('enc', 'encat', 'lit') for q in x.parts):
                return S(*[('encat', q[1]) if q[0] == 'enc' else ('lit', q[1].replace('%40', '@')) if q[0] == 'lit' else q for q in x.parts])
            y = anchored_replace(it, x, p, r.lit())
            if y is not None:
                return y
            return str_fun('replace')(it, x, [p, r], fr, nd)
        if isinstance(p, S) and p.lit() is not None:
            l = x.lit()
            if l is not None and '$' not in r.lit():
                return lit(l.replace(p.lit(), r.lit()) if allf else l.replace(p.lit(), r.lit(), 1))
            if p.lit() == '%40' and allf and r.lit() == '@' and all(q[0] in ('enc', 'encat', 'lit') for q in x.parts):
                return S(*[('encat', q[1]) if q[0] == 'enc' else ('lit', q[1].replace('%40', '@')) if q[0] == 'lit' else q for q in x.parts])
            if not allf and p.lit() and '$' not in r.lit():
                return S(('t', z3.Replace(it.term(x), z3.StringVal(p.lit()), z3.StringVal(r.lit()))))
            return str_fun('replaceAll' if allf else 'replace')(it, x, [p, r], fr, nd)
        return it.uns('replace', nd, fr)
    return f


def simple_regex(p):
    """[(anchored at start, literal, anchored at end)] for a pattern that is an
    alternation of literals; None for any other."""
    if not set(p.flags) <= set('gu'):
        return None
    out = []
    for alt in p.src.split('|'):
        st, en = alt.startswith('^'), alt.endswith('$')
        body = alt[st:len(alt) - en]
        txt, i = '', 0
        while i < len(body):
            c = body[i]
            if c == '\\':
                i += 1
                if i >= len(body) or body[i].isalnum():
                    return None
                c = body[i]
            elif c in '.*+?()[]{}^$':
                return None
            txt += c
            i += 1
        if not txt:
            return None
        out.append((st, txt, en))
    return out


def regex_test(it, p, s):
    alts_ = simple_regex(p)
    if alts_ is None:
        return z3.Function(f'regex/{p.src}/{p.flags}', STR, z3.BoolSort())(it.term(s))
    out = []
    for st, txt, en in alts_:
        y = lit(txt)
        if st and en:
            out.append(it.term(s) == z3.StringVal(txt))
        else:
            out.append(starts(it, s, y) if st else ends(it, s, y) if en else incl(it, s, y))
    return Or(*out)


def anchored_replace(it, x, p, r):
    """replace of literals at the start and at the end of the string."""
    alts_ = simple_regex(p)
    if alts_ is None or '$' in r or any(st == en for st, _, en in alts_):
        return None
    pre, suf = [a for a in alts_ if a[0]], [a for a in alts_ if a[2]]
    if len(pre) > 1 or len(suf) > 1 or (pre and suf and 'g' not in p.flags):
        return None
    t, head, tail = it.term(x), z3.StringVal(''), z3.StringVal('')
    rv = z3.StringVal(r)
    if pre:
        y = z3.StringVal(pre[0][1])
        c = z3.PrefixOf(y, t)
        t, head = z3.If(c, z3.SubString(t, len(pre[0][1]), z3.Length(t) - len(pre[0][1])), t), z3.If(c, rv, head)
    if suf:
        y = z3.StringVal(suf[0][1])
        c = z3.SuffixOf(y, t)
        t, tail = z3.If(c, z3.SubString(t, 0, z3.Length(t) - len(suf[0][1])), t), z3.If(c, rv, tail)
    return S(('t', z3.Concat(head, t, tail) if r else t))


def s_slice(name):
    def f(it, x, a, fr, nd):
        ns = [it.num_lit(v) for v in a if v is not UNDEF]
        if any(n is None or n != int(n) for n in ns):
            return it.uns('string.' + name, nd, fr)
        l = x.lit()
        if name == 'substring':
            ns = sorted(max(n, 0) for n in ns) if len(ns) > 1 else [max(n, 0) for n in ns]
        i = ns[0] if ns else 0
        j = ns[1] if len(ns) > 1 else None
        if l is not None and l.isascii():
            return lit(l[i:] if j is None else l[i:j])
        t = it.term(x)
        n = z3.Length(t)
        if i >= 0:
            return S(('t', z3.SubString(t, i, (n if j is None else z3.IntVal(j) if j >= 0 else n + j) - i)))
        if j is None:
            return S(('t', z3.If(n < -i, t, z3.SubString(t, n + i, -i))))
        return str_fun(name)(it, x, a, fr, nd)
    return f


def s_at(name):
    def f(it, x, a, fr, nd):
        i = it.num_lit(arg(a, 0)) if a else 0
        if i is None or i < 0 or i != int(i):
            return it.uns('string.' + name, nd, fr)
        t = it.term(x)
        ch = S(('t', z3.SubString(t, i, 1)))
        if name == 'charAt':
            return ch
        c = z3.Length(t) > i
        return mk_un([(c, ch), (Not(c), UNDEF)])
    return f


def s_index_of(it, x, a, fr, nd):
    def one(y):
        if not isinstance(y, S) or len(a) > 1:
            return it.uns('string.indexOf', nd, fr)
        if x.lit() is not None and y.lit() is not None:
            return N(x.lit().find(y.lit()))
        return N(z3.ToReal(z3.IndexOf(it.term(x), it.term(y), 0)))
    return it.map(arg(a, 0), fr, one)


def s_split(it, x, a, fr, nd):
    sep = arg(a, 0)
    if len(a) == 1 and isinstance(sep, S) and sep.lit():
        return Spec('split', s=x, sep=sep.lit(), enc=False)
    return it.uns('string.split', nd, fr)


def split_member(it, x, name, fr, node):
    """s.split(sep), as far as joining it again goes."""
    if name == 'join':
        def join(it, this, a, fr, nd):
            j = arg(a, 0)
            if not isinstance(j, S) or j.lit() is None or (x.enc and j.lit() != x.sep):
                return it.uns('join of split', nd, fr)
            if j.lit() == x.sep and not x.enc:
                return x.s
            if not x.enc:
                return s_replace(True)(it, x.s, [lit(x.sep), j], fr, nd)
            e = g_encode(it, [x.s], fr, nd)             # encoding distributes over concatenation
            esc = urllib.parse.quote(x.sep, safe="-_.!~*'()")
            return it.map(e, fr, lambda y: y if esc == x.sep else s_replace(True)(it, y, [lit(esc), j], fr, nd))
        return Nat('join', join)
    if name == 'map':
        def map_(it, this, a, fr, nd):
            f = arg(a, 0)
            if isinstance(f, Nat) and f.name == 'encodeURIComponent' and not x.enc:
                return Spec('split', s=x.s, sep=x.sep, enc=True)
            if isinstance(f, Clo) and f.fn.get('expr') and not x.enc and len(f.fn['params']) == 1:
                probe = S(('t', it.ctx.fresh('part', STR)))
                r = cb(it, f, [probe], fr, nd)
                if same(r, probe):
                    return x
                if isinstance(r, S) and len(r.parts) == 1 and r.parts[0][0] == 'enc' and r.parts[0][1].get_id() == probe.parts[0][1].get_id():
                    return Spec('split', s=x.s, sep=x.sep, enc=True)
            return it.uns('map of split', nd, fr)
        return Nat('map', map_)
    return it.uns('split.' + name, node, fr)


def s_concat(it, x, a, fr, nd):
    out = x
    for v in a:
        out = it.concat(out, it.to_str(v, fr, nd), fr)
    return out


STR_METHODS = {
    'startsWith': s_test(starts), 'endsWith': s_test(ends), 'includes': s_test(incl),
    'toString': lambda it, x, a, fr, nd: x, 'valueOf': lambda it, x, a, fr, nd: x, 'concat': s_concat,
    'replace': s_replace(False), 'replaceAll': s_replace(True),
    'trim': str_fun('trim', lambda s: s.strip()), 'toLowerCase': str_fun('toLowerCase', lambda s: s.lower()),
    'toUpperCase': str_fun('toUpperCase', lambda s: s.upper()), 'trimStart': str_fun('trimStart'), 'trimEnd': str_fun('trimEnd'),
    'normalize': str_fun('normalize'), 'slice': s_slice('slice'), 'substring': s_slice('substring'), 'indexOf': s_index_of, 'split': s_split,
    'charAt': s_at('charAt'), 'at': s_at('at'), 'padStart': str_fun('padStart'), 'padEnd': str_fun('padEnd'), 'repeat': str_fun('repeat'),
    'toWellFormed': str_fun('toWellFormed'),
}


# ---- arrays ------------------------------------------------------------------------
def fixed(x):
    return all(isinstance(s, Elem) and is_t(s.guard) for s in x.segs)


def single_src(x):
    """The source of an array that has exactly one item per index of it."""
    if len(x.segs) == 1 and isinstance(x.segs[0], Loop):
        l = x.segs[0]
        if len(l.items) == 1 and is_t(l.items[0][0]):
            return l.src, l.items[0]
    return None, None


def per_index(it, x, act):
    """(source, value) of an array known, where act holds, to have exactly one item per index."""
    src, item = single_src(x)
    if src is not None:
        return src, item[1]
    if len(x.segs) == 1 and isinstance(x.segs[0], Loop) and not isinstance(x.segs[0].src, HSrc):
        l = x.segs[0]
        items = [(g, v) for g, v in l.items if it.ctx.feasible(And(act, l.src.inr(), g))]
        if items and it.ctx.check(act, l.src.inr(), Not(Or(*[g for g, _ in items]))) == z3.unsat \
                and all(it.ctx.check(act, l.src.inr(), items[i][0], items[j][0]) == z3.unsat for i in range(len(items)) for j in range(i)):
            return l.src, mk_un(items) if len(items) > 1 else items[0][1]
    return None, None


def arr_len(it, x, fr, node):
    tot, n = z3.IntVal(0), 0
    for s in x.segs:
        if isinstance(s, Elem):
            if is_t(s.guard):
                n += 1
            else:
                tot = tot + z3.If(s.guard, 1, 0)
        else:
            if isinstance(s.src, HSrc):
                return it.uns('number of headers', node, fr)
            whole = len(s.items) >= 1
            for g, _ in s.items:
                if it.ctx.check(s.src.inr(), fr.act, Not(g)) != z3.unsat:
                    whole = False
            if whole and len(s.items) == 1:
                tot = tot + s.src.len
                it.len_src[z3.ToReal(s.src.len).get_id()] = s.src
            else:
                k = ('len', seqkey([s]))
                if k not in it.w.qs_consts:
                    c = it.ctx.fresh('len', z3.IntSort())
                    it.w.qs_consts[k] = c
                    it.w.qs_keep.append(s)
                    it.ctx.fact(c >= 0)
                    it.ctx.fact(c <= s.src.len * len(s.items))
                    for g, _ in s.items:
                        it.ctx.fact(z3.Implies(z3.And(s.src.inr(), g), c > 0))
                tot = tot + it.w.qs_consts[k]
    if len(x.segs) == 1 and isinstance(x.segs[0], Loop):
        t = z3.simplify(tot)
        if t.get_id() == x.segs[0].src.len.get_id():
            e = z3.ToReal(x.segs[0].src.len)
            it.len_src[e.get_id()] = x.segs[0].src
            it.w.qs_keep.append(e)
            return N(e)
    return N(z3.simplify(z3.ToReal(tot + n)))


def push(it, x, v, fr, node, guard=TRUE):
    """Append v under the current guard."""
    g = And(fr.act, guard)
    if getattr(x, 'immutable', False):
        raise Unsupported('a push to a frozen array', node)
    if getattr(x, 'frozen', False):
        raise Unsupported('a sequence extended under two names in a loop', node)
    if x.owner:
        it.note_write(x, '', fr, guard)
    if x.level == it.level:
        born = getattr(x, 'born', TRUE)
        x.segs.append(Elem(TRUE if g.get_id() == born.get_id() else g, v))
        return
    if x.level == it.level - 1:
        lc = it.loops[-1]
        grown(x)
        if x._segs and isinstance(x._segs[-1], Loop) and x._segs[-1].ctx is lc:
            x._segs[-1].items.append((g, v))
        else:
            x._segs.append(Loop(lc.src, [(g, v)], lc))
        lc.pushed.append(x._segs[-1])
        return
    raise Unsupported('append across nested unbounded loops', node)


def new_arr(it, fr):
    a = HArr(it.level)
    a.born = fr.act
    return a


def cb(it, f, args, fr, node):
    return it.call(f, UNDEF, args, fr, node)


def idx_of(it, arr, fr):
    """The index value passed to a callback: known for fixed arrays only."""
    return None


def assigned(body, env):
    """Cells of the enclosing code that a loop body assigns, with whether the
    body also reads them."""
    names, declared, reads = {}, set(), {}

    def pats(p):
        if isinstance(p, dict):
            if p.get('t') == 'Id':
                declared.add(p['name'])
            for k, v in p.items():
                if k != 'def':
                    pats(v)
        elif isinstance(p, list):
            for v in p:
                pats(v)

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        if not isinstance(n, dict):
            return
        t = n.get('t')
        if t == 'Id':
            reads[n['name']] = reads.get(n['name'], 0) + 1
            return
        if t in ('Assign', 'Upd'):
            to = n['to'] if t == 'Assign' else n['e']
            if to.get('t') == 'Id':
                names[to['name']] = True
                if t == 'Assign' and n['op'] == '=':
                    walk(n['e'])
                    return
                reads[to['name']] = reads.get(to['name'], 0) + 1
            elif to.get('t') in ('ObjPat', 'ArrPat'):
                outer = set(declared)
                pats(to)
                for x in declared - outer:
                    names[x] = True
                declared.clear()
                declared.update(outer)
        if t == 'Var':
            for d in n['decls']:
                pats(d['pat'])
        if t == 'Fn':
            for q in n['params']:
                pats(q['pat'])
        if 'decl' in n and t in ('ForOf', 'ForIn'):
            pats(n['decl'])
        for k, v in n.items():
            walk(v)
    walk(body)
    out = []
    for x in names:
        if x in declared:
            continue
        c = env.find(x)
        if c is not None and c.owner != 'module':
            out.append((c, 'read' if reads.get(x) else 'written'))
    return out


def body_cells(it, f, level=None):
    """The outer variables a callback assigns."""
    if not isinstance(f, Clo) or f.env is None:
        return []
    return [(c, how) for c, how in assigned([f.fn.get('block'), f.fn.get('expr'), [p.get('def') for p in f.fn['params']]], f.env)
            if not any(q for q in f.fn['params'] if binds(q['pat'], c.name)) and c.level == it.level]


def binds(p, name):
    if isinstance(p, dict):
        return (p.get('t') == 'Id' and p.get('name') == name) or any(binds(v, name) for k, v in p.items() if k != 'def')
    if isinstance(p, list):
        return any(binds(v, name) for v in p)
    return False


def iterate(it, x, fr, node, body, f=None):
    """body(value, index) for each element in order."""
    n = [0]
    fx = fixed(x)

    def b(v):
        if fx:
            i = N(n[0])
            n[0] += 1
        elif it.loops and single_src(x)[0] is it.loops[-1].src:
            i = N(z3.ToReal(it.loops[-1].src.idx))
            it.w.qs_keep.append(i.e)
        else:
            i = _NoIndex()
        body(v, i)
    it.for_each(x, fr, b, node, body_cells(it, f) if f is not None and not fx else ())


class _NoIndex(Val):
    """An array index that is not tracked."""


def a_map(it, x, a, fr, nd):
    out = new_arr(it, fr)
    f = arg(a, 0)

    def body(v, i):
        r = cb(it, f, [v, i, x], fr, nd)
        if not is_f(fr.act):
            push(it, out, r, fr, nd)
    iterate(it, x, fr, nd, body, f)
    return out


def a_flat_map(it, x, a, fr, nd):
    out = new_arr(it, fr)

    def body(v, i):
        r = cb(it, arg(a, 0), [v, i, x], fr, nd)
        for g, y in it.ctx.cases(r, fr.act):
            if isinstance(y, HArr):
                for s in y.segs:
                    if not isinstance(s, Elem):
                        it.uns('flatMap over an unbounded sequence', nd, fr)
                        continue
                    push(it, out, s.value, fr, nd, And(g, s.guard))
            elif isinstance(y, O):
                it.uns('flatMap to an opaque value', nd, fr)
            else:
                push(it, out, y, fr, nd, g)
    iterate(it, x, fr, nd, body)
    return out


def a_filter(it, x, a, fr, nd):
    out = new_arr(it, fr)
    f = arg(a, 0)

    def body(v, i):
        if isinstance(f, ClassV) and f.name == 'Boolean':
            c = it.truthy(v, fr)
        else:
            c = it.truthy(cb(it, f, [v, i, x], fr, nd), fr)
        if it.ctx.feasible(And(fr.act, c)):
            act0 = fr.act
            push(it, out, it.ctx.prune(v, And(act0, c)), fr, nd, c)
    iterate(it, x, fr, nd, body)
    return out


def a_for_each(it, x, a, fr, nd):
    iterate(it, x, fr, nd, lambda v, i: cb(it, arg(a, 0), [v, i, x], fr, nd), arg(a, 0))
    return UNDEF


def a_reduce(it, x, a, fr, nd):
    if not all(isinstance(s, Elem) for s in x.segs):
        # an accumulator that is one mutable object may be folded like a loop,
        # a sequence also by extending it
        if len(a) > 1 and isinstance(a[1], HArr) and not a[1].owner:
            from interp import Cell
            cell = Cell(a[1], it.level, None, 'the accumulator')

            def body(v, i):
                act0 = fr.act
                r = cb(it, arg(a, 0), [cell.value, v, i, x], fr, nd)
                cell.value = mk_un([(fr.act, r), (Not(fr.act), cell.value)])

            def b2(v):
                s = it.loops[-1].src if it.loops else None
                i = N(z3.ToReal(s.idx)) if s is not None and single_src(x)[0] is s else _NoIndex()
                it.w.qs_keep.append(i)
                body(v, i)
            it.for_each(x, fr, b2, nd, [(cell, 'read')] + body_cells(it, arg(a, 0)))
            return cell.value
        if len(a) > 1 and isinstance(a[1], Heap):
            acc = a[1]

            def body(v, i):
                r = cb(it, arg(a, 0), [acc, v, i, x], fr, nd)
                if r is not acc:
                    raise Unsupported('reduce over an unbounded sequence', nd)
            iterate(it, x, fr, nd, body)
            return acc
        return it.uns('reduce over an unbounded sequence', nd, fr)
    box = {'acc': arg(a, 1)}
    if len(a) < 2:
        return it.uns('reduce without an initial value', nd, fr)

    def body(v, i):
        act0 = fr.act
        r = cb(it, arg(a, 0), [box['acc'], v, i, x], fr, nd)
        box['acc'] = r if is_t(act0) else mk_un([(act0, r), (Not(act0), box['acc'])])
    iterate(it, x, fr, nd, body)
    return it.ctx.prune(box['acc'], fr.act)


def effects(it, fr):
    return (len(fr.throws), len(it.events), len(it.logs), len(it.writes))


def quantify(it, x, a, fr, nd, want):
    """some (want=True) / every (want=False)."""
    f = arg(a, 0)
    res = FALSE                             # "some element satisfies (want)"
    for s in x.segs:
        def test(v):
            c = it.truthy(cb(it, f, [v, _NoIndex(), x], fr, nd), fr)
            return c if want else Not(c)
        if isinstance(s, Elem):
            act0 = fr.act
            fr.act = And(act0, s.guard, Not(res))
            before = effects(it, fr)
            if it.ctx.feasible(fr.act):
                res = Or(res, And(s.guard, test(s.value)))
            if len(fr.throws) != before[0]:
                return it.uns('a test that may throw', nd, fr)
            fr.act = act0
        elif isinstance(s, Prefix):
            return it.uns('a collection read in the loop that extends it', nd, fr)
        else:
            src = s.src
            lc = enter(src, it.level, nd)
            it.loops.append(lc)
            LOOPS.append(lc)
            act0 = fr.act
            T = FALSE
            before = effects(it, fr)
            try:
                for g, v in s.items:
                    fr.act = And(act0, src.inr(), g)
                    if it.ctx.feasible(fr.act):
                        T = Or(T, And(g, test(v)))
            finally:
                it.loops.pop()
                LOOPS.pop()
                fr.act = act0
            if effects(it, fr) != before or lc.grown:
                return it.uns('effects in a test of an unbounded sequence', nd, fr)
            res = Or(res, it.exists(src, T))
    return B(res if want else Not(res))


def a_join(it, x, a, fr, nd):
    sep = arg(a, 0)
    return it.join_arr(x, lit(',') if sep is UNDEF else sep, fr, nd)


def a_concat(it, x, a, fr, nd):
    combos = [(TRUE, [])]
    for v in a:
        cs = it.ctx.cases(v, fr.act)
        combos = [(And(g, h), ys + [y]) for g, ys in combos for h, y in cs]
        if len(combos) > 16:
            return it.uns('concat of many alternatives', nd, fr)
    out, act0 = [], fr.act
    for g, ys in combos:
        fr.act = And(act0, g)
        if it.ctx.feasible(fr.act):
            o = new_arr(it, fr)
            append_all(it, o, x, fr, nd)
            for y in ys:
                if isinstance(y, HArr):
                    append_all(it, o, y, fr, nd)
                elif isinstance(y, O):
                    it.uns('concat of an opaque value', nd, fr)
                else:
                    push(it, o, y, fr, nd)
            out.append((g, o))
    fr.act = act0
    return mk_un(out)


def a_push(it, x, a, fr, nd):
    for v in a:
        push(it, x, v, fr, nd)
    return _NoIndex()


def a_slice(it, x, a, fr, nd):
    i = it.num_lit(a[0]) if a else 0
    if i is None:
        return it.uns('slice', nd, fr)
    if len(a) < 2:
        if i == 0:
            return a_concat(it, x, [], fr, nd)
        if i > 0:
            return arr_slice(it, x, i, fr, nd)
    if fixed(x):
        j = it.num_lit(a[1]) if len(a) > 1 else len(x.segs)
        if j is not None:
            return it.arr([s.value for s in x.segs[i:j]])
    # a slice of an unbounded sequence: nothing is known but that it is a function of it
    raise Unsupported('slice of an unbounded sequence', nd)


def a_includes(it, x, a, fr, nd):
    v = arg(a, 0)
    if all(isinstance(s, Elem) for s in x.segs):
        return B(Or(*[And(s.guard, it.eq(s.value, v, fr, nd)) for s in x.segs]))
    return quantify(it, x, [Nat('eq', lambda it2, t, b, fr2, n2: B(it2.eq(arg(b, 0), v, fr2, n2)))], fr, nd, True)


def a_at(it, x, a, fr, nd):
    return index(it, x, arg(a, 0), fr, nd)


def a_find(it, x, a, fr, nd):
    if not all(isinstance(s, Elem) for s in x.segs):
        return it.uns('find over an unbounded sequence', nd, fr)
    out, none = [], TRUE
    for s in x.segs:
        act0 = fr.act
        fr.act = And(act0, s.guard, none)
        n = len(fr.throws)
        if not it.ctx.feasible(fr.act):
            fr.act = act0
            continue
        c = And(s.guard, it.truthy(cb(it, arg(a, 0), [s.value, _NoIndex(), x], fr, nd), fr))
        if len(fr.throws) != n:
            return it.uns('a test that may throw', nd, fr)
        fr.act = act0
        out.append((And(none, c), s.value))
        none = And(none, Not(c))
    return it.ctx.prune(mk_un(out + [(none, UNDEF)]), fr.act)


def a_flat(it, x, a, fr, nd):
    if len(x.segs) == 1 and isinstance(x.segs[0], Elem) and is_t(x.segs[0].guard):
        out, act0 = [], fr.act
        cs = it.ctx.cases(x.segs[0].value, act0)
        for g, y in cs:
            fr.act = And(act0, g)
            if isinstance(y, HArr):
                out.append((g, a_concat(it, y, [], fr, nd)))
            elif isinstance(y, O):
                out.append((g, it.uns('flat of an opaque value', nd, fr)))
            else:
                out.append((g, it.arr([y])))
        fr.act = act0
        return mk_un(out)
    out = new_arr(it, fr)
    for s in x.segs:
        if not isinstance(s, Elem):
            return it.uns('flat of an unbounded sequence', nd, fr)
        for g, y in it.ctx.cases(s.value, fr.act):
            if isinstance(y, HArr):
                append_all(it, out, y, fr, nd, And(g, s.guard))
            elif isinstance(y, O):
                it.uns('flat of an opaque value', nd, fr)
            else:
                push(it, out, y, fr, nd, And(g, s.guard))
    return out


def a_entries(it, x, a, fr, nd):
    out = new_arr(it, fr)

    def body(v, i):
        push(it, out, it.arr([i, v]), fr, nd)
    iterate(it, x, fr, nd, body)
    return out


def a_reverse(it, x, a, fr, nd):
    if fixed(x) and not getattr(x, 'immutable', False) and x.level == it.level \
            and (fr.act.get_id() == getattr(x, 'born', TRUE).get_id() or not it.ctx.feasible(Not(fr.act))):
        it.note_write(x, '', fr)
        x.segs.reverse()
        return x
    if x.owner:
        it.note_write(x, '', fr)
    raise Unsupported('reverse of an unbounded sequence', nd)


def mutator(name):
    def f(it, x, a, fr, nd):
        if x.owner:
            it.note_write(x, '', fr)
        raise Unsupported('array.' + name, nd)
    return f


ARR_METHODS = {
    'map': a_map, 'filter': a_filter, 'forEach': a_for_each, 'flatMap': a_flat_map, 'reduce': a_reduce, 'join': a_join,
    'concat': a_concat, 'push': a_push, 'slice': a_slice, 'includes': a_includes, 'at': a_at, 'find': a_find, 'flat': a_flat,
    'some': lambda it, x, a, fr, nd: quantify(it, x, a, fr, nd, True),
    'every': lambda it, x, a, fr, nd: quantify(it, x, a, fr, nd, False),
    'entries': a_entries, 'values': lambda it, x, a, fr, nd: x, 'reverse': a_reverse,
    'toString': lambda it, x, a, fr, nd: it.join_arr(x, lit(','), fr, nd),
    'sort': mutator('sort'), 'splice': mutator('splice'), 'pop': mutator('pop'), 'shift': mutator('shift'), 'unshift': mutator('unshift'),
}


def arr_member(it, x, name, fr, node):
    if name == 'length':
        return arr_len(it, x, fr, node)
    f = ARR_METHODS.get(name)
    if f is not None:
        return Nat(name, lambda it, this, a, fr, nd: f(it, x, a, fr, nd))
    if name.isdigit():
        return arr_at(it, x, int(name), fr, node)
    if name in PROTO or name in JS_ARR:
        return it.uns('array.' + name, node, fr)
    return UNDEF


def arr_at(it, x, i, fr, node):
    if isinstance(x, HArr):
        if fixed(x):
            return x.segs[i].value if i < len(x.segs) else UNDEF
        src, item = single_src(x)
        if src is not None and not isinstance(src, HSrc):
            ii = z3.IntVal(i)
            v = subst(item[1], [(src.idx, ii)])
            return it.ctx.prune(mk_un([(i < src.len, v), (Not(z3.simplify(i < src.len)), UNDEF)]), fr.act)
        lead = []                            # the items before the first unbounded part
        for s in x.segs:
            if not isinstance(s, Elem):
                break
            lead.append(s)
        whole = len(lead) == len(x.segs)
        if len(lead) <= 8 and i <= 3 and (whole or sum(is_t(s.guard) for s in lead) > i):
            out, cnt = [], {0: TRUE}          # cnt[n]: n items so far
            for s in lead:
                g = TRUE if is_t(s.guard) or not it.ctx.feasible(And(fr.act, Not(s.guard))) else s.guard
                out.append((And(cnt.get(i, FALSE), g), s.value))
                cnt = {n: Or(And(cnt.get(n, FALSE), Not(g)), And(cnt.get(n - 1, FALSE), g)) for n in range(0, i + 2)}
            if whole:
                out.append((Or(*[cnt.get(n, FALSE) for n in range(i + 1)]), UNDEF))
            return it.ctx.prune(mk_un([(g, v) for g, v in out if not is_f(g)]), fr.act)
    if isinstance(x, O):
        if x.tag in ('arr', 'json'):
            return opaque_prop(it, x.term, str(i))
    if x in (UNDEF, NULL):
        it.throw(fr, it.err('TypeError', 'not iterable'))
        return UNDEF
    return it.uns('element %d of %r' % (i, type(x).__name__), node, fr)


def arr_slice(it, x, i, fr, node):
    if isinstance(x, HArr):
        if i == 0:
            return a_concat(it, x, [], fr, node)
        if fixed(x):
            return it.arr([s.value for s in x.segs[i:]])
        src, item = single_src(x)
        if src is not None and not isinstance(src, HSrc):
            o = new_arr(it, fr)
            o.segs = [Loop(src, [(And(item[0], src.idx >= i), item[1])])]
            return o
    return it.uns('slice', node, fr)


def append_all(it, out, v, fr, node, guard=TRUE):
    """out.push(...v)"""
    for g0, x in it.ctx.cases(v, fr.act):
        g = And(guard, g0)
        x = to_arr(it, x, fr, node)
        if x is None:
            continue
        for s in list(x.segs):
            if isinstance(s, Elem):
                push(it, out, s.value, fr, node, And(g, s.guard))
            elif isinstance(s, Prefix):
                if out.segs or out.level != it.level or And(fr.act, g).get_id() != getattr(out, 'born', TRUE).get_id():
                    raise Unsupported('use of a sequence while a loop extends it', node)
                out.segs.append(s)
            else:
                if out.level != it.level:
                    raise Unsupported('spread of an unbounded sequence in a loop', node)
                gg = And(fr.act, g)
                gg = TRUE if gg.get_id() == getattr(out, 'born', TRUE).get_id() else gg
                out.segs.append(Loop(s.src, [(And(gg, h), y) for h, y in s.items], s.ctx))


def to_arr(it, x, fr, node):
    """The elements of an iterable."""
    if isinstance(x, HArr):
        return x
    if isinstance(x, HHeaders):
        return hdr_entries(it, x)
    if isinstance(x, HUsp):
        return HArr(it.level, [Elem(g, it.arr([k, v])) for g, k, v in x.items])
    if isinstance(x, HForm):
        return HArr(it.level, [Elem(g, it.arr([k, v])) for g, k, v in x.items])
    if isinstance(x, Spec) and x.kind in ('resph', 'resph_entries'):
        return resph_arr(it, x)
    if isinstance(x, HMap) and x.kind in ('Map', 'Set'):
        return map_arr(it, x, 'entries' if x.kind == 'Map' else 'keys', fr, node)
    if x in (UNDEF, NULL) or isinstance(x, (N, B, HObj)):
        it.throw(fr, it.err('TypeError', 'not iterable'))
        return None
    it.uns('iteration over ' + type(x).__name__, node, fr)
    return None


def same_index(k, src):
    return isinstance(k, N) and k.e.get_id() == z3.ToReal(src.idx).get_id()


def index(it, o, k, fr, node):
    def one(x):
        def byk(kk):
            if isinstance(kk, S):
                if kk.lit() is not None:
                    return it.get1(x, kk.lit(), fr, node)
                return dyn_get(it, x, kk, fr, node)
            n = it.num_lit(kk) if isinstance(kk, N) else None
            if isinstance(x, HArr):
                if n is not None and n >= 0 and n == int(n):
                    return arr_at(it, x, int(n), fr, node)
                if n is not None and n < 0:
                    return it.uns('negative index', node, fr)
                src, v = per_index(it, x, fr.act)
                if src is not None and same_index(kk, src):
                    return it.ctx.prune(v, fr.act)
            if x in (UNDEF, NULL):
                it.throw(fr, it.err('TypeError', 'index of undefined'))
                return UNDEF
            if isinstance(x, O) and x.tag in ('obj', 'json', 'arr') and n is not None and n >= 0 and n == int(n):
                return opaque_prop(it, x.term, str(int(n)))
            return it.uns('computed member of ' + type(x).__name__, node, fr)
        return it.map(k, fr, byk)
    return it.map(o, fr, one)


PROTO = ('constructor', '__proto__', 'toString', 'toLocaleString', 'valueOf', 'hasOwnProperty', 'isPrototypeOf', 'propertyIsEnumerable',
         '__defineGetter__', '__defineSetter__', '__lookupGetter__', '__lookupSetter__')


def dyn_get(it, x, k, fr, node):
    """x[k] for a symbolic string k: over the known members."""
    if isinstance(x, HObj) and not x.rests and not isinstance(x.cls, ClassV):
        out, none = [], TRUE
        t = it.term(k)
        if it.ctx.feasible(And(fr.act, Or(*[t == z3.StringVal(n) for n in PROTO if n not in x.fields]))):
            return it.uns('member that may be inherited', node, fr)
        for name, (p, v) in x.fields.items():
            c = t == z3.StringVal(name)
            out.append((And(none, c, p), v))
            none = And(none, Not(And(c, p)))
        return it.ctx.prune(mk_un(out + [(none, UNDEF)]), fr.act)
    return it.uns('computed member', node, fr)


def set_index(it, o, k, v, fr, node):
    for g, x in it.ctx.cases(o, fr.act):
        if isinstance(x, HArr) and isinstance(k, N):
            n = it.num_lit(k)
            if n is not None and fixed(x) and n == len(x.segs):
                push(it, x, v, fr, node, g)
                continue
            if it.loops and same_index(k, it.loops[-1].src) and not x.segs:
                push(it, x, v, fr, node, g)
                continue
        if isinstance(x, HObj) and it.loops and isinstance(it.loops[-1].src, HSrc) and isinstance(k, S):
            src = it.loops[-1].src
            if same(k, S(('t', src.hk))) and getattr(src, 'resp', None) is not None and isinstance(v, S) and same(v, src.val):
                if not x.fields:
                    x.rests.append((subst_act(it, fr, src), src.resp))
                    continue
        it.uns('computed assignment', node, fr)


def subst_act(it, fr, src):
    """The guard of the loop body without the condition that the entry exists."""
    cs = fr.act.children() if z3.is_and(fr.act) else [fr.act]
    return And(*[c for c in cs if c.get_id() != src.cond.get_id()])


# ---- loops -------------------------------------------------------------------------
def run_body(it, s, env, fr):
    fr.cont.append([])
    it.block1(s, env, fr)
    c = fr.cont.pop()
    if c:
        fr.act = Or(fr.act, *c)


def loop(it, s, env, fr):
    t = s['t']
    fr.brk.append([])
    act0 = fr.act
    try:
        if t == 'ForOf':
            v = it.ev(s['e'], env, fr)
            for g, x in it.ctx.cases(v, fr.act):
                a0 = fr.act
                fr.act = And(a0, g)
                arr = to_arr(it, x, fr, s)
                if arr is not None:
                    def body(val):
                        e2 = Env(env)
                        if 'decl' in s:
                            it.bind(s['decl'], val, e2, fr)
                        else:
                            it.assign_to(s['to'], val, e2, fr)
                        run_body(it, s['body'], e2, fr)
                    accs = [] if fixed(arr) else [(c, h) for c, h in assigned(s['body'], env) if c.level == it.level and not binds(s.get('decl'), c.name)]
                    it.for_each(arr, fr, body, s, accs)
                if not is_t(g):
                    fr.act = Or(fr.act, And(a0, Not(g)))
        elif t == 'ForIn':
            v = it.ev(s['e'], env, fr)
            for g, x in it.ctx.cases(v, fr.act):
                if x in (UNDEF, NULL):
                    continue
                if not isinstance(x, HObj) or x.rests:
                    it.uns('for-in', s, fr)
                    continue
                a0 = fr.act
                fr.act = And(a0, g)
                arr = HArr(it.level, [Elem(p, lit(k)) for k, (p, _) in x.fields.items()])

                def body(val):
                    e2 = Env(env)
                    if 'decl' in s:
                        it.bind(s['decl'], val, e2, fr)
                    else:
                        it.assign_to(s['to'], val, e2, fr)
                    run_body(it, s['body'], e2, fr)
                it.for_each(arr, fr, body, s)
                if not is_t(g):
                    fr.act = Or(fr.act, And(a0, Not(g)))
        else:
            e2 = Env(env)
            if t == 'For':
                if s['init'] is not None:
                    it.st(s['init'], e2, fr)
                if counted(it, s, e2, fr):
                    return
            if t == 'While' and counted_while(it, s, e2, fr):
                return
            first = t == 'Do'
            for n in range(65):
                if is_f(fr.act):
                    break
                if not first and s.get('c') is not None:
                    c = it.truthy(it.ev(s['c'], e2, fr), fr)
                    ga, gb = And(fr.act, c), And(fr.act, Not(c))
                    if it.ctx.feasible(gb):
                        fr.brk[-1].append(gb)
                        fr.act = ga if it.ctx.feasible(ga) else FALSE
                    if is_f(fr.act):
                        break
                first = False
                run_body(it, s['body'], e2, fr)
                if t == 'For' and s['u'] is not None and not is_f(fr.act):
                    it.ev(s['u'], e2, fr)
                if n >= 40:
                    raise Unsupported('loop without a recognised bound', s)
    finally:
        b = fr.brk.pop()
        if b:
            fr.act = Or(fr.act, *b)
            if len(b) == 1 and fr.act.get_id() == act0.get_id():
                fr.act = act0


def counted(it, s, env, fr):
    """for (let i = 0; i < <length of an unbounded sequence>; i++)"""
    init, c, u = s['init'], s['c'], s['u']
    if not init or init['t'] != 'Var' or not c or c['t'] != 'Bin' or c['op'] != '<' or c['a']['t'] != 'Id':
        return False
    i = c['a']['name']
    cell = env.vars.get(i)
    if cell is None or not isinstance(cell.value, N) or it.num_lit(cell.value) != 0:
        return False
    ok = u is not None and ((u['t'] == 'Upd' and u['op'] == '++' and u['e'].get('name') == i)
                            or (u['t'] == 'Assign' and u['op'] == '+=' and u['to'].get('name') == i and u['e'].get('v') == '1'))
    if not ok or assigns(s['body'], i):
        return False
    bound = it.ev(c['b'], env, fr)
    if not isinstance(bound, N):
        return False
    src = it.len_src.get(bound.e.get_id())
    if src is None:
        return False

    def body(_):
        e2 = Env(env)
        iv = N(z3.ToReal(src.idx))
        it.w.qs_keep.append(iv.e)
        e2.vars[i] = Cell(iv, it.level)
        run_body(it, s['body'], e2, fr)
    accs = [(c, h) for c, h in assigned(s['body'], env) if c.level == it.level]
    it.generic(Loop(src, [(TRUE, UNDEF)]), fr, body, s, accs)
    same_bound(it, c['b'], bound, env, fr, s)
    return True


def same_bound(it, e, bound, env, fr, s):
    if is_f(fr.act):
        return
    b = it.ev(e, env, fr)
    if not isinstance(b, N) or not z3.eq(z3.simplify(b.e), z3.simplify(bound.e)):
        raise Unsupported('loop bound changed by the loop', s)


def counted_while(it, s, env, fr):
    """while (i < <length of an unbounded sequence>), i counting from 0"""
    c = s['c']
    if c['t'] != 'Bin' or c['op'] not in ('<', '!==', '!=') or c['a']['t'] != 'Id':
        return False
    cell = env.find(c['a']['name'])
    if cell is None or not isinstance(cell.value, N) or it.num_lit(cell.value) != 0 or cell.level != it.level:
        return False
    bound = it.ev(c['b'], env, fr)
    src = it.len_src.get(bound.e.get_id()) if isinstance(bound, N) else None
    if src is None:
        return False
    accs = [(x, h) for x, h in assigned(s['body'], env) if x.level == it.level]
    if not any(x is cell for x, _ in accs):
        return False
    it.generic(Loop(src, [(TRUE, UNDEF)]), fr, lambda _: run_body(it, s['body'], Env(env), fr), s, accs)
    same_bound(it, c['b'], bound, env, fr, s)
    return True


def assigns(n, name):
    if isinstance(n, dict):
        if n.get('t') in ('Assign', 'Upd'):
            to = n.get('to') or n.get('e')
            if isinstance(to, dict) and to.get('t') == 'Id' and to.get('name') == name:
                return True
        return any(assigns(v, name) for v in n.values())
    if isinstance(n, list):
        return any(assigns(v, name) for v in n)
    return False


# ---- URLSearchParams ---------------------------------------------------------------
def parse_query(it, s, fr, node):
    """The parameters a query string decodes to: [(guard, key, value)]."""
    items = []
    parts = list(s.parts)
    cur = []                                 # atoms of the current key=value
    def flush():
        nonlocal cur
        if not cur:
            return
        k, v, seen = [], [], False
        for p in cur:
            if p[0] == 'lit' and not seen and '=' in p[1]:
                a, b = p[1].split('=', 1)
                k.append(('lit', urllib.parse.unquote_plus(a)))
                if b:
                    v.append(('lit', urllib.parse.unquote_plus(b)))
                seen = True
            else:
                if p[0] == 'lit':
                    q = ('lit', urllib.parse.unquote_plus(p[1]))
                elif p[0] in ('enc', 'encat'):
                    q = ('t', p[1])
                elif p[0] == 't':
                    if it.ctx.check(fr.act, Not(urlsafe(p[1]))) == z3.unsat:
                        q = p
                    else:
                        q = ('t', uf_str('formDecode', p[1]))     # what a raw string decodes to: not itself
                elif p[0] == 'joina':
                    q = ('t', uf_str('formDecode', p[2]))
                elif p[0] == 'join' and all(is_t(g) and all(x[0] in ('enc', 'encat', 'lit') for x in y.parts) for g, y in p[2]):
                    q = ('t', uf_str('formDecode', it.term(S(p))))
                else:
                    raise Unsupported('query string part ' + p[0], node)
                (v if seen else k).append(q)
        items.append((TRUE, S(*k), S(*v)))
        cur = []
    for p in parts:
        if p[0] == 'lit':
            chunks = p[1].split('&')
            for i, c in enumerate(chunks):
                if i:
                    flush()
                if c:
                    cur.append(('lit', c))
        elif p[0] == 'qs':
            if cur:
                raise Unsupported('query string layout', node)
            items.extend(p[1])
        elif p[0] == 'join' and p[1] == '&':
            if cur:
                raise Unsupported('query string layout', node)
            for g, y in p[2]:
                for g2, k, v in parse_query(it, y, fr, node):
                    items.append((And(g, g2), k, v))
        else:
            cur.append(p)
    flush()
    return items


def usp_new(it, mode, args, fr, node):
    def one(v):
        u = HUsp(it.level)
        u.born = fr.act
        if v is UNDEF:
            return u
        if isinstance(v, S):
            if v.parts and v.parts[0][0] == 'lit' and v.parts[0][1].startswith('?'):
                v = S(('lit', v.parts[0][1][1:]), *v.parts[1:])
            u.items = parse_query(it, v, fr, node)
            return u
        if isinstance(v, HUsp):
            u.items = list(v.items)
            return u
        if isinstance(v, HObj) and not v.rests:
            for k, (p, x) in v.fields.items():
                for g, y in it.ctx.cases(x, fr.act):
                    u.items.append((And(p, g), lit(k), it.to_str(y, fr, node)))
            return u
        if isinstance(v, HArr) and all(isinstance(s, Elem) for s in v.segs):
            for s in v.segs:
                if not (isinstance(s.value, HArr) and fixed(s.value) and len(s.value.segs) == 2):
                    return it.uns('URLSearchParams of an array', node, fr)
                k, x = s.value.segs[0].value, s.value.segs[1].value
                for g, y in it.ctx.cases(x, fr.act):
                    u.items.append((And(s.guard, g), it.to_str(k, fr, node), it.to_str(y, fr, node)))
            return u
        return it.uns('URLSearchParams of ' + type(v).__name__, node, fr)
    return it.map(arg(args, 0), fr, one)


def usp_guard(u, fr):
    return TRUE if fr.act.get_id() == getattr(u, 'born', TRUE).get_id() else fr.act


def usp_put(it, u, k, v, fr, node, replace):
    for gk, kk in it.ctx.cases(it.to_str(k, fr, node), fr.act):
        for gv, vv in it.ctx.cases(it.to_str(v, fr, node), fr.act):
            g = And(usp_guard(u, fr), gk, gv)
            it.check_level(u.level, 'a query', node, fr)
            if replace:
                if kk.lit() is None or any(k0.lit() is None for _, k0, _ in u.items):
                    it.uns('query parameter with a computed name', node, fr)
                    continue
                # set keeps the position of the first occurrence
                u.items = [(And(g0, Not(g)) if k0.lit() == kk.lit() else g0, k0, v0) for g0, k0, v0 in u.items]
                u.items = [x for x in u.items if it.ctx.feasible(x[0])]
            u.items.append((g, kk, vv))
    return UNDEF


def usp_member(it, x, name, fr, node):
    if name in ('set', 'append'):
        return Nat(name, lambda it, this, a, fr, nd: usp_put(it, x, arg(a, 0), arg(a, 1), fr, nd, name == 'set'))
    if name == 'toString':
        return Nat(name, lambda it, this, a, fr, nd: it.qs(x))
    if name == 'size':
        return N(z3.simplify(z3.ToReal(z3.Sum([z3.If(g, 1, 0) for g, _, _ in x.items] + [z3.IntVal(0)]))))
    if name == 'has':
        def has(it, this, a, fr, nd):
            k = arg(a, 0)
            if not isinstance(k, S) or k.lit() is None:
                return it.uns('URLSearchParams.has', nd, fr)
            if any(kk.lit() is None for _, kk, _ in x.items):
                return it.uns('query parameter with a computed name', nd, fr)
            return B(Or(*[g for g, kk, _ in x.items if kk.lit() == k.lit()]))
        return Nat(name, has)
    if name == 'delete':
        def delete(it, this, a, fr, nd):
            k = arg(a, 0)
            if not isinstance(k, S) or k.lit() is None:
                return it.uns('URLSearchParams.delete', nd, fr)
            if any(kk.lit() is None for _, kk, _ in x.items):
                return it.uns('query parameter with a computed name', nd, fr)
            g = usp_guard(x, fr)
            x.items = [(And(g0, Not(g)) if kk.lit() == k.lit() else g0, kk, v) for g0, kk, v in x.items]
            return UNDEF
        return Nat(name, delete)
    if name == 'get':
        def get(it, this, a, fr, nd):
            k = arg(a, 0)
            if not isinstance(k, S) or k.lit() is None:
                return it.uns('URLSearchParams.get', nd, fr)
            if any(kk.lit() is None for _, kk, _ in x.items):
                return it.uns('query parameter with a computed name', nd, fr)
            out, none = [], TRUE
            for g, kk, v in x.items:
                if kk.lit() == k.lit():
                    out.append((And(none, g), v))
                    none = And(none, Not(g))
            return mk_un(out + [(none, NULL)])
        return Nat(name, get)
    if name == 'entries':
        return Nat(name, lambda it, this, a, fr, nd: to_arr(it, x, fr, nd))
    if name == 'forEach':
        def fe(it, this, a, fr, nd):
            it.for_each(HArr(it.level, [Elem(g, it.arr([v, k])) for g, k, v in x.items]), fr,
                        lambda p: cb(it, arg(a, 0), [p.segs[0].value, p.segs[1].value, x], fr, nd), nd)
            return UNDEF
        return Nat(name, fe)
    if name == 'then':
        return UNDEF
    return it.uns('URLSearchParams.' + name, node, fr)


# ---- Map, Set -------------------------------------------------------------------------
def map_put(it, x, op, k, v, fr, node, guard=TRUE):
    g = And(fr.act, guard)
    if x.owner:
        it.note_write(x, '', fr, guard)
    if x.level != it.level:
        if x.level != it.level - 1:
            raise Unsupported('a map written across nested unbounded loops', node)
        grown(x)
        x.loopy = True
        return
    born = getattr(x, 'born', TRUE)
    x.log.append((op, TRUE if g.get_id() == born.get_id() else g, k, v))


def map_get(it, x, k, fr, node):
    """[(guard, value)]: what each entry contributes, and the guard of there being none."""
    out, none = [], TRUE
    for op, g, kk, v in reversed(x.log):
        c = And(g, TRUE if op == 'clear' else it.eq(kk, k, fr, node))
        if op == 'set':
            out.append((And(none, c), v))
        none = And(none, Not(c))
        if is_f(none):
            break
    return out


def map_entries(it, x, fr, node):
    """[(guard, key, value)] in order of first insertion."""
    log = x.log
    if any(e[0] != 'set' for e in log):
        it.uns('the entries of a map after a deletion', node, fr)
        return []
    out = []
    for i, (_, g, k, v) in enumerate(log):
        first = And(g, *[Not(And(h, it.eq(kk, k, fr, node))) for _, h, kk, _ in log[:i]])
        if not is_f(first):
            out.append((first, k, k if 'Set' in x.kind else it.ctx.prune(mk_un(map_get(it, x, k, fr, node)), And(fr.act, first))))
    return out


def map_arr(it, x, what, fr, node):
    return HArr(it.level, [Elem(g, k if what == 'keys' else v if what == 'values' else it.arr([k, v])) for g, k, v in map_entries(it, x, fr, node)])


def map_new(kind):
    def f(it, mode, args, fr, node):
        h = HMap(kind, it.level)
        h.born = fr.act
        for g, x in it.ctx.cases(arg(args, 0), fr.act):
            if x in (UNDEF, NULL):
                continue
            x = to_arr(it, x, fr, node)
            if x is None:
                continue
            for s in x.segs:
                if not isinstance(s, Elem):
                    return it.uns(f'{kind} of an unbounded sequence', node, fr)
                if 'Set' in kind:
                    map_put(it, h, 'set', s.value, TRUE, fr, node, And(g, s.guard))
                else:
                    map_put(it, h, 'set', index(it, s.value, N(0), fr, node), index(it, s.value, N(1), fr, node), fr, node, And(g, s.guard))
        return h
    return f


def map_member(it, x, name, fr, node):
    st = 'Set' in x.kind
    if name == 'get' and not st:
        def get(it, this, a, fr, nd):
            out = map_get(it, x, arg(a, 0), fr, nd)
            return it.ctx.prune(mk_un(out + [(Not(Or(*[g for g, _ in out])), UNDEF)]), fr.act)
        return Nat(name, get)
    if name == 'has':
        return Nat(name, lambda it, this, a, fr, nd: B(Or(*[g for g, _ in map_get(it, x, arg(a, 0), fr, nd)])))
    if name == ('add' if st else 'set'):
        def put(it, this, a, fr, nd):
            map_put(it, x, 'set', arg(a, 0), arg(a, 1), fr, nd)
            return x
        return Nat(name, put)
    if name == 'delete':
        def delete(it, this, a, fr, nd):
            had = Or(*[g for g, _ in map_get(it, x, arg(a, 0), fr, nd)])
            map_put(it, x, 'del', arg(a, 0), UNDEF, fr, nd)
            return B(had)
        return Nat(name, delete)
    if x.kind in ('Map', 'Set'):
        if name == 'clear':
            def clear(it, this, a, fr, nd):
                map_put(it, x, 'clear', UNDEF, UNDEF, fr, nd)
                return UNDEF
            return Nat(name, clear)
        if name == 'size':
            es = map_entries(it, x, fr, node)
            return N(z3.simplify(z3.ToReal(z3.Sum([z3.If(g, 1, 0) for g, _, _ in es] + [z3.IntVal(0)]))))
        if name in ('keys', 'values', 'entries'):
            w = 'keys' if name == 'values' and st else name
            return Nat(name, lambda it, this, a, fr, nd: map_arr(it, x, w, fr, nd))
        if name == 'forEach':
            def fe(it, this, a, fr, nd):
                it.for_each(map_arr(it, x, 'entries', fr, nd), fr, lambda p: cb(it, arg(a, 0), [p.segs[1].value, p.segs[0].value, x], fr, nd), nd)
                return UNDEF
            return Nat(name, fe)
    if name == 'then':
        return UNDEF
    return it.uns(f'{x.kind}.{name}', node, fr)


# ---- Headers --------------------------------------------------------------------------
def lookup(it, layers, name):
    """(is there, value) of a header, as terms. name: a python string or a term."""
    nt = z3.StringVal(name) if isinstance(name, str) else name
    has, val = FALSE, z3.StringVal('')
    for l in layers:
        k = l[0]
        if k in ('set', 'del', 'append'):
            key = l[2]
            if isinstance(name, str) and isinstance(key, str):
                c = TRUE if key == name else FALSE
            elif isinstance(key, str):
                c = nt == z3.StringVal(key)
            else:
                c = key == nt
            c = And(l[1], c)
            if is_f(c):
                continue
            if k == 'set':
                val = Ite(c, l[3], val)
                has = Or(c, has)
            elif k == 'append':
                val = Ite(c, Ite(has, z3.Concat(val, z3.StringVal(', '), l[3]), l[3]), val)
                has = Or(c, has)
            else:
                has = And(has, Not(c))
        elif k == 'over':
            c = And(l[1], l[2].has(nt))
            val = Ite(c, l[2].val(nt), val)
            has = Or(c, has)
        elif k == 'loop':
            _, g, hk, v, src = l
            c = z3.substitute(And(g, src), (hk, nt))
            val = Ite(c, z3.substitute(v, (hk, nt)), val)
            has = Or(c, has)
        elif k == 'merge':                  # ('merge', guard, layers): set each of them
            h2, v2 = lookup(it, l[2], name)
            c = And(l[1], h2)
            val = Ite(c, v2, val)
            has = Or(c, has)
        elif k == 'mergea':                 # append each of them
            h2, v2 = lookup(it, l[2], name)
            c = And(l[1], h2)
            val = Ite(c, Ite(has, z3.Concat(val, z3.StringVal(', '), v2), v2), val)
            has = Or(c, has)
    return has, val


def header_pairs(s):
    """The layers of the header collection whose entries, unchanged, this segment lists."""
    if isinstance(s, Loop) and isinstance(s.src, HSrc) and getattr(s.src, 'layers', None) is not None and len(s.items) == 1 and is_t(s.items[0][0]):
        v = s.items[0][1]
        if isinstance(v, HArr) and fixed(v) and len(v.segs) == 2 and same(v.segs[0].value, S(('t', s.src.hk))) and same(v.segs[1].value, s.src.val):
            return s.src.layers
    return None


def header_layers(it, v, fr, node):
    """What new Headers(v) contains."""
    out = []
    for g, x in it.ctx.cases(v, fr.act):
        if x is UNDEF:
            continue
        if isinstance(x, HObj) and len({k.lower() for k in x.fields}) < len(x.fields):
            it.uns('headers with two spellings of a name', node, fr)
            continue
        if isinstance(x, HHeaders):
            out += [(l[0], And(g, l[1]), *l[2:]) for l in x.layers]
        elif isinstance(x, HdrsIn):
            out.append(('over', g, x))
        elif isinstance(x, HObj) and not x.rests:
            for k, (p, y) in x.fields.items():
                for g2, z in it.ctx.cases(y, fr.act):
                    if not it.ctx.feasible(And(fr.act, g, p, g2)):
                        continue
                    s = it.to_str(z, fr, node)
                    for g3, z3_ in alts(s):
                        out.append(('set', And(g, p, g2, g3), k.lower(), it.term(z3_)))
        elif isinstance(x, HArr) and all(isinstance(s, Elem) for s in x.segs):
            for s in x.segs:
                if not (isinstance(s.value, HArr) and fixed(s.value) and len(s.value.segs) == 2 and isinstance(s.value.segs[0].value, S)
                        and s.value.segs[0].value.lit() is not None):
                    it.uns('headers from an array', node, fr)
                    continue
                for g3, z in alts(it.to_str(s.value.segs[1].value, fr, node)):
                    out.append(('append', And(g, s.guard, g3), s.value.segs[0].value.lit().lower(), it.term(z)))
        elif isinstance(x, HdrObj):
            out += [(l[0], And(g, l[1]), *l[2:]) for l in x.layers]
        elif isinstance(x, HArr):
            # [...a.entries(), ...b.entries()]: pairs of header collections, one after the other
            for s in x.segs:
                h = header_pairs(s)
                if h is None:
                    raise Unsupported('headers from an array', node)
                out.append(('merge' if s is x.segs[0] else 'mergea', g, h))
        else:
            it.uns('headers from ' + type(x).__name__, node, fr)
    return out


def headers_new(it, mode, args, fr, node):
    h = HHeaders(it.level)
    h.born = fr.act
    h.layers = header_layers(it, arg(args, 0), fr, node)
    return h


def hdr_entries(it, h):
    hk = it.ctx.fresh('headerName', STR)
    has, val = lookup(it, h.layers, hk)
    src = HSrc(f'headers!{hk}', hk, has)
    src.layers = list(h.layers)
    src.val = S(('t', val))
    pair = it.arr([S(('t', hk)), src.val])
    src.pair = pair
    return HArr(it.level, [Loop(src, [(TRUE, pair)])])


def resph_arr(it, x):
    hk = it.ctx.fresh('headerName', STR)
    t = it.w.r(x.k)['headers']
    src = HSrc(f'headers!{hk}', hk, z3.Function('hdr.has', U, STR, z3.BoolSort())(t, hk))
    src.val = S(('t', z3.Function('hdr.val', U, STR, STR)(t, hk)))
    src.resp = t
    return HArr(it.level, [Loop(src, [(TRUE, it.arr([S(('t', hk)), src.val]))])])


def hdr_put(it, h, k, v, fr, node, kind):
    if h.owner:
        it.note_write(h, 'headers', fr)
    g0 = TRUE if fr.act.get_id() == getattr(h, 'born', TRUE).get_id() else fr.act
    v = it.to_str(v, fr, node) if v is not None else lit('')
    for gk, kk in it.ctx.cases(it.to_str(k, fr, node), fr.act):
        for gv, vv in it.ctx.cases(v, fr.act):
            g = And(g0, gk, gv)
            if kk.lit() is not None:
                it.check_level(h.level, 'a header', node, fr)
                h.layers.append((kind, g, kk.lit().lower()) + ((it.term(vv),) if kind != 'del' else ()))
                continue
            for lc in reversed(it.loops):
                if isinstance(lc.src, HSrc) and same(kk, S(('t', lc.src.hk))) and kind == 'set' and h.level == it.level - 1:
                    grown(h)
                    h._layers.append(('loop', And(subst_act(it, fr, lc.src), gk, gv), lc.src.hk, it.term(vv), lc.src.cond))
                    break
            else:
                it.uns('header with a computed name', node, fr)
    return UNDEF


def hdr_member(it, x, name, fr, node):
    if name in ('set', 'append'):
        return Nat(name, lambda it, this, a, fr, nd: hdr_put(it, x, arg(a, 0), arg(a, 1), fr, nd, name))
    if name == 'delete':
        return Nat(name, lambda it, this, a, fr, nd: hdr_put(it, x, arg(a, 0), None, fr, nd, 'del'))
    if name in ('has', 'get'):
        def f(it, this, a, fr, nd):
            k = arg(a, 0)
            if not isinstance(k, S):
                return it.uns('Headers.' + name, nd, fr)
            own = it.loops and isinstance(it.loops[-1].src, HSrc) and same(k, S(('t', it.loops[-1].src.hk)))   # not set by another iteration
            h, v = lookup(it, x._layers if own else x.layers, k.lit().lower() if k.lit() is not None else it.term(k))
            return B(h) if name == 'has' else mk_un([(h, S(('t', v))), (Not(h), NULL)])
        return Nat(name, f)
    if name == 'entries':
        return Nat(name, lambda it, this, a, fr, nd: hdr_entries(it, x))
    if name in ('keys', 'values'):
        def part(it, this, a, fr, nd):
            e = hdr_entries(it, x).segs[0]
            return HArr(it.level, [Loop(e.src, [(TRUE, e.items[0][1].segs[0 if name == 'keys' else 1].value)])])
        return Nat(name, part)
    if name == 'forEach':
        def fe(it, this, a, fr, nd):
            it.for_each(hdr_entries(it, x), fr, lambda p: cb(it, arg(a, 0), [p.segs[1].value, p.segs[0].value, x], fr, nd), nd)
            return UNDEF
        return Nat(name, fe)
    if name == 'then':
        return UNDEF
    return it.uns('Headers.' + name, node, fr)


# ---- FormData ---------------------------------------------------------------------------
def form_new(it, mode, args, fr, node):
    f = HForm(it.level)
    f.born = fr.act
    return f


def form_member(it, x, name, fr, node):
    if name in ('append', 'set'):
        def put(it, this, a, fr, nd):
            k = arg(a, 0)
            if not isinstance(k, S) or k.lit() is None or len(a) > 2:
                return it.uns('FormData.' + name, nd, fr)
            it.check_level(x.level, 'a form', nd, fr)
            g0 = TRUE if fr.act.get_id() == getattr(x, 'born', TRUE).get_id() else fr.act
            for g, v in it.ctx.cases(arg(a, 1), fr.act):
                if not (isinstance(v, O) and v.tag == 'blob'):
                    v = it.to_str(v, fr, nd)
                gg = And(g0, g)
                if name == 'set':
                    x.items = [(And(h, Not(gg)) if kk.lit() == k.lit() else h, kk, vv) for h, kk, vv in x.items]
                for g3, v3 in alts(v):
                    x.items.append((And(gg, g3), k, v3))
            return UNDEF
        return Nat(name, put)
    if name == 'then':
        return UNDEF
    return it.uns('FormData.' + name, node, fr)


# ---- promises ------------------------------------------------------------------------------
def promise_member(it, x, name, fr, node):
    if name in ('then', 'catch', 'finally'):
        def then(it, this, a, fr, nd):
            ok, ko = (arg(a, 0), arg(a, 1)) if name == 'then' else (UNDEF, arg(a, 0))
            if name == 'finally':
                return it.uns('finally', nd, fr)
            f2 = Frame(And(fr.act, x.rguard))
            throws = []
            vals = []
            if it.ctx.feasible(f2.act):
                if isinstance(ok, (Clo, Nat)):
                    v = it.settle(it.call(ok, UNDEF, [x.value], f2, nd), f2, nd)
                else:
                    v = x.value
                if it.ctx.feasible(f2.act):
                    vals.append((f2.act, v))
                throws += f2.throws
            for g, e in x.throws:
                gg = And(fr.act, g)
                if not it.ctx.feasible(gg):
                    continue
                if isinstance(ko, (Clo, Nat)):
                    f3 = Frame(gg)
                    v = it.settle(it.call(ko, UNDEF, [e], f3, nd), f3, nd)
                    if it.ctx.feasible(f3.act):
                        vals.append((f3.act, v))
                    throws += f3.throws
                else:
                    throws.append((gg, e))
            val = vals[0][1] if len(vals) == 1 else mk_un(vals)
            return HPromise(Or(*[g for g, _ in vals]), val, throws, it.level)
        return Nat(name, then)
    return UNDEF


def p_all(it, args, fr, node):
    v = arg(args, 0)

    def one(x):
        x = to_arr(it, x, fr, node)
        f2 = Frame(fr.act)
        out = new_arr(it, f2)
        if x is not None:
            def body(p):
                r = it.settle(p, f2, node)
                if not is_f(f2.act):
                    push(it, out, r, f2, node)
            it.for_each(x, f2, body, node)
        return HPromise(f2.act, out, f2.throws, it.level)
    return it.map(v, fr, one)


def p_resolve(it, args, fr, node):
    return it.promise(fr, fr.act, arg(args, 0), [])


def p_reject(it, args, fr, node):
    return HPromise(FALSE, UNDEF, [(fr.act, arg(args, 0))], it.level)


# ---- responses --------------------------------------------------------------------------------
def resp_member(it, x, name, fr, node):
    r = it.w.r(x.k)
    if x.obs:
        o = {'delivered': lambda: B(r['delivered']), 'ok': lambda: B(r['ok']), 'readable': lambda: B(r['readable']),
             'isJson': lambda: B(r['isJson']), 'jsonIsObject': lambda: B(Or(r['kind'] == 1, r['kind'] == 2)),
             'json': lambda: it.w.resp_json(x.k, fr.act), 'status': lambda: N(r['status']),
             'headers': lambda: O(r['headers'], 'hdrs'), 'bytes': lambda: O(r['bytes'], 'bytes'),
             'path': lambda: x.path if x.path is not None else UNDEF}.get(name)
        if o is None:
            return it.uns('response observer ' + name, node, fr)
        return o()
    if name == 'ok':
        return B(r['ok'])
    if name == 'status':
        return N(r['status'])
    if name == 'statusText':
        return S(('t', r['statusText']))
    if name == 'headers':
        return Spec('resph', k=x.k)
    if name == 'bodyUsed':
        return B(it.body_used.get(x.k, FALSE))
    if name == 'then':
        return UNDEF
    if name == 'clone':
        return it.uns('Response.clone', node, fr)
    if name in ('text', 'json', 'arrayBuffer', 'bytes', 'blob'):
        def read(it, this, a, fr, nd):
            act = fr.act
            used = it.body_used.get(x.k, FALSE)
            it.body_used[x.k] = Or(used, act)
            throws = []
            if it.ctx.feasible(And(act, used)):
                throws.append((And(act, used), it.err('TypeError', 'body used already')))
            live = And(act, Not(used))
            unread = And(live, Not(r['readable']))
            e = it.err('TypeError', S(('t', r['readErrMessage'])))
            if it.ctx.feasible(unread):
                throws.append((And(unread, r['readErrIsError']), e))
                throws.append((And(unread, Not(r['readErrIsError'])), O(r['readErr'], 'val')))
            live = And(live, r['readable'])
            if name == 'text':
                v = S(('t', r['text']))
            elif name == 'json':
                bad = And(live, Not(r['isJson']))
                throws.append((bad, it.err('SyntaxError', 'not JSON')))
                live = And(live, r['isJson'])
                v = it.w.resp_json(x.k, live)
            elif name == 'arrayBuffer':
                v = O(r['bytes'], 'bytes')
            elif name == 'bytes':
                v = O(r['bytes'], 'buf8')
            else:
                v = O(r['bytes'], 'respblob')
            return HPromise(live, v, throws, it.level)
        return Nat(name, read)
    return it.uns('Response.' + name, node, fr)


def do_fetch(it, args, fr, node):
    url, init = arg(args, 0), arg(args, 1)
    act = fr.act
    canon = it.canon_fetch(url, init, fr, node)
    dist = it.request(fr, canon=canon)
    vals, throws = [], []
    for k, g in dist.items():
        r = it.w.r(k)
        vals.append((And(act, g, r['delivered']), Resp(k)))
        throws.append((And(act, g, Not(r['delivered'])), O(r['err'], 'err')))
    val = vals[0][1] if len(vals) == 1 else mk_un(vals)
    return HPromise(Or(*[g for g, _ in vals]), val, throws, it.level)


# ---- host objects ------------------------------------------------------------------------------
CONSOLE = ('error', 'log', 'warn', 'info', 'debug', 'trace')


def spec_member(it, x, name, fr, node):
    k = x.kind
    if k == 'process':
        if name == 'env':
            return it.ctx.prune(mk_un([(it.w.env_def, Spec('env')), (Not(it.w.env_def), UNDEF)]), fr.act)
        return it.uns('process.' + name, node, fr)
    if k == 'env':
        return it.ctx.prune(it.w.env_var(name, it.phase), fr.act)
    if k == 'globalThis':
        if name == 'process':
            return it.ctx.prune(mk_un([(it.w.proc_def, Spec('process')), (Not(it.w.proc_def), UNDEF)]), fr.act)
        v = glob(it, name)
        return v if v is not None else it.uns('globalThis.' + name, node, fr)
    if k == 'console':
        if name in CONSOLE:
            def log(it, this, a, fr, nd):
                it.logs.append((fr.act, name, [snapshot(v) for v in a], bool(it.loops), False))
                return UNDEF
            return Nat('console.' + name, log)
        return it.uns('console.' + name, node, fr)
    if k == 'ns':
        v = STATICS.get((x.name, name))
        return v if v is not None else it.uns(f'{x.name}.{name}', node, fr)
    if k == 'resph':
        if name == 'entries':
            return Nat('entries', lambda it, this, a, fr, nd: Spec('resph_entries', k=x.k))
        if name == 'forEach':
            def fe(it, this, a, fr, nd):
                it.for_each(resph_arr(it, x), fr, lambda p: cb(it, arg(a, 0), [p.segs[1].value, p.segs[0].value, x], fr, nd), nd)
                return UNDEF
            return Nat('forEach', fe)
        if name in ('get', 'has'):
            def get(it, this, a, fr, nd):
                n = arg(a, 0)
                if not isinstance(n, S):
                    return it.uns('headers.get', nd, fr)
                t = it.w.r(x.k)['headers']
                nt = z3.StringVal(n.lit().lower()) if n.lit() is not None else it.term(n)
                h = z3.Function('hdr.has', U, STR, z3.BoolSort())(t, nt)
                if name == 'has':
                    return B(h)
                return mk_un([(h, S(('t', z3.Function('hdr.val', U, STR, STR)(t, nt)))), (Not(h), NULL)])
            return Nat(name, get)
        return it.uns('response headers.' + name, node, fr)
    if k == 'split':
        return split_member(it, x, name, fr, node)
    if k == 'regex':
        if name == 'test':
            def test(it, this, a, fr, nd):
                if 'g' in x.flags or 'y' in x.flags:
                    return it.uns('regex test with state', nd, fr)
                r = it.map(it.to_str(arg(a, 0), fr, nd), fr, lambda s: B(regex_test(it, x, s)))
                return r
            return Nat('test', test)
        return it.uns('regex.' + name, node, fr)
    if k == 'webhook':
        if name == 'verify':
            return Nat('verify', lambda it, this, a, fr, nd: wh_verify(it, x, a, fr, nd))
        return it.uns('webhook.' + name, node, fr)
    if k == 'postalmime' and name == 'parse':
        return Nat('parse', lambda it, this, a, fr, nd: parse_mime(it, [arg(a, 0), x.opts], fr, nd))
    if k == 'arguments':
        if name == 'length':
            return N(len(x.args))
        if name.isdigit():
            return arg(x.args, int(name))
    if name == 'then':
        return UNDEF
    return it.uns(f'{k}.{name}', node, fr)


def instance_of(it, x, c, fr, node):
    name = c.name if isinstance(c, ClassV) else None
    if name is None:
        it.uns('instanceof', node, fr)
        return FALSE
    if isinstance(c, ClassV) and c.node is not None:
        k = x.cls if isinstance(x, HObj) and isinstance(x.cls, ClassV) else None
        while k is not None:
            if k is c:
                return TRUE
            k = k.parent
        return FALSE
    if isinstance(x, HObj):
        if name == 'Object':
            return TRUE
        if isinstance(x.cls, str) and x.cls.startswith('$'):
            k = x.cls[1:]
            while k is not None:
                if k == name:
                    return TRUE
                k = ERRORS.get(k)
        return FALSE
    if isinstance(x, O):
        if x.tag == 'err':
            if name == 'Error':
                return TRUE
            return z3.Function('instanceof.' + name, U, z3.BoolSort())(x.term)
        if x.tag == 'bytes':
            return z3.BoolVal(name in ('ArrayBuffer', 'Object'))
        if x.tag == 'buf':
            return z3.BoolVal(name in ('Buffer', 'Uint8Array', 'Object'))
        if x.tag == 'blob':
            if name == 'File':
                return z3.Function('isFile', U, z3.BoolSort())(x.term)
            return z3.BoolVal(name in ('Blob', 'Object'))
        if x.tag in ('json', 'arr', 'obj', 'val') and name in ('FormData', 'Headers', 'URLSearchParams', 'Blob', 'File', 'Promise', 'Map', 'Set', 'ArrayBuffer', 'Uint8Array', 'Buffer', *ERRORS):
            return FALSE
        if x.tag == 'arr' and name == 'Array':
            return TRUE
        if x.tag in ('arr', 'obj') and name == 'Object':
            return TRUE
        it.uns('instanceof on an opaque value', node, fr)
        return FALSE
    kinds = {HArr: 'Array', HHeaders: 'Headers', HForm: 'FormData', HUsp: 'URLSearchParams', HPromise: 'Promise'}
    if type(x) in kinds:
        return z3.BoolVal(name in (kinds[type(x)], 'Object'))
    if isinstance(x, HMap):
        return z3.BoolVal(name in (x.kind, 'Object'))
    if isinstance(x, HdrsIn):
        if name == 'Headers':
            return z3.Bool(f'{x.label}.isHeaders')
        return FALSE
    if isinstance(x, (S, N, B)) or x in (UNDEF, NULL):
        return FALSE
    it.uns('instanceof ' + name, node, fr)
    return FALSE


# ---- global functions ------------------------------------------------------------------------------
def enc_component(it, x, fr, node):
    out = []
    for p in x.parts:
        if p[0] == 'lit':
            out.append(('lit', urllib.parse.quote(p[1], safe=JS_SAFE)))
        elif p[0] == 't':
            out.append(('enc', p[1]))
        else:
            out.append(('enc', it.term(S(p))))
    return S(*out)


def g_encode(it, args, fr, node):
    return it.map(it.to_str(arg(args, 0), fr, node), fr, lambda s: enc_component(it, s, fr, node))


def g_encode_uri(it, args, fr, node):
    return it.map(it.to_str(arg(args, 0), fr, node), fr,
                  lambda s: lit(urllib.parse.quote(s.lit(), safe=JS_SAFE + ";/?:@&=+$,#")) if s.lit() is not None
                  else S(('t', uf_str('encodeURI', it.term(s)))))


def g_decode(it, args, fr, node):
    def one(s):
        if s.lit() is not None:
            return lit(urllib.parse.unquote(s.lit()))
        if all(p[0] in ('enc', 'encat') for p in s.parts):
            return S(*[('t', p[1]) for p in s.parts])
        bad = z3.Function('malformed', STR, z3.BoolSort())(it.term(s))
        it.throw(fr, it.err('URIError', 'malformed'), bad)
        return S(('t', uf_str('decodeURIComponent', it.term(s))))
    return it.map(it.to_str(arg(args, 0), fr, node), fr, one)


def o_entries(what):
    def f(it, args, fr, node):
        def one(x):
            if isinstance(x, HObj):
                if x.rests:
                    return it.uns('entries of an object with unknown members', node, fr)
                segs = []
                for k, (p, v) in x.fields.items():
                    val = lit(k) if what == 'keys' else v if what == 'values' else it.arr([lit(k), v])
                    segs.append(Elem(p, val))
                return HArr(it.level, segs)
            if x in (UNDEF, NULL):
                it.throw(fr, it.err('TypeError', 'entries of undefined'))
                return UNDEF
            if isinstance(x, HArr) and what == 'values':
                return a_concat(it, x, [], fr, node)
            if isinstance(x, (Spec,)) and x.kind == 'resph':
                return it.arr([])
            if isinstance(x, HdrObj) and what == 'entries':
                h = HHeaders(it.level)
                h.layers = x.layers
                return hdr_entries(it, h)
            return it.uns(f'Object.{what} of {type(x).__name__}', node, fr)
        return it.map(arg(args, 0), fr, one)
    return f


def o_from_entries(it, args, fr, node):
    def one(x):
        if isinstance(x, Spec) and x.kind in ('resph', 'resph_entries'):
            return O(it.w.r(x.k)['headers'], 'hdrs')
        x = to_arr(it, x, fr, node)
        if x is None:
            return UNDEF
        o = HObj(it.level)
        o.born = fr.act
        for s in x.segs:
            if isinstance(s, Loop) and isinstance(s.src, HSrc) and getattr(s.src, 'resp', None) is not None and len(s.items) == 1 and is_t(s.items[0][0]) and len(x.segs) == 1:
                v = s.items[0][1]
                if isinstance(v, HArr) and fixed(v) and same(v.segs[1].value, s.src.val) and same(v.segs[0].value, S(('t', s.src.hk))):
                    return O(s.src.resp, 'hdrs')
            if len(x.segs) == 1 and header_pairs(s) is not None:
                return HdrObj(header_pairs(s))
            if not isinstance(s, Elem):
                return it.uns('fromEntries of an unbounded sequence', node, fr)
            pairs = [(g, y) for g, y in it.ctx.cases(s.value, And(fr.act, s.guard))]
            for g, y in pairs:
                k, v = arr_at(it, y, 0, fr, node), arr_at(it, y, 1, fr, node)
                k = it.to_str(k, fr, node)
                if k.lit() is None:
                    return it.uns('fromEntries with computed names', node, fr)
                pg = And(s.guard, g)
                if k.lit() in o.fields and not is_t(pg):
                    p0, v0 = o.fields[k.lit()]
                    o.fields[k.lit()] = [Or(p0, pg), mk_un([(pg, v), (Not(pg), v0)])]
                else:
                    o.fields[k.lit()] = [pg, v]
        return o
    return it.map(arg(args, 0), fr, one)


def o_assign(it, args, fr, node):
    t = arg(args, 0)
    if isinstance(t, Un):
        return it.map(t, fr, lambda x: o_assign(it, [x, *args[1:]], fr, node))
    if t in (UNDEF, NULL):
        it.throw(fr, it.err('TypeError', 'Object.assign to undefined'))
        return UNDEF
    if not isinstance(t, HObj):
        return it.uns('Object.assign to ' + type(t).__name__, node, fr)
    for v in args[1:]:
        if not t.owner and t.level == it.level and not isinstance(t.cls, ClassV) and fr.act.get_id() == getattr(t, 'born', TRUE).get_id():
            it.spread_into(t, v, fr, node)
            continue
        for g, x in it.ctx.cases(v, fr.act):
            if isinstance(x, HObj):
                if x.rests:
                    it.uns('Object.assign of an object with unknown members', node, fr)
                for k, (p, y) in list(x.fields.items()):
                    gg = And(g, p)
                    a0 = fr.act
                    fr.act = And(a0, gg)
                    if it.ctx.feasible(fr.act):
                        it.set1(t, k, y, fr, node)
                    fr.act = a0
            elif x in (UNDEF, NULL):
                continue
            else:
                it.uns('Object.assign of ' + type(x).__name__, node, fr)
    return t


def arr_is(it, args, fr, node):
    def one(x):
        if isinstance(x, HArr):
            return B(True)
        if isinstance(x, O) and x.tag in ('json', 'node'):
            return B(z3.Function('isArray', U, z3.BoolSort())(x.term))
        if isinstance(x, O) and x.tag == 'val':
            return it.uns('isArray', node, fr)
        if isinstance(x, O):
            return B(x.tag == 'arr')
        if isinstance(x, HdrsIn):
            return B(z3.Bool(f'{x.label}.isArray'))
        return B(False)
    return it.map(arg(args, 0), fr, one)


def arr_from(it, args, fr, node):
    def one(x):
        x = to_arr(it, x, fr, node)
        if x is None:
            return UNDEF
        if len(args) > 1:
            return a_map(it, x, [args[1]], fr, node)
        return a_concat(it, x, [], fr, node)
    return it.map(arg(args, 0), fr, one)


def json_stringify(it, args, fr, node):
    if len(args) > 1 and any(v not in (UNDEF, NULL) for v in args[1:]):
        return it.uns('JSON.stringify with a replacer', node, fr)

    def one(x):
        if x is UNDEF or isinstance(x, (Clo, Nat, ClassV)):
            return UNDEF
        if to_json(it, x, fr, set()):
            return it.uns('JSON.stringify of an object with toJSON', node, fr)
        return S(('json', snapshot(x)))
    return it.map(arg(args, 0), fr, one)


def to_json(it, v, fr, seen):
    """May a value contain an object that says itself how it is serialised?"""
    if isinstance(v, Un):
        return any(to_json(it, x, fr, seen) for g, x in v.alts)
    if isinstance(v, HObj):
        if v.id in seen:
            return False
        seen.add(v.id)
        if 'toJSON' in v.fields or (isinstance(v.cls, ClassV) and (it.lookup_method(v.cls, 'toJSON', 'method') or it.lookup_method(v.cls, 'toJSON', 'get'))):
            return True
        return any(to_json(it, x, fr, seen) for _, x in v.fields.values())
    if isinstance(v, HArr):
        if v.id in seen:
            return False
        seen.add(v.id)
        return any(to_json(it, x, fr, seen) for s in v.segs for x in ([s.value] if isinstance(s, Elem) else [y for _, y in getattr(s, 'items', [])]))
    return False


def json_parse(it, args, fr, node):
    def one(x):
        if isinstance(x, S) and len(x.parts) == 1:
            p = x.parts[0]
            if p[0] == 'json' and plain_json(p[1], False):
                return snapshot(p[1])
            if p[0] == 't':
                for k, r in it.w.resp.items():
                    if p[1].get_id() == r['text'].get_id():
                        it.throw(fr, it.err('SyntaxError', 'not JSON'), Not(r['isJson']))
                        if is_f(fr.act):
                            return UNDEF
                        return it.w.resp_json(k, fr.act)
        if isinstance(x, S) and x.lit() is not None:
            return it.uns('JSON.parse of a literal', node, fr)
        return it.uns('JSON.parse', node, fr)
    if len(args) > 1:
        return it.uns('JSON.parse with a reviver', node, fr)
    return it.map(arg(args, 0), fr, one)


def freeze(it, args, fr, node):
    def one(x):
        if isinstance(x, (HObj, HArr)):
            it.note_write(x, '', fr)
            x.immutable = True
        elif not isinstance(x, (S, N, B)) and x not in (UNDEF, NULL):
            it.uns('Object.freeze', node, fr)
        return x
    return it.map(arg(args, 0), fr, one)


def plain_json(v, undef, seen=None):
    """Is a value what a JSON round trip (undef: structuredClone) leaves as it is?"""
    seen = seen or set()
    if isinstance(v, Un):
        return all(plain_json(x, undef, seen) for _, x in v.alts)
    if isinstance(v, HObj):
        if v.cls or v.id in seen:
            return False
        return all(plain_json(x, undef, seen | {v.id}) for _, x in v.fields.values())
    if isinstance(v, HArr):
        if v.id in seen:
            return False
        return all(plain_json(x, undef, seen | {v.id}) for s in v.segs for _, x in ([(0, s.value)] if isinstance(s, Elem) else getattr(s, 'items', [(0, None)])))
    return isinstance(v, (S, B)) or v is NULL or ((v is UNDEF or isinstance(v, N)) and undef) or (isinstance(v, O) and v.tag in ('json', 'obj', 'arr'))


def clone(it, args, fr, node):
    def one(x):
        if isinstance(x, (HObj, HArr)) and plain_json(x, True):
            return snapshot(x)
        if isinstance(x, (S, N, B)) or x in (UNDEF, NULL) or (isinstance(x, O) and x.tag in ('obj', 'arr', 'json')):
            return x
        return it.uns('structuredClone', node, fr)
    return it.map(arg(args, 0), fr, one)


def g_string(it, mode, args, fr, node):
    if mode == 'new':
        return it.uns('new String', node, fr)
    return it.to_str(args[0], fr, node) if args else lit('')


def g_number(it, mode, args, fr, node):
    def one(x):
        if isinstance(x, N):
            return x
        return it.uns('Number()', node, fr)
    return it.map(arg(args, 0), fr, one)


def g_boolean(it, mode, args, fr, node):
    return B(it.truthy(arg(args, 0), fr))


def err_new(name):
    def f(it, mode, args, fr, node):
        m = arg(args, 0)
        o = it.err(name, it.to_str(m, fr, node) if m is not UNDEF else lit(''))
        return o
    return f


def buf_from(it, args, fr, node):
    def one(x):
        if isinstance(x, O) and x.tag in ('bytes', 'buf', 'buf8') and len(args) == 1:
            return O(x.term, 'buf')
        if isinstance(x, S):
            e = arg(args, 1)
            enc = 'utf8' if e is UNDEF else e.lit() if isinstance(e, S) else None
            if enc:
                return O(z3.Function('buffer.' + enc, STR, U)(it.term(x)), 'buf')
        return it.uns('Buffer.from', node, fr)
    return it.map(arg(args, 0), fr, one)


def u8_new(it, mode, args, fr, node):
    x = arg(args, 0)
    if isinstance(x, O) and x.tag in ('bytes', 'buf'):
        return O(x.term, 'buf8')
    return it.uns('new Uint8Array', node, fr)


def m_minmax(op):
    def f(it, args, fr, node):
        if not args or not all(isinstance(a, N) for a in args):
            return it.uns('Math', node, fr)
        e = args[0].e
        for a in args[1:]:
            e = z3.If(a.e < e, a.e, e) if op == 'min' else z3.If(a.e > e, a.e, e)
        return N(z3.simplify(e))
    return f


def m_floor(it, args, fr, node):
    a = arg(args, 0)
    if not isinstance(a, N):
        return it.uns('Math', node, fr)
    return N(z3.simplify(z3.ToReal(z3.ToInt(a.e))))


def m_trunc(it, args, fr, node):
    a = arg(args, 0)
    if not isinstance(a, N):
        return it.uns('Math', node, fr)
    return N(z3.simplify(z3.If(a.e >= 0, z3.ToReal(z3.ToInt(a.e)), -z3.ToReal(z3.ToInt(-a.e)))))


def n_is_integer(it, args, fr, node):
    return it.map(arg(args, 0), fr, lambda a: B(z3.IsInt(a.e)) if isinstance(a, N) else B(False))


def n_is_finite(it, args, fr, node):
    return it.map(arg(args, 0), fr, lambda a: B(True) if isinstance(a, N) else B(False) if not isinstance(a, (S, O)) else it.uns('isFinite', node, fr))


def o_has_own(it, args, fr, node):
    k = arg(args, 1)
    x = arg(args, 0)
    if isinstance(k, S) and k.lit() is not None and isinstance(x, HObj) and not x.rests:
        return B(x.fields[k.lit()][0] if k.lit() in x.fields else FALSE)
    return it.uns('hasOwn', node, fr)


STATICS = {
    ('Object', 'entries'): nat('entries')(o_entries('entries')), ('Object', 'keys'): nat('keys')(o_entries('keys')),
    ('Object', 'values'): nat('values')(o_entries('values')), ('Object', 'fromEntries'): nat('fromEntries')(o_from_entries),
    ('Object', 'assign'): nat('assign')(o_assign), ('Object', 'freeze'): nat('freeze')(freeze),
    ('Object', 'hasOwn'): nat('hasOwn')(o_has_own),
    ('Array', 'isArray'): nat('isArray')(arr_is), ('Array', 'from'): nat('from')(arr_from),
    ('Array', 'of'): nat('of')(lambda it, a, fr, nd: it.arr(a)),
    ('JSON', 'stringify'): nat('stringify')(json_stringify), ('JSON', 'parse'): nat('parse')(json_parse),
    ('Promise', 'all'): nat('all')(p_all), ('Promise', 'resolve'): nat('resolve')(p_resolve), ('Promise', 'reject'): nat('reject')(p_reject),
    ('Buffer', 'from'): nat('from')(buf_from),
    ('Math', 'min'): nat('min')(m_minmax('min')), ('Math', 'max'): nat('max')(m_minmax('max')), ('Math', 'floor'): nat('floor')(m_floor),
    ('Math', 'trunc'): nat('trunc')(m_trunc),
    ('Number', 'isInteger'): nat('isInteger')(n_is_integer), ('Number', 'isFinite'): nat('isFinite')(n_is_finite),
    ('Number', 'isNaN'): nat('isNaN')(lambda it, a, fr, nd: B(False) if isinstance(arg(a, 0), N) else it.uns('isNaN', nd, fr)),
}


def promise_new(it, mode, args, fr, node):
    f2 = Frame(fr.act)
    vals, throws = [], []

    def res(it2, this, a, fr2, nd):
        vals.append((fr2.act, arg(a, 0)))
        return UNDEF

    def rej(it2, this, a, fr2, nd):
        throws.append((fr2.act, arg(a, 0)))
        return UNDEF
    it.call(arg(args, 0), UNDEF, [Nat('resolve', res), Nat('reject', rej)], f2, node)
    rg = Or(*[g for g, _ in vals])
    # the first settlement counts
    if len(vals) > 1 or (vals and throws) or f2.throws:
        return it.uns('new Promise with several settlements', node, fr)
    left = And(fr.act, Not(rg), *[Not(g) for g, _ in throws])
    if it.ctx.feasible(left):
        return it.uns('promise that may stay pending', node, fr)
    return it.promise(fr, rg, vals[0][1] if vals else UNDEF, throws)


def _cls(name, f):
    return ClassV(None, None, name, builtin=f)


def _uns_new(name):
    def f(it, mode, args, fr, node):
        return it.uns(f'{name}()', node, fr)
    return f


GLOBALS = {
    'Headers': _cls('Headers', headers_new), 'URLSearchParams': _cls('URLSearchParams', usp_new), 'FormData': _cls('FormData', form_new),
    'Promise': _cls('Promise', promise_new), 'String': _cls('String', g_string), 'Number': _cls('Number', g_number),
    'Boolean': _cls('Boolean', g_boolean), 'Uint8Array': _cls('Uint8Array', u8_new),
    'JSON': Spec('ns', name='JSON'), 'Math': Spec('ns', name='Math'), 'console': Spec('console'), 'globalThis': Spec('globalThis'),
    'encodeURIComponent': nat('encodeURIComponent')(g_encode), 'decodeURIComponent': nat('decodeURIComponent')(g_decode),
    'encodeURI': nat('encodeURI')(g_encode_uri), 'fetch': nat('fetch')(do_fetch), 'structuredClone': nat('structuredClone')(clone),
}
for _e in ERRORS:
    GLOBALS[_e] = _cls(_e, err_new(_e))
for _n in ('Map', 'Set', 'WeakMap', 'WeakSet'):
    GLOBALS[_n] = _cls(_n, map_new(_n))
for _n in ('Object', 'Array', 'Buffer', 'Blob', 'File', 'Date', 'ArrayBuffer', 'URL', 'Request', 'Response',
           'AbortController', 'Symbol', 'RegExp', 'TextDecoder', 'TextEncoder', 'BigInt', 'Function'):
    GLOBALS[_n] = _cls(_n, _uns_new(_n))


def glob(it, name):
    return GLOBALS.get(name)


# ---- dependencies ---------------------------------------------------------------------------------
def do_render(it, args, fr, node):
    """A rendering of a node: a promise."""
    x = arg(args, 0)
    if len(args) > 1 and args[1] is not UNDEF:
        return it.uns('render with options', node, fr)

    def one(n):
        if not isinstance(n, O):
            return it.uns('render of ' + type(n).__name__, node, fr)
        ok = render_ok(n.term)
        return HPromise(And(fr.act, ok), S(('t', render_html(n.term))), [(And(fr.act, Not(ok)), O(render_err(n.term), 'err'))], it.level)
    return it.map(x, fr, one)


MIME_SHAPE = {'k': 'ref', 'name': 'ParsedMime'}


def parse_mime(it, args, fr, node):
    x, opts = arg(args, 0), arg(args, 1)
    enc = None
    if isinstance(opts, HObj):
        e = it.get1(opts, 'attachmentEncoding', fr, node)
        enc = e.lit() if isinstance(e, S) else None
        if any(k != 'attachmentEncoding' for k in opts.fields):
            enc = 'other'
    if isinstance(x, O) and x.tag in ('bytes', 'buf', 'buf8'):
        key = x.term
    elif isinstance(x, S):
        key = z3.Function('textBytes', STR, U)(it.term(x))
    else:
        return it.uns('PostalMime.parse of ' + type(x).__name__, node, fr)
    v = it.mime(key, enc)
    ok = mime_ok(key)
    return HPromise(And(fr.act, ok), v, [(And(fr.act, Not(ok)), O(mime_err(key), 'err'))], it.level)


def wh_verify(it, x, args, fr, node):
    p, h = arg(args, 0), arg(args, 1)
    if not isinstance(p, S) or not isinstance(x.secret, S) or not isinstance(h, HObj) or len(args) > 2:
        return it.uns('webhook verification', node, fr)
    hs = {}
    for k, (pr, v) in h.fields.items():
        hs[k.lower()] = (pr, v)
    ts = []
    for n in ('webhook-id', 'webhook-timestamp', 'webhook-signature'):
        v = hs.get(n, (FALSE, UNDEF))
        ts.append(v[1] if is_t(v[0]) else mk_un([(v[0], v[1]), (Not(v[0]), UNDEF)]))
    return verify_sig(it, x.secret, p, *ts, fr=fr, node=node)


def verify_sig(it, secret, payload, i, t, s, fr=None, node=None):
    def go(vs, todo):
        if todo:
            return it.map(todo[0], fr, lambda v: go(vs + [v], todo[1:]))
        for v in vs:
            if v in (UNDEF, NULL):
                it.throw(fr, O(it.ctx.fresh('verifyError', U), 'err'))
                return UNDEF
            if not isinstance(v, S):
                return it.uns('webhook verification of ' + type(v).__name__, node, fr)
        ts = [it.term(v) for v in vs]
        ok = z3.Function('verify.ok', *[STR] * 5, z3.BoolSort())(*ts)
        res = z3.Function('verify.result', *[STR] * 5, U)(*ts)
        er = z3.Function('verify.error', *[STR] * 5, U)(*ts)
        it.throw(fr, O(er, 'err'), Not(ok))
        return O(res, 'json')
    return go([], [secret, payload, i, t, s])


def wh_new(it, mode, args, fr, node):
    if len(args) > 1:
        return it.uns('Webhook options', node, fr)
    return it.map(arg(args, 0), fr, lambda s: Spec('webhook', secret=s) if isinstance(s, S) else it.uns('new Webhook', node, fr))


STATICS[('PostalMime', 'parse')] = nat('parse')(parse_mime)


def extern(it, name):
    """A dependency as a module: {exported name: value}."""
    if name == '@react-email/render':
        return {'render': nat('render')(do_render)}
    if name == 'postal-mime':
        c = _cls('PostalMime', lambda it, m, a, fr, nd: Spec('postalmime', opts=arg(a, 0)))
        return {'default': c}
    if name == 'standardwebhooks':
        return {'Webhook': _cls('Webhook', wh_new)}
    return None
