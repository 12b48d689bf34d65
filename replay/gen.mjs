import { sample } from './regex.mjs';
// Concrete inputs of a shape, from boundary values, special characters, the
// string and number literals of the source, and a seeded generator.
export function rng(seed) {
  let a = seed >>> 0;
  const next = () => {
    a = (a + 0x6d2b79f5) >>> 0;
    let t = a;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  };
  return {
    next,
    int: (n) => Math.floor(next() * n),
    pick: (l) => l[Math.floor(next() * l.length)],
    chance: (p) => next() < p,
  };
}
export function hash(s) {
  let h = 2166136261;
  for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619);
  return h >>> 0;
}

const STR = [
  '', 'a', 'hello world', ' padded ', 'UPPER lower', 'é😀ñ', 'a/b?c#d%e+f&g=h;i', '%40', '%2F', '100%', 'x@y.com', 'Name <x@y.com>', '+1', 'null',
  'undefined', '0', 'false', '<p>hi</p>', '"quoted" \\ back', 'line\nbreak\ttab', 'in 1 hour', '2024-01-01T00:00:00.000Z', '1,2, 3', 'Fwd: x', 'fwd: x', 'Re: y',
  'a,b', '<id@x>', '<<id>>', 'x'.repeat(1100), '..', '.', '?', '#', '&', '=', '/', '//', 'A', '{"a":1}', 'data:x', '  ', '\u2028', 'ünï', 'a b+c%20d', 'cafe\u0301 \ufb01', 'a\r\nb\r\n', '\ufeffbom', 'tail \n', '\n', 'a\u00a0b\u200bc', 'x'.repeat(2500), 'Zoë <ZOE@Example.COM>', 'b@x.com, c@x.com', 'a  b',
  '1e3', '007', '9007199254740993', '1.10', 'true', 'aGVsbG8=', 'aGVsbG8', '\0', '<b>&amp;</b>', "it's", 'a;b', 'C:\\dir\\file.txt', 'dir/file.txt', '.hidden', 'text/plain; charset=utf-8',
  '2024-02-30', 'tomorrow at 9am', '2024-01-01T10:00:00+02:00', 'https://x.test/?a=1&b=2#c', 'constructor', '__proto__', 'then', '{{name}}', '${x}', '%E0%A4', '\ud83d\ude00'.repeat(3), 'ß', 'İ', 'ǆ',
];
const TOK = ['id_1', 'A-b_9', '0', '123', 'f47ac10b-58cc-4372-a567-0e02b2c3d479', 'UPPER', 'publish', 'send', 'batch', 'x', '-', '_', 'a-very-long-' + 'i'.repeat(120)];
const HV = ['key-1', 'a b', 'UPPER-lower', 'x'.repeat(300), '0', 'k=v; q="z"', 'caf\u00e9', 'user-123/abc', 'AAAA', '%20', '1,2', 'two  spaces', 'tab\tinside', '"quoted"', 'a;b'];
const NUM = [0, 1, -1, 100, 101, 1.5, 2 ** 31, 9007199254740991, -0.5, 10, 50];
const POS = [1, 2, 10, 100, 101, 1000];
const HNAMES = ['X-Custom', 'x-other', 'Authorization', 'AUTHORIZATION', 'user-agent', 'User-Agent', 'Content-Type', 'content-type', 'Idempotency-Key',
  'idempotency-key', 'X-Batch-Validation', 'x-batch-validation', 'Accept', 'X-Entity-Ref-ID', 'cookie', 'x-trace', 'Resend-Header'];

const COMPONENTS = [function Hello() {}, function Note() {}, { $$typeof: Symbol.for('react.memo') }];

const copy = (v) => (Array.isArray(v) ? v.map(copy)
  : v && typeof v === 'object' && Object.getPrototypeOf(v) === Object.prototype && !v.$$typeof ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, copy(x)])) : v);

function fieldNames(l, out = new Set()) {
  for (const s of l) {
    if (!s || typeof s !== 'object') continue;
    if (s.k === 'obj') for (const f of Object.keys(s.f)) out.add(f);
    fieldNames(Object.values(s), out);
  }
  return out;
}
export class Gen {
  constructor(seed, shapes, literals) {
    this.r = rng(seed);
    this.shapes = shapes;
    this.lits = literals.strings;
    this.nums = literals.numbers;
    this.fresh = literals.fresh ?? [];
    this.freshNums = literals.freshNumbers ?? [];
    this.regexes = literals.regexes ?? [];
    this.freshRegexes = literals.freshRegexes ?? [];
    this.words = this.fresh.filter((x) => /^[A-Za-z][\w-]*$/.test(x));
    // members the source reads now and did not before, none of them documented
    if (!shapes.$known) Object.defineProperty(shapes, '$known', { value: fieldNames(Object.values(shapes)) });
    this.names = (literals.freshNames ?? []).filter((x) => !shapes.$known.has(x));
    this.anyId = !!literals.anyId;
    this.density = 0.5;
    this.nodes = 0;
    this.big = false;
  }
  // a string that matches a regular expression of the source, alone or inside another
  matching() {
    const r = this.r, [src, flags] = r.pick(this.freshRegexes.length && r.chance(0.8) ? this.freshRegexes : this.regexes);
    let v = sample(src, r, flags);
    if (/[\ud800-\udfff]/.test(v.replace(/[\ud800-\udbff][\udc00-\udfff]/g, ''))) v = 'a';
    return r.pick([(x) => x, (x) => x, (x) => x + r.pick(STR), (x) => r.pick(STR) + x, (x) => `${r.pick(STR)}${x}${r.pick(STR)}`, (x) => x + x, (x) => `a${x}b`])(v);
  }
  str() {
    const r = this.r;
    if (this.regexes.length && r.chance(this.freshRegexes.length ? 0.2 : 0.02)) return this.matching();
    if (this.fresh.length && r.chance(0.15)) {
      const f = r.pick(this.fresh);
      return r.chance(0.5) ? f : r.chance(0.5) ? f + r.pick(STR) : r.pick(STR) + f + r.pick(STR);
    }
    if (this.lits.length && r.chance(0.12)) return r.pick(this.lits);
    if (this.nums.length && r.chance(this.freshNums.length ? 0.06 : 0.02)) {
      const n = this.num() + r.int(3) - 1;
      if (n > 0 && n <= 5000) return 'y'.repeat(n);
    }
    if (this.lits.length && r.chance(0.03)) return r.pick(this.lits) + r.pick(STR);
    if (r.chance(0.08)) return r.pick(STR) + r.pick(STR);
    if (r.chance(0.06)) return '';
    return r.pick(STR);
  }
  num() {
    return this.r.pick(this.freshNums.length && this.r.chance(0.7) ? this.freshNums : this.nums);
  }
  headerValue() {
    if (this.fresh.length && this.r.chance(0.15)) {
      const f = this.r.pick(this.fresh);
      if (/^[\x21-\x7e]+$/.test(f)) return f;
    }
    return this.r.chance(0.05) ? '' : this.r.pick(HV);
  }
  // one of the given values, or something close to a literal the source has now and had not before
  near(l) {
    const r = this.r, f = this.fresh.filter((x) => /^[\x20-\x7e]+$/.test(x));
    if (!f.length || r.chance(0.6)) return r.pick(l);
    return r.pick([(x) => 'a' + x + 'b', (x) => x + 'b', (x) => 'a' + x, (x) => r.pick(l) + x + r.pick(l)])(r.pick(f));
  }
  // markup longer than a size the source mentions now and did not before
  longMarkup() {
    const big = this.freshNums.filter((n) => n >= 500 && n <= 1e6);
    if (!big.length || !this.r.chance(0.15)) return undefined;
    const unit = '<td>  x </td>\n  ';
    return unit.repeat(Math.ceil((this.r.pick(big) + 1) / unit.length));
  }
  node() {
    const r = this.r;
    if (r.chance(0.12)) return r.pick(['', null, 0, false]);
    if (r.chance(0.15)) return r.pick(['just text', 'more text', 7, true]);
    if (r.chance(0.08)) return Array.from({ length: r.int(3) }, () => this.node()).filter((x) => x?.$render?.error === undefined);
    const n = ++this.nodes;
    const ok = !r.chance(0.12);
    return { $$typeof: Symbol.for('react.transitional.element'), type: r.pick(['p', 'p', ...COMPONENTS]), key: r.pick([null, null, 'k']), props: { n }, $render: ok ? { html: this.longMarkup() ?? (r.chance(0.1) ? r.pick(['', ' ', this.str()]) : `${r.pick(['', '', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Transitional//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd">', '<!--$-->'])}<p data-n="${n}">${r.pick(['', 'x', 'é', '&', '\n  <b>y</b>\r\n', '&#x27;'])}</p>${r.pick(['', '<!--/$-->', '\n'])}`) } : { error: new Error('render failed ' + n) } };
  }
  headers() {
    const r = this.r;
    const n = r.pick([0, 1, 1, 2, 3, 5, 8]);
    const ps = [];
    for (let i = 0; i < n; i++) {
      const f = this.fresh.filter((x) => /^[A-Za-z-]+$/.test(x));
      ps.push([f.length && r.chance(0.2) ? r.pick(f) : r.pick(HNAMES), this.headerValue()]);
    }
    const kind = r.int(3);
    if (kind === 0) return Object.fromEntries(ps.filter(([k], i) => ps.findIndex(([q]) => q.toLowerCase() === k.toLowerCase()) === i));
    if (kind === 1) return ps;
    return new Headers(ps);
  }
  json(depth = 0) {
    const r = this.r;
    const k = r.int(depth > 2 ? 6 : 9);
    if (k === 0) return null;
    if (k === 1) return this.freshNums.length && r.chance(0.4) ? r.pick(this.freshNums) + r.pick([0, 0, 1, -1]) : r.pick([0, 1, -2.5, 2 ** 53, 1e21]);
    if (k === 2) return r.chance(0.5);
    if (k < 6) return this.str();
    if (k === 6) return Array.from({ length: r.int(3) }, () => this.json(depth + 1));
    return this.rec(depth + 1);
  }
  key() {
    const r = this.r;
    if (this.words.length && r.chance(0.25)) return r.pick(this.words);
    if (this.names.length && r.chance(0.25)) return r.pick(this.names);
    return r.pick(['a', 'X-Header', 'x-header', 'snake_case', 'camelCase', 'name', 'html', 'id', 'react', 'firstName', '1', 'é', 'data', 'error', 'eventName', 'constructor', 'toString', 'length', '', 'a.b', 'status', 'path', 'headers', 'message', 'code', 'type', 'url', 'to', 'UPPER', ' padded ', 'x y', '__v']);
  }
  rec(depth = 0) {
    const r = this.r;
    const o = {};
    let n = r.int(4);
    if (depth === 0 && this.nums.length && r.chance(this.freshNums.length ? 0.15 : 0.03)) {
      const m = this.num() + r.int(3) - 1;
      if (m >= 0 && m <= 120) n = m;
    }
    for (let i = n; i > 0; i--) o[n > 5 ? `k${i}${r.chance(0.1) ? this.key() : ''}` : this.key()] = this.json(depth + (n > 5 ? 3 : 1));
    return o;
  }
  value(s) {
    const r = this.r;
    switch (s.k) {
      case 'str': {
        if (s.tok && this.fresh.length && r.chance(0.15)) {
          const f = r.pick(this.fresh);
          if (/^[A-Za-z0-9_-]+$/.test(f)) return f;
        }
        if (s.tok && this.anyId && r.chance(0.15)) return r.pick([' ', '  ', '\t', '\n', '\u00a0', ' a', 'a b', '\u00e9', 'null', 'undefined', 'false', 'NaN', '0', '00', '-0', '[]', '{}']);
        if (s.tok) return s.ne || r.chance(0.8) ? r.pick(TOK) : '';
        if (s.hv) return s.ne || r.chance(0.8) ? this.headerValue() : '';
        if (s.path) return r.pick(['/emails', '/x?y=1', '/a%20b/c?d=%26', '/', '/x#frag', '/emails/a/b', '/é', '/a//b', '/a/b/', '/x?next=https://h.test//y', '/a/../b', '/x?', '/UPPER', '/a;b=c', '/x?a=1&a=2']);
        if (s.base) return r.pick(['https://api.example.test', 'http://localhost:3000', 'https://h.test/v1', 'https://UPPER.example.test', 'https://h.test/v1/', 'https://h.test//', 'http://h.test:80', '']);
        let v = this.str();
        for (let i = 0; i < 20 && ((s.ne && v === '') || (s.seg && (v === '.' || v === '..'))); i++) v = this.str();
        if (s.ne && v === '') v = 'z';
        if (s.seg && (v === '.' || v === '..')) v = 'z';
        return v;
      }
      case 'num': return s.pos ? r.pick(POS) : this.nums.length && r.chance(this.freshNums.length ? 0.3 : 0.1) ? this.num() + r.pick([0, 0, 1, -1]) : r.pick(NUM);
      case 'bool': return r.chance(0.5);
      case 'null': return null;
      case 'false': return false;
      case 'enum': return r.pick(s.v);
      case 'any': return this.json();
      case 'entity': {
        if (r.chance(0.7)) return this.json();
        const f = new FormData();
        f.append('part', new Blob(['x']));
        return f;
      }
      case 'rec': return this.rec();
      case 'node': return this.node();
      case 'buf': return r.pick([Buffer.from([0, 255, 128, 10]), Buffer.from('text'), Buffer.alloc(0)]);
      case 'blob': return r.chance(0.5) ? new Blob([this.str()], { type: 'text/csv' }) : new File([this.str()], 'contacts é.csv', { type: 'text/csv' });
      case 'hdrs': return this.headers();
      case 'ref': return this.value(this.shapes[s.name]);
      case 'or': return this.value(r.pick(s.a));
      case 'arr': {
        let n = r.pick([0, 1, 1, 2, 2, 3, 5]);
        if (!this.inBig && this.nums.length && r.chance(this.freshNums.length ? 0.12 : 0.05)) {
          const m = this.num() + r.int(3) - 1;
          if (m >= 0 && (m <= 150 || (m <= 2100 && this.freshNums.length && r.chance(0.3)))) n = m;
        }
        if (this.big && r.chance(0.5)) n = r.pick([10, 50, 99, 100, 101, 130]);
        const d = this.density;
        if (n > 5) this.density = 0.1;
        const inBig = this.inBig;
        this.inBig ||= n > 20;
        const few = n > 150 ? Array.from({ length: 12 }, () => this.value(s.e)) : undefined;
        const out = Array.from({ length: n }, () => (few ? copy(r.pick(few)) : this.value(s.e)));
        this.inBig = inBig;
        if (n > 1 && r.chance(0.3)) {
          // twice the same, by value or by reference, or almost the same
          const i = r.int(n), j = r.int(n);
          const how = r.int(3);
          out[i] = how === 0 ? out[j] : copy(out[j]);
          if (how === 2) {
            if (typeof out[i] === 'string') { const v = r.pick([out[i].toUpperCase(), ` ${out[i]}`, out[i].toLowerCase(), `${out[i]} `]); if (!s.e.tok && !s.e.hv && !s.e.seg) out[i] = v; }
            else if (s.e.k === 'obj' || s.e.k === 'ref') {
              const other = this.value(s.e), ks = Object.keys(other ?? {}).filter((k) => out[i] && k in out[i]);
              if (ks.length) { const k = r.pick(ks); if (s.e.k === 'obj' && s.e.f?.[k]) out[i][k] = other[k]; }
            }
          }
        }
        this.density = d;
        return out;
      }
      case 'obj': {
        const o = {};
        for (const [f, t] of Object.entries(s.f)) {
          if (t.opt) {
            if (!r.chance(this.density)) {
              if (t.opt === 1 && r.chance(0.2)) o[f] = undefined;
              continue;
            }
          }
          o[f] = this.value(t);
        }
        if (r.chance(0.12)) {                 // two members alike
          const st = (f) => (s.f[f].k === 'or' ? s.f[f].a.find((x) => x.k === 'str') : s.f[f].k === 'str' ? s.f[f] : undefined);
          const ks = Object.keys(o).filter((f) => typeof o[f] === 'string'), free = ks.filter((f) => { const x = st(f); return x && !x.tok && !x.hv && !x.path && !x.base; });
          if (free.length && ks.length > 1) {
            const a = r.pick(free), b = o[r.pick(ks.filter((f) => f !== a))];
            const v = r.pick([b, b, b.toLowerCase(), b.toUpperCase(), ` ${b}`, b + b, b.slice(0, -1), `${b}x`]);
            if (v.isWellFormed() && !(st(a).ne && v === '') && !(st(a).seg && (v === '.' || v === '..'))) o[a] = v;
          }
        }
        return o;
      }
      default: throw new Error('shape ' + s.k);
    }
  }
  arg(s) {
    if (s.opt && !this.r.chance(Math.max(0.3, this.density))) return undefined;
    return this.value(s);
  }
}
