// Runs the real code of /repo on concrete inputs against a scripted network and
// compares it, call by call, with what the contracts demand (oracle.mjs).
//   node harness.mjs --repo /repo --contracts DIR --scratch DIR --ops a,b
//        --cases N --seed S --out FILE [--literals FILE] [--model FILE] [--only I]
import fs from 'node:fs';
import path from 'node:path';
import { isDeepStrictEqual } from 'node:util';
import { AsyncLocalStorage } from 'node:async_hooks';
import { pathToFileURL } from 'node:url';
import { build } from './build.mjs';
import { Gen, rng, hash } from './gen.mjs';
import { TEXT, AnyError, loadSpecs, runSpec, renderNode } from './oracle.mjs';
import { MAILS } from './mails.mjs';

const A = {};
for (let i = 2; i < process.argv.length; i += 2) A[process.argv[i].slice(2)] = process.argv[i + 1];
const contracts = path.resolve(A.contracts);
const scratch = path.resolve(A.scratch);
fs.mkdirSync(scratch, { recursive: true });

// ---- the world ----------------------------------------------------------------
const real = { setTimeout: globalThis.setTimeout, setImmediate: globalThis.setImmediate, now: Date.now, log: console.log, fetch: globalThis.fetch };
const NOW = 1750000000000;
Date.now = () => NOW;
const als = new AsyncLocalStorage();
const stray = [];
const tick = () => new Promise((r) => real.setImmediate(r));
globalThis.setTimeout = (f, _ms, ...a) => real.setTimeout(f, 0, ...a);
globalThis.__process = { env: {} };
process.on('unhandledRejection', (e) => { stray.push({ label: 'outcome', why: 'unhandled rejection', detail: String(e) }); });
process.on('uncaughtException', (e) => { stray.push({ label: 'outcome', why: 'uncaught exception', detail: String(e?.stack ?? e) }); });

globalThis.__importRender = async () => {
  const c = als.getStore();
  if (c?.noRenderer) throw new Error("Cannot find module '@react-email/render'");
  const render = async (node, ...rest) => {
    const k = als.getStore();
    for (let i = k ? k.r.int(4) : 0; i > 0; i--) await tick();
    if (rest.some((x) => x !== undefined && Object.keys(x).length)) return 'rendered with other options';
    return renderNode(node);
  };
  return { render, renderAsync: render, toPlainText: () => 'plain', default: { render } };
};

function makeResponse(s) {
  const nobody = s.status === 204 || s.status === 205 || s.status === 304;
  let body = null;
  if (!nobody) {
    if (!s.readable) {
      body = new ReadableStream({ start(c) { c.error(s.readError); } });
    } else body = s.bytes;
  }
  return new Response(body, { status: s.status, statusText: s.statusText, headers: s.headers });
}

globalThis.fetch = async (input, init) => {
  const c = als.getStore();
  let url = input, more = init;
  if (input instanceof Request) {
    url = input.url;
    more = { method: input.method, headers: [...input.headers], body: (await input.clone().text()) || undefined, ...init };
  }
  const rec = { url: String(url), method: more?.method ?? 'GET', headers: [...new Headers(more?.headers ?? {})], extra: [] };
  for (const k of FETCH_KEYS) if (more?.[k] !== undefined) rec.extra.push(k);
  const b = more?.body;
  if (b instanceof FormData) rec.form = [...b.entries()];
  else rec.body = b === null ? undefined : typeof b === 'string' || b === undefined ? b : { notText: Object.prototype.toString.call(b) };
  if (!c) {
    stray.push({ label: 'requests.count', why: 'a request outside any call', detail: rec.url });
    return new Response('{}');
  }
  const k = c.requests.length;
  c.requests.push(rec);
  const s = c.scenario[Math.min(k, c.scenario.length - 1)];
  for (let i = c.r.int(5); i > 0; i--) await tick();
  if (!s.delivered) throw s.fetchError;
  return makeResponse(s);
};
const FETCH_KEYS = ['mode', 'credentials', 'cache', 'redirect', 'referrer', 'referrerPolicy', 'integrity', 'keepalive', 'signal', 'duplex', 'priority', 'window', 'dispatcher'];

for (const level of ['log', 'info', 'warn', 'error', 'debug', 'trace', 'dir', 'table']) {
  const old = console[level];
  console[level] = (...a) => {
    const c = als.getStore();
    if (c) c.logs.push({ level, args: a.map((x) => clone(x)) });
    else if (A.verbose) old.call(console, ...a);
  };
}

// ---- comparison ------------------------------------------------------------------
function clone(v, seen = new Map()) {
  if (v === null || typeof v !== 'object') return v;
  if (seen.has(v)) return seen.get(v);
  if (v instanceof Error) return { $error: String(v) };
  if (v instanceof Headers) return { $headers: [...v] };
  if (v instanceof FormData) return { $form: [...v.entries()].map(([k, x]) => [k, clone(x, seen)]) };
  if (v instanceof Blob) return { $blob: [v.size, v.type, v.name] };
  if (Buffer.isBuffer(v)) return { $bytes: v.toString('hex') };
  const o = Array.isArray(v) ? [] : {};
  seen.set(v, o);
  for (const k of Object.keys(v)) o[k] = clone(v[k], seen);
  if (Array.isArray(v)) o.length = v.length;
  return o;
}
// the objects a value consists of, with what clone() does not show: which object it is, the
// order of its keys, hidden and symbol keys, and whether it may still be changed
function marks(v, l = [], seen = new Set()) {
  if (v === null || typeof v !== 'object' || seen.has(v) || v.$$typeof) return l;
  seen.add(v);
  const p = Object.getPrototypeOf(v);
  l.push(v, p, (Object.isExtensible(v) ? 4 : 0) + (Object.isSealed(v) ? 2 : 0) + (Object.isFrozen(v) ? 1 : 0));
  if (!Array.isArray(v) && p !== Object.prototype && p !== null) return l;
  for (const k of Reflect.ownKeys(v)) {
    const d = Object.getOwnPropertyDescriptor(v, k);
    l.push(k, (d.enumerable ? 4 : 0) + (d.configurable ? 2 : 0) + (d.writable ? 1 : 0), d.get);
    if (d.enumerable && 'value' in d) marks(d.value, l, seen);
  }
  return l;
}
function snap(kase) {
  kase.before = clone(kase.args);
  kase.marks = marks(kase.args);
}
function untouched(kase) {
  if (!isDeepStrictEqual(kase.before, clone(kase.args))) return false;
  const l = marks(kase.args);
  return l.length === kase.marks.length && l.every((x, i) => x === kase.marks[i]);
}
function same(a, b) {
  if (b === TEXT) return typeof a === 'string';
  if (a === b) return true;
  if (a === undefined || b === undefined || a === null || b === null) return false;
  if (typeof a !== typeof b) return false;
  if (typeof a !== 'object') return Object.is(a, b) || a === b;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => same(x ?? null, b[i] ?? null));
  if (a instanceof Headers || b instanceof Headers) return false;
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    const x = a[k], y = b[k];
    if (x === undefined && y === undefined) continue;
    if (!same(x, y)) return false;
  }
  return true;
}
function parseWhere(text) {
  // path segments, decoded, and query parameters
  const i = text.indexOf('?');
  const p = i < 0 ? text : text.slice(0, i);
  const q = i < 0 ? null : text.slice(i + 1);
  const segs = p.split('/').map((s) => { try { return decodeURIComponent(s); } catch { return '\uFFFD' + s; } });
  return { segs, query: q === null ? null : [...new URLSearchParams(q)], bare: q === '' };
}
const href = (u) => { try { return new URL(u, 'http://relative.invalid').href; } catch { return u; } };
const sortPairs = (l) => [...l].map((x) => JSON.stringify(x)).sort();

async function blobEq(a, b) {
  if (!(a instanceof Blob)) return false;
  const n = (x) => (x instanceof File ? x.name : 'blob');
  return a.type === b.type && n(a) === n(b) && Buffer.from(await a.arrayBuffer()).equals(Buffer.from(await b.arrayBuffer()));
}

async function compareRequest(k, a, b, bad) {
  const L = (s) => `request${k}.${s}`;
  if (a.method !== b.method) bad(L('method'), b.method, a.method);
  if (b.raw !== undefined) {
    if (href(a.url) !== href(b.base + b.raw)) bad(L('path'), b.base + b.raw, a.url);
  } else if (!a.url.startsWith(b.base)) bad(L('base'), b.base + b.where, a.url);
  else {
    const w = parseWhere(a.url.slice(b.base.length));
    const want = ['', ...b.path];
    if (!isDeepStrictEqual(w.segs, want) || a.url.includes('#')) bad(L('path'), b.where, a.url);
    else {
      // what a URL parser makes of it
      const u = new URL(a.url, 'http://relative.invalid');
      const bp = b.base ? (b.base.endsWith('/') ? new URL(b.base).pathname : new URL(b.base).pathname.replace(/\/$/, '')) : '';
      const got = u.pathname.slice(bp.length).split('/').map((s) => { try { return decodeURIComponent(s); } catch { return s; } });
      if (!isDeepStrictEqual(got, want)) bad(L('path'), b.where, u.pathname);
    }
    if (w.bare) bad(L('query.none'), 'no query string', a.url);
    const q = w.query ?? [];
    for (const n of new Set([...q, ...b.query].map(([n]) => n))) {
      const x = q.filter(([m]) => m === n), y = b.query.filter(([m]) => m === n);
      if (!isDeepStrictEqual(x, y)) bad(L('query.' + n), y, x);
    }
  }
  const ha = new Map(a.headers), hb = new Map(b.headers);
  for (const n of new Set([...ha.keys(), ...hb.keys()])) {
    if (ha.get(n) !== hb.get(n)) bad(L('headers.' + (['authorization', 'user-agent', 'content-type', 'idempotency-key', 'x-batch-validation'].includes(n) ? n : 'other')), [n, hb.get(n)], [n, ha.get(n)]);
  }
  if (a.extra.length) bad(L('init'), [], a.extra);
  if (b.form) {
    if (!a.form) bad(L('body'), 'form data', a.body);
    else for (const n of new Set([...a.form, ...b.form].map(([n]) => n))) {
      const x = a.form.filter(([m]) => m === n), y = b.form.filter(([m]) => m === n);
      let ok = x.length === y.length;
      for (let i = 0; ok && i < x.length; i++) {
        const [u, v] = [x[i][1], y[i][1]];
        if (v instanceof Blob) ok = await blobEq(u, v);
        else if (u !== v) { try { ok = isDeepStrictEqual(JSON.parse(u), JSON.parse(v)); } catch { ok = false; } }
      }
      if (!ok) bad(L('form.' + n), y.map(([, v]) => clone(v)), x.map(([, v]) => clone(v)));
    }
    return;
  }
  if (a.form) return bad(L('body'), b.body, 'form data');
  if (a.body === b.body) return;
  if (typeof a.body !== 'string' || b.body === undefined) return bad(L('body'), b.body, a.body);
  let x, y;
  try { x = JSON.parse(a.body); } catch { return bad(L('body'), b.body, a.body); }
  y = JSON.parse(b.body);
  const plain = (v) => v !== null && typeof v === 'object' && !Array.isArray(v);
  if (plain(x) && plain(y)) {
    for (const n of new Set([...Object.keys(x), ...Object.keys(y)])) if (!isDeepStrictEqual(x[n], y[n])) bad(L('body.' + n), y[n], x[n]);
  } else if (!isDeepStrictEqual(x, y)) bad(L('body'), y, x);
}

async function compareCase(kase, bad) {
  const { expected: e, want, got } = kase;
  if (kase.requests.length !== e.requests.length) bad('requests.count', e.requests.map((r) => r.method + ' ' + r.where), kase.requests.map((r) => r.method + ' ' + r.url));
  for (let k = 0; k < Math.min(kase.requests.length, e.requests.length); k++) await compareRequest(k, kase.requests[k], e.requests[k], bad);
  if (got.pending) bad('outcome', show(want), 'never settles');
  else if (got.ok !== want.ok) bad('outcome', show(want), show(got));
  else if (!want.ok) {
    if (want.error instanceof AnyError ? !(got.error instanceof Error) : kase.op.verify ? false : got.error !== want.error) bad('outcome.error', String(want.error), String(got.error));
  } else {
    const x = got.value, y = want.value, pre = e.requests.length ? '' : 'local.';
    const rec = (v) => v !== null && typeof v === 'object' && !Array.isArray(v);
    if (rec(x) && rec(y) && ('error' in y || 'userAgent' in y)) {
      for (const n of new Set([...Object.keys(x), ...Object.keys(y)])) {
        if (x[n] === undefined && y[n] === undefined) continue;
        if (!same(x[n], y[n])) bad(pre + (n in y ? 'result.' + n : 'result'), clone(y[n]), clone(x[n]));
      }
    } else if (!same(x, y)) bad(pre + 'result', clone(y), clone(x));
  }
  if (kase.logs.length !== e.logs.length) bad('log.count', e.logs, kase.logs);
  else for (let i = 0; i < e.logs.length; i++) {
    const l = kase.logs[i], w = e.logs[i];
    const o = l.args.filter((a) => typeof a === 'object' && a !== null);
    let ok = l.level === 'error' && o.length === 1 && l.args.every((a) => typeof a === 'string' || typeof a === 'object');
    if (ok) {
      const { path: p, ...rest } = o[0];
      const { path: q, ...wrest } = w;
      const P = typeof p === 'string' ? parseWhere(p) : null, Q = parseWhere(q);
      ok = same(rest, wrest) && P !== null && (p === q || (isDeepStrictEqual(P.segs, Q.segs) && isDeepStrictEqual(sortPairs(P.query ?? []), sortPairs(Q.query ?? []))));
    }
    const secret = l.args.some((a) => typeof a === 'string' && kase.client && a.includes(kase.client.key) && kase.client.key.length > 3);
    if (!ok || secret) bad('log.content', clone(w), l);
  }
  if (!untouched(kase)) bad('frame.input', kase.before, clone(kase.args));
}
const show = (o) => (o.pending ? 'never settles' : o.ok ? { returned: clone(o.value) } : { threw: String(o.error?.stack ?? o.error).slice(0, 300) });

// ---- cases -------------------------------------------------------------------------
const STATUS_OK = [200, 201, 202, 203, 299];
const STATUS_BAD = [300, 301, 302, 307, 308, 400, 408, 413, 425, 401, 403, 404, 405, 409, 422, 429, 451, 500, 502, 503, 504, 599, 304];
function respHeaders(g) {
  const r = g.r, h = { 'content-type': r.pick(['application/json', 'text/html', 'application/octet-stream']) };
  for (const n of ['x-request-id', 'ratelimit-remaining', 'retry-after', 'x-resend-daily-quota', 'etag']) if (r.chance(0.3)) h[n] = r.pick(['0', '1', '7', 'abc', 'W/"x"', '120', 'a, b', 'x; y=1, z']);
  for (const n of g.words) if (r.chance(0.25)) h[n] = r.pick(['0', '1', 'true', 'abc', ...g.words]);
  if (r.chance(0.1)) h['set-cookie'] = 'a=b; Path=/';
  // as many headers as a server behind a proxy sends
  if (r.chance(0.1)) for (let i = 0, n = 1 + r.int(40); i < n; i++) h[`x-h${r.int(100)}`] = r.pick(['0', 'a', 'x'.repeat(r.int(300))]);
  if (r.chance(0.1)) h['content-type'] = r.pick(['application/json; charset=utf-8', 'text/plain', '', ...g.fresh.filter((x) => /^[\w.+-]+\/[\w.+-]+$/.test(x))]);
  return h;
}
// what fetch or the reading of a body may reject with
function failure(g) {
  const r = g.r, w = ['ECONNRESET', 'ETIMEDOUT', 'ENOTFOUND', 'UND_ERR_SOCKET', 'UND_ERR_CONNECT_TIMEOUT', 'TimeoutError', 'AbortError', ...g.words, ...g.words];
  const e = r.pick([() => new TypeError('fetch failed'), () => new Error(r.pick(w)), () => new DOMException('x', r.pick(w)), () => Object.assign(new Error('x'), { name: r.pick(w) })])();
  if (r.chance(0.6)) try { e.cause = Object.assign(new Error(r.pick(w)), { code: r.pick(w), errno: -104 }); } catch {}
  if (r.chance(0.4)) try { e.code = r.pick(w); } catch {}
  return e;
}
function scenario(g, op, k, model) {
  // statuses the source mentions now and did not before are tried more often
  const fs = g.freshNums.filter((n) => Number.isInteger(n) && n >= 200 && n <= 599);
  const ok = fs.filter((n) => n < 300), no = fs.filter((n) => n >= 300);
  const bad = () => r.pick(no.length && r.chance(0.3) ? no : STATUS_BAD);
  const r = g.r;
  const s = { delivered: true, readable: true, status: r.pick(ok.length && r.chance(0.3) ? ok : STATUS_OK), headers: respHeaders(g), statusText: r.pick(['', 'OK', 'Bad', 'Not Found']) };
  s.fetchError = r.pick([new TypeError('fetch failed'), new Error('socket'), 'boom', undefined, { code: 'ECONNRESET' }, new SyntaxError('odd'), failure(g), failure(g)]);
  s.readError = r.pick([new Error('terminated'), new TypeError('terminated'), 'aborted', { a: 1 }, undefined, new DOMException('aborted', 'AbortError'), failure(g)]);
  const shape = op.resp?.[k];
  let kind = r.next();
  const p = op.resp || op.chain ? 0.65 : 0.45;
  let text;
  const jsonBody = () => JSON.stringify(shape ? (SHAPES[shape].closed ? g.value(SHAPES[shape]) : { ...g.json1(), ...received(g, g.value(SHAPES[shape])) }) : r.chance(0.12) ? r.pick([[], [g.json()], [g.json(), g.json()], [g.rec(), g.rec(), g.rec()]]) : { object: 'x', id: r.pick(['id_9', 'other']), ...g.rec(), ...(r.chance(0.2) ? { statusCode: r.pick([200, 400, 500, null]), message: g.str() } : {}) });
  const errBody = () => JSON.stringify({ name: r.pick(['validation_error', 'rate_limit_exceeded', 'not_found', 'application_error', 'internal_server_error']), message: g.str(), statusCode: r.pick([400, 422, null, 500]), ...(r.chance(0.3) ? g.rec() : {}), ...(r.chance(0.15) ? { [r.pick(['path', 'status', 'headers', 'data', 'error', 'cause', 'stack', 'type', 'code', ...g.words])]: g.json() } : {}) });
  if (model) {
    s.delivered = model.delivered ?? true;
    if (model.status) s.status = Number(model.status);
    s.readable = model.readable ?? true;
    const ok = s.status >= 200 && s.status < 300;
    const kindOf = model.jsonKind;
    if (model.isJson === false) text = 'not json';
    else if (ok) text = jsonBody();
    else text = kindOf === '0' ? 'null' : kindOf === '2' ? '[1]' : kindOf === '3' ? '"text"' : kindOf === '4' ? '42' : kindOf === '5' ? 'true' : errBody();
  } else if (kind < p) text = jsonBody();
  else {
    kind = r.int(11);
    if (kind < 3) { s.status = bad(); text = errBody(); }
    else if (kind === 3) { s.status = bad(); text = r.pick(['null', '42', '"text"', 'true', '[]', '[{"a":1}]', '[1,2]', '[{"message":"a"},{"message":"b"}]', '{}', '0', 'false', '""']); }
    else if (kind === 4) { s.status = bad(); text = r.pick(['<html>', '', 'Bad Gateway', '{"a":', ' ']); }
    else if (kind === 5) { s.status = bad(); s.readable = false; text = ''; }
    else if (kind === 6) { s.readable = false; text = ''; }
    else if (kind === 7) { text = r.pick(['', 'OK', '<html>', '{"a":', 'undefined']); if (r.chance(0.2)) s.status = 204; }
    else if (kind < 10) { s.delivered = false; text = ''; }
    else { s.status = bad(); text = errBody(); }
  }
  if (s.status === 204 || s.status === 205 || s.status === 304) { text = ''; s.readable = true; }
  s.text = text;
  s.bytes = Buffer.from(text);
  if (op.forward && k === 1 && s.readable && ![204, 205, 304].includes(s.status)) {
    s.bytes = Buffer.from(r.pick(MAILS));
    s.text = s.bytes.toString('utf8');
    delete s.headers['content-type'];
  }
  if (!s.readable) s.text = undefined;
  return s;
}
// answers may have members nobody documented, at any depth
function extras(g, v) {
  if (v === null || typeof v !== 'object') return;
  for (const x of Object.values(v)) extras(g, x);
  if (!Array.isArray(v) && g.r.chance(0.2)) for (const [k, x] of Object.entries(g.rec())) if (!g.shapes.$known.has(k) && !(k in v)) v[k] = x;
}
function received(g, v) {
  extras(g, v);
  if (v && typeof v === 'object' && 'message_id' in v && v.raw) {
    const r = g.r;
    if (v.raw.download_url !== '') v.raw.download_url = r.pick(['https://cdn.example.test/raw/a.eml', 'https://cdn.example.test/raw?sig=a%2Fb%3D&exp=1', 'https://other.test/x%20y', 'https://inbound-cdn.resend.com/raw?X-Amz=1', 'http://h.test:8080/a.eml#x', ...g.fresh.filter((x) => /^[\w.-]+\.[a-z]+$/.test(x)).flatMap((x) => [`https://${x}/a.eml`, `https://a.${x}/b?c=d`])]);
    if (r.chance(0.1)) v.raw.download_url = '';
    if (r.chance(0.5)) v.subject = r.pick(['Hello', 'Fwd: Hello', 'fwd: hello', 'Fwd:Hello', '', 'FWD: x', ' Fwd: y', 'Fwd', 'Re: Fwd: z', g.str(), g.str()]);
  } else if (v && typeof v === 'object' && 'message_id' in v && g.r.chance(0.8)) {
    v.raw = { download_url: 'https://cdn.example.test/raw/b.eml', expires_at: 'soon' };
  }
  return v;
}
Gen.prototype.json1 = function () { return this.r.chance(0.3) ? this.rec() : {}; };

function processOf(g, model) {
  const r = g.r;
  const env = () => {
    const e = {};
    if (r.chance(0.5)) e.NODE_ENV = r.pick(['production', 'development', 'test', '', 'Production', 'production ']);
    for (const [n, l] of [['RESEND_API_KEY', ['re_env', '', 're_env_2', ' re_env ', ' ', 'RE_ENV', '"re_q"', ...g.words]], ['RESEND_BASE_URL', ['https://env.test', '', 'http://env.local:1', 'https://env.test/', 'https://env.test/v1', 'HTTPS://Env.Test']], ['RESEND_USER_AGENT', ['env-agent/1', '', ' ', 'env agent (x; y)', ...g.words]]]) if (r.chance(0.6)) e[n] = r.pick(l);
    for (const n of ENVNAMES) if (r.chance(0.3)) e[n] ??= r.pick(['1', 'true', '', '0', 'https://env.test']);
    return e;
  };
  const k = r.int(10);
  if (model && 'process.defined' in model) {
    if (model['process.defined'] === 'False') return undefined;
    if (model['process.env.defined'] === 'False') return {};
    const e = env();
    if (model['env2.NODE_ENV'] !== undefined) e.NODE_ENV = model['env2.NODE_ENV'];
    return { env: e };
  }
  if (k === 0) return undefined;
  if (k === 1) return {};
  return { env: env() };
}
let ENVNAMES = [];

function configOf(g, model) {
  const r = g.r;
  const c = { key: g.near(['re_secret_key_1', 're_b', 'k', 're_x_0123456789', 'team key', 'Bearer re_x', 'RE_UPPER', '123', 'a'.repeat(200)]), baseUrl: g.value({ k: 'str', base: 1 }), userAgent: g.near(['agent/1', 'custom agent', 'two  spaces', 'tab\tinside (x; y)', '', 'x'.repeat(60)]) };
  return c;
}

// inputs named by a counter-model of the verifier, the rest generated
function pinned(g, shape, name, m) {
  const has = (n) => Object.prototype.hasOwnProperty.call(m, n);
  const fits = (s, v) => (!s.ne || v !== '') && (!s.tok || /^[A-Za-z0-9_-]*$/.test(v)) && (!s.seg || (v !== '.' && v !== '..')) && (!s.hv || /^[\x21-\x7e]*$/.test(v)) && !s.path && !s.base && !/[\ud800-\udfff]/.test(v);
  switch (shape.k) {
    case 'str': return has(name) && fits(shape, m[name]) ? m[name] : g.value(shape);
    case 'num': { const [a, b] = has(name) ? String(m[name]).split('/').map(Number) : []; return has(name) && Number.isFinite(a / (b ?? 1)) ? a / (b ?? 1) : g.value(shape); }
    case 'bool': return has(name) ? m[name] === true : g.value(shape);
    case 'enum': return has(name) && shape.v.includes(m[name]) ? m[name] : g.value(shape);
    case 'ref': return pinned(g, g.shapes[shape.name], name, m);
    case 'or': {
      let i = has(name + '@') ? Number(m[name + '@']) : g.r.int(shape.a.length);
      if (!(i >= 0 && i < shape.a.length)) i = shape.a.length - 1;
      return pinned(g, shape.a[i], shape.a.length > 1 ? `${name}@${i}` : name, m);
    }
    case 'any': return m[name + '=null'] === true ? null : g.value(shape);
    case 'arr': {
      const n = has(name + '#len') ? Math.min(130, Math.max(0, Number(m[name + '#len']))) : g.r.int(4);
      return Array.from({ length: n }, () => g.value(shape.e));
    }
    case 'obj': {
      const o = {};
      for (const [f, t] of Object.entries(shape.f)) {
        const n = `${name}.${f}`;
        if (t.opt) {
          const d = has(n + '?') ? m[n + '?'] : g.r.chance(0.3);
          if (!d) { if (t.opt === 1 && m[n + '!'] === true) o[f] = undefined; continue; }
        }
        o[f] = pinned(g, t, n, m);
      }
      return o;
    }
    default: return g.value(shape);
  }
}

function verifyArgs(g) {
  const r = g.r, { Webhook } = globalThis.__deps;
  const secret = r.pick(['whsec_' + Buffer.from('secret-bytes-of-24-len!!').toString('base64'), Buffer.from('another secret of some').toString('base64'), 'whsec_' + Buffer.from('\xfb\xff\xbe odd bytes, padded', 'latin1').toString('base64'), 'whsec_' + Buffer.from('unpadded secret!').toString('base64').replace(/=+$/, '')]);
  const payload = r.pick(['{"type":"email.sent","data":{"id":"1"}}', '{}', '[1,2]', '"text"', '{ "spaced" : 1 }\n', 'not json', '{"é":"😀"}', '', '{"type":"email.sent",\r\n "data":{"text":"a\\r\\nb"}}\r\n', '{"n":9007199254740993,"e":1e3,"d":1.10}', '{"a":1,"a":2}', '{"a":"\\u00e9\\ud83d\\ude00"}', '{"type":"x","data":null,"created_at":"2024-01-01T00:00:00.000Z"}', JSON.stringify({ type: g.str(), data: g.rec() }), JSON.stringify({ type: g.words.length ? r.pick(g.words) : 'a', data: { [g.key()]: g.str() } }), g.str()]);
  const id = r.chance(0.3) ? g.str() : r.pick(['msg_1', 'msg_p5jXN8AQM9LWM0D4loKWxJek', '', 'a.b', 'MSG_2', 'i'.repeat(90)]);
  const at = r.pick([0, 0, 0, 0, -200, 200, -299, -301, 301, -4000, 9000]);
  const date = new Date(NOW + at * 1000);
  let sig = '';
  try { sig = new Webhook(secret).sign(id, date, payload); } catch {}
  const o = { payload, headers: { id, timestamp: String(Math.floor(date.getTime() / 1000)), signature: sig }, webhookSecret: secret };
  const good = new Webhook('whsec_' + Buffer.from('other').toString('base64')).sign('x', new Date(NOW), 'y');
  const ts = o.headers.timestamp;
  switch (r.int(24)) {
    case 0: o.payload += ' '; break;
    case 1: o.headers.id += 'x'; break;
    case 2: o.headers.timestamp = String(Number(o.headers.timestamp) + 1); break;
    case 3: o.headers.timestamp = r.pick(['', 'soon', '1e9', ' ' + ts, ts + '.0', '0', ts + 'x', ts + '.9', ts + ' ', ts + '\n', '0' + ts, '+' + ts, '-' + ts, '0x' + Number(ts).toString(16), ts / 1e9 + 'e9', ts + '000', ts + ',1']); break;
    case 4: o.headers.signature = r.pick(['', 'v1', 'v1,', 'v2,' + sig.slice(3), sig.slice(3), sig + 'A', sig.toUpperCase(), good, sig.slice(0, -1), sig.replace(/=+$/, ''), 'v1a,' + sig.slice(3), 'V1,' + sig.slice(3), sig.replace(',', ', ')]); break;
    case 5: o.headers.signature = good + ' ' + sig; break;
    case 6: o.headers.signature = sig + ' ' + good; break;
    case 7: o.webhookSecret = r.pick(['', 'whsec_', 'whsec_' + Buffer.from('wrong').toString('base64'), '!!!', secret + 'AAAA', ' ' + secret]); break;
    case 8: o.payload = o.payload.trim(); break;
    case 9: { const t = o.headers.id; o.headers.id = o.headers.timestamp; o.headers.timestamp = t; break; }
    case 10: o.headers.signature = r.pick([' ' + sig, sig + ' ', sig + '\n', '\t' + sig, sig + ',' + good, good + ',' + sig, good + '  ' + sig, 'v0,x v2,y ' + sig, [good, good, good, good, sig].join(' '), sig + ' ' + sig]); break;
    case 11: case 12: try { o.payload = JSON.stringify(JSON.parse(payload), null, r.pick([1, 2, '\t'])); if (o.payload === payload) o.payload += '\n'; } catch {} break;
    case 13: o.payload = r.pick([o.payload + '\n', '\ufeff' + o.payload, o.payload.normalize('NFD'), JSON.stringify(o.payload)]); break;
    case 15: o.webhookSecret = r.pick(['whsec_' + secret, secret.replace('whsec_', ''), secret.replace('whsec_', 'WHSEC_'), secret + '=', secret + '\n', secret.replace(/\+/g, '-').replace(/\//g, '_'), secret.toLowerCase()]); break;
    case 16: case 17: if (g.fresh.length) {       // what the source may put in place of something empty
      const w = r.pick(g.fresh), [i, p, k] = r.pick([[w, payload, secret], [id, w, secret], [id, payload, w]]);
      try { o.headers.signature = new Webhook(k).sign(i, date, p); } catch {}
      if (i !== id) o.headers.id = '';
      if (p !== payload) o.payload = '';
      if (k !== secret) o.webhookSecret = '';
    } break;
    case 14: o.headers.id = r.pick([' ' + o.headers.id, o.headers.id.toUpperCase(), o.headers.id.trim() + ' ']); break;
    default:
  }
  return [o];
}

function findMethod(client, op) {
  const parts = op.id.split('.');
  let t = client;
  for (const p of parts.slice(0, -1)) t = t[p];
  return [t, parts.at(-1)];
}

function makeCase(op, idx, seed, shared, model) {
  const g = new Gen(hash(`${seed}/${op.id}/${idx}`), SHAPES, LITS);
  g.density = [0.5, 0.2, 0.85, 0, 1, 0.35, 0.65][idx % 7];
  g.big = !!op.batch && idx % 5 === 4;
  const kase = { op, idx, r: g.r, requests: [], logs: [] };
  kase.process = processOf(g, model);
  kase.config = configOf(g, model);
  kase.noRenderer = model && 'renderer.installed' in model ? model['renderer.installed'] === 'False' : g.r.chance(op.react ? 0.06 : 0);
  const names = op.args.map((a) => a[0]);
  if (op.verify && g.r.chance(0.9)) kase.args = verifyArgs(g);
  else if (model) kase.args = op.args.map(([n, s]) => (s.opt ? (model[n + '?'] ?? g.r.chance(0.4)) : true) ? pinned(g, s, n, model) : undefined);
  else kase.args = op.args.map(([, s]) => g.arg(s));
  if (op.id === 'delete' || op.id === 'post') { /* a trailing undefined is the same as absence */ }
  kase.named = Object.fromEntries(names.map((n, i) => [n, kase.args[i]]));
  kase.scenario = Array.from({ length: 6 }, (_, k) => {
    const m = model && Object.keys(model).some((x) => x.startsWith(`resp${k}.`))
      ? Object.fromEntries(['delivered', 'readable', 'isJson'].map((n) => [n, model[`resp${k}.${n}`] === undefined ? undefined : model[`resp${k}.${n}`] === 'True']).concat(['status', 'jsonKind'].map((n) => [n, model[`resp${k}.${n}`]]))) : null;
    return scenario(g, op, k, m);
  });
  snap(kase);
  return kase;
}
async function prepare(kase) {
  if (kase.op.forward) {
    for (const s of kase.scenario) {
      try {
        s.mime = await globalThis.__deps.PostalMime.parse(s.bytes, { attachmentEncoding: 'base64' });
      } catch (e) {
        s.mimeError = e;
      }
    }
  }
}
function expectation(kase, client) {
  globalThis.__process = kase.process === undefined ? undefined : structuredClone(kase.process);
  kase.client = client;
  const name = kase.op.spec ?? kase.op.id.replace(/\./g, '_');
  const fn = specs[name] ?? specs[name + '_'];
  changeEnv(kase);
  kase.want = runSpec(fn, kase.op.config ? structuredClone(kase.named) : kase.named, kase);
  kase.expected = JSON.parse(JSON.stringify(kase.expected, (k, v) => (v === TEXT ? '$TEXT' : v))) && kase.expected;
  if (kase.want.error?.contractBug) throw new Error(`contract of ${kase.op.id} failed: ${kase.want.error.stack}`);
  kase.expected.logs = kase.expected.logs.map((l) => l);
  // the demanded values are frozen now: later writes to the arguments must not change them
  if (kase.want.ok) kase.want.value = freeze(kase.want.value);
}
function freeze(v) {
  if (v === null || typeof v !== 'object' || v instanceof Blob || v instanceof Error) return v;
  if (Array.isArray(v)) return v.map(freeze);
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, freeze(x)]));
}
function changeEnv(kase) {
  globalThis.__changeEnvironment = () => {
    const p = globalThis.__process;
    if (p?.env) for (const n of ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT', 'NODE_ENV']) p.env[n] = n === 'NODE_ENV' ? (kase.idx % 2 ? 'production' : 'other') : n === 'RESEND_BASE_URL' ? 'https://changed.test' : 'changed_' + n;
  };
}
async function execute(kase, target) {
  let p;
  const t0 = Promise.resolve();
  p = als.run(kase, async () => {
    if (kase.op.driver) return specs[kase.op.driver]({ ...kase.named, client: target });
    const [o, m] = findMethod(target, kase.op);
    let n = kase.args.length;
    while (n > 0 && kase.args[n - 1] === undefined) n--;
    return o[m](...kase.args.slice(0, n));
  }).then((value) => ({ ok: true, value }), (error) => ({ ok: false, error }));
  const limit = new Promise((r) => { const t = real.setTimeout(() => r({ pending: true }), 4000); t.unref?.(); p.then(() => clearTimeout(t)); });
  kase.got = await Promise.race([p, limit]);
  kase.raw = kase.got.value;
  if (kase.got.ok && kase.got.value && typeof kase.got.value === 'object') kase.got.value = keep(kase.got.value);
}
const keep = (v) => (Object.getPrototypeOf(v) === Object.prototype ? { ...v } : v);

// ---- main ------------------------------------------------------------------------------
const failures = [];
const counts = { cases: 0, calls: 0, concurrent: 0, reused: 0, requests: 0 };
const perOp = {};
function report(kase, extra, label, wanted, got) {
  perOp[kase.op.id].failed = (perOp[kase.op.id].failed ?? 0) + 1;
  if (failures.filter((f) => f.op === kase.op.id && f.label === label).length >= 3) return;
  failures.push({
    op: kase.op.id, index: kase.idx, label, expected: safe(wanted), actual: safe(got), arguments: safe(kase.before), client: kase.config,
    environment: kase.process === undefined ? 'no process global' : safe(kase.process),
    answers: kase.scenario.slice(0, Math.max(1, kase.requests.length)).map((s) => ({ delivered: s.delivered, status: s.status, readable: s.readable, text: s.text?.slice(0, 400) })),
    ...extra,
  });
}
function safe(v) {
  const t = JSON.stringify(v, (k, x) => (x === TEXT ? '<any text>' : typeof x === 'symbol' ? String(x) : typeof x === 'bigint' ? String(x) : x === undefined ? null : x instanceof Error ? String(x) : x));
  if (t === undefined) return 'undefined';
  return t.length > 4000 ? t.slice(0, 4000) + '…' : JSON.parse(t);
}

const { specs, OPS, SHAPES } = await loadSpecs(contracts, scratch);
const lit = A.literals ? JSON.parse(fs.readFileSync(A.literals, 'utf8')) : { strings: [], numbers: [], env: [] };
const LITS = { ...lit };
ENVNAMES = (lit.env ?? []).filter((n) => /^[A-Z_0-9]+$/.test(n) && !/^RESEND_(API_KEY|BASE_URL|USER_AGENT)$|^NODE_ENV$/.test(n));
globalThis.__packageVersion = JSON.parse(fs.readFileSync(path.join(A.repo, 'package.json'), 'utf8')).version;
let out;
try {
  const b = A.bundle ? { bundle: path.join(A.bundle, 'resend.bundle.mjs'), deps: path.join(A.bundle, 'deps.mjs') } : await build(path.resolve(A.repo), scratch);
  globalThis.__deps = await import(pathToFileURL(b.deps));
  const mod = await import(pathToFileURL(b.bundle));
  globalThis.__Resend = mod.Resend;
} catch (e) {
  fs.writeFileSync(A.out, JSON.stringify({ error: String(e?.stack ?? e) }));
  process.exit(3);
}
const Resend = globalThis.__Resend;
const ids = A.ops ? A.ops.split(',') : OPS.map((o) => o.id);
const ops = OPS.filter((o) => ids.includes(o.id));
const N = Number(A.cases ?? 50), seed = Number(A.seed ?? 1);
const models = A.model ? JSON.parse(fs.readFileSync(A.model, 'utf8')) : null;
const pool = OPS.filter((o) => !o.config && !o.sync);
let clients = [];
function client(kase, reuse) {
  if ((reuse || A.deep) && clients.length) return clients[A.deep ? 0 : kase.r.int(clients.length)];
  const config = kase.config;
  globalThis.__process = { env: { NODE_ENV: 'test' } };
  let made;
  try { made = new Resend(config.key, { baseUrl: config.baseUrl, userAgent: config.userAgent }); }
  catch (e) {
    report(kase, { mode: 'construction' }, 'outcome', 'a client', String(e));
    return null;
  }
  const c = { config, real: made };
  clients.push(c);
  if (clients.length > 4) clients.shift();
  return c;
}
async function finish(kases, mode) {
  for (let i = 0; i < 6; i++) await tick();
  for (const c of kases) {
    counts.calls++;
    counts.requests += c.requests.length;
    await compareCase(c, (label, w, g) => report(c, { mode, argsof: c.argsof }, label, w, g));
  }
  while (stray.length) {
    const s = stray.shift();
    report(kases[0], { mode }, s.label, s.why, s.detail);
  }
}
// what the caller may do with a result it was given
function scramble(v, spare) {
  if (v === null || typeof v !== 'object' || spare.has(v) || (!Array.isArray(v) && Object.getPrototypeOf(v) !== Object.prototype)) return;
  spare.add(v);
  for (const k of Object.keys(v)) {
    if (v[k] !== null && typeof v[k] === 'object') scramble(v[k], spare);
    else try { v[k] = 'changed by the caller'; } catch { /* frozen */ }
  }
}
function reach(v, set = new Set()) {
  if (v === null || typeof v !== 'object' || set.has(v)) return set;
  set.add(v);
  for (const k of Object.keys(v)) reach(v[k], set);
  return set;
}
// a becomes equal to b, in place as far as plain objects and lists go
function morph(a, b) {
  const plain = (x) => x !== null && typeof x === 'object' && Object.getPrototypeOf(x) === Object.prototype && !x.$$typeof;
  if (Array.isArray(a) && Array.isArray(b) && !Object.isFrozen(a)) {
    b.forEach((x, i) => { a[i] = i < a.length ? morph(a[i], x) : x; });
    a.length = b.length;
    return a;
  }
  if (a instanceof Headers && b instanceof Headers && a !== b) {
    for (const k of [...a.keys()]) a.delete(k);
    for (const [k, v] of b) a.append(k, v);
    return a;
  }
  if (!plain(a) || !plain(b) || a === b || Object.isFrozen(a)) return b;
  const old = { ...a };
  for (const k of Object.keys(a)) delete a[k];
  for (const k of Object.keys(b)) a[k] = Object.hasOwn(old, k) ? morph(old[k], b[k]) : b[k];
  return a;
}
const started = Date.now();
const late = () => Date.now() - started > Number(A.budget ?? 1e6) * 1000;
async function one(op, idx, model) {
  if (late()) { counts.skipped = (counts.skipped ?? 0) + 1; return; }
  counts.cases++;
  fs.writeFileSync(A.out + '.at', JSON.stringify({ op: op.id, index: idx }));
  const kase = makeCase(op, idx, seed, null, model);
  if (A.argsof) {
    kase.args = makeCase(op, Number(A.argsof), seed, null, null).args;
    kase.named = Object.fromEntries(op.args.map(([n], i) => [n, kase.args[i]]));
    snap(kase);
  }
  await prepare(kase);
  if (op.config) {
    expectation(kase, null);
    const before = clone(kase.args[1]);
    globalThis.__process = kase.process === undefined ? undefined : structuredClone(kase.process);
    changeEnv(kase);
    await execute(kase, null);
    snap(kase); // the driver itself rewrites the options
    await finish([kase], 'configuration');
    return;
  }
  const mode = A.only ? 'single call' : A.deep ? 'reused client' : idx % 4 === 3 ? 'concurrent' : idx % 4 === 1 ? 'reused client' : 'single call';
  const kases = [kase];
  if (mode === 'concurrent' && !op.sync) {
    counts.concurrent++;
    for (let i = kase.r.int(2); i >= 0; i--) {
      const other = kase.r.chance(0.5) ? op : pool[kase.r.int(pool.length)];
      const k2 = makeCase(other, idx * 10 + i + 100000, seed, null, null);
      k2.process = kase.process;
      k2.companion = true;
      await prepare(k2);
      kases.push(k2);
    }
  }
  for (const k of kases) perOp[k.op.id] ??= { cases: 0 };
  if (mode === 'reused client') counts.reused++;
  // the very same argument objects once more, as they are or after the caller changed them
  const again = !A.only && !A.deep && !model && !op.sync && idx % 4 === 2 ? (idx % 8 === 2 ? 'repeated' : 'repeated after changes') : null;
  const sharedClient = kase.r.chance(0.6) || again;
  let first = null;
  for (const k of kases) {
    const c = first && sharedClient ? first : client(k, mode !== 'single call');
    if (!c) return;
    first ??= c;
    k.target = c;
    k.config = c.config;
  }
  for (const k of kases) expectation(k, k.target.config);
  globalThis.__process = kase.process === undefined ? undefined : structuredClone(kase.process);
  await Promise.all(kases.map((k) => execute(k, k.target.real)));
  await finish(kases, mode);
  for (const k of kases) if (!op.sync) scramble(k.raw, reach(k.args));
  if (!again) return;
  const k2 = makeCase(op, idx * 10 + 300000, seed, null, null);
  if (again === 'repeated') {
    k2.args = kase.args;
    k2.argsof = idx;
  }
  else k2.args = k2.args.map((v, i) => morph(kase.args[i], v));
  k2.named = Object.fromEntries(op.args.map(([n], i) => [n, k2.args[i]]));
  snap(k2);
  k2.process = kase.process;
  k2.target = kase.target;
  k2.config = kase.config;
  await prepare(k2);
  expectation(k2, k2.target.config);
  globalThis.__process = k2.process === undefined ? undefined : structuredClone(k2.process);
  await execute(k2, k2.target.real);
  counts.repeated = (counts.repeated ?? 0) + 1;
  await finish([k2], again);
}
for (const op of ops) {
  perOp[op.id] ??= { cases: 0 };
  const ms = models?.[op.id];
  if (ms) for (const m of ms) for (let i = 0; i < Number(A.modelcases ?? 60); i++) {
    perOp[op.id].cases++;
    try { await one(op, 500000 + i * 4, m); } catch (e) { if (String(e).includes('contract of')) continue; throw e; }
  }
  if (A.only) await one(op, Number(A.only), null);
  else for (let i = 0; i < N; i++) {
    perOp[op.id].cases++;
    await one(op, i, null);
  }
}
fs.writeFileSync(A.out, JSON.stringify({ failures, counts, perOp, seed }, null, 1));
process.exit(0);
