// The contracts run natively: loads contracts/specs.mjs with the vocabulary
// ($request, $render, ...) bound to one scripted case, and yields what the
// contract demands for it: requests, console errors, result or error.
import fs from 'node:fs';
import path from 'node:path';
import { pathToFileURL } from 'node:url';

export const TEXT = Symbol('any text');
export class AnyError extends Error {}

export async function loadSpecs(contracts, scratch) {
  // a copy beside the bundle, so that the module cache never sees a stale one
  const p = path.join(scratch, 'specs.mjs');
  fs.copyFileSync(path.join(contracts, 'specs.mjs'), p);
  const ops = await import(pathToFileURL(path.join(contracts, 'ops.mjs')));
  bindIntrinsics();
  const specs = await import(pathToFileURL(p));
  return { specs, ...ops };
}

let cur = null; // the case whose contract is running

export function runSpec(fn, args, kase) {
  cur = kase;
  kase.expected = { requests: [], logs: [] };
  try {
    return { ok: true, value: fn(args) };
  } catch (e) {
    if (e instanceof TypeError || e instanceof ReferenceError || e instanceof RangeError) {
      if (!kase.allowed?.has(e)) e.contractBug = true;
    }
    return { ok: false, error: e };
  } finally {
    cur = null;
  }
}

// what a call sees of the k-th answer
function observe(k, where) {
  const s = cur.scenario[k];
  const ok = s.status >= 200 && s.status < 300;
  let json, isJson = false;
  if (s.delivered && s.readable) {
    try { json = JSON.parse(s.text); isJson = true; } catch {}
  }
  return {
    delivered: s.delivered, ok, readable: s.readable, isJson, json,
    jsonIsObject: typeof json === 'object' && json !== null,
    status: s.status, headers: { ...s.headers }, bytes: s, path: where,
  };
}

export function queryItems(m) {
  return Object.entries(m ?? {}).filter(([, v]) => v !== undefined).map(([k, v]) => [k, String(v)]);
}

const jsonText = (v) => JSON.stringify(v);

function bindIntrinsics() {
  const I = {
    $request(q) {
      const c = q.client ?? cur.client;
      const h = new Headers();
      const form = q.form !== undefined || ('entity' in q && q.entity instanceof FormData);
      h.set('authorization', `Bearer ${c.key}`);
      h.set('user-agent', c.userAgent);
      if (!form) h.set('content-type', 'application/json');
      for (const [k, v] of Object.entries(q.defaults ?? {})) h.set(k, v);
      if (q.options?.headers) for (const [k, v] of new Headers(q.options.headers)) h.set(k, v);
      if (q.options?.idempotencyKey) h.set('idempotency-key', q.options.idempotencyKey);
      const items = queryItems(q.query);
      const where = q.rawPath !== undefined ? q.rawPath
        : q.path.map((s) => '/' + encodeURIComponent(s)).join('') + (items.length ? '?' + new URLSearchParams(items) : '');
      const r = { method: q.method, base: c.baseUrl, where, headers: [...h] };
      if (q.rawPath !== undefined) r.raw = q.rawPath;
      else { r.path = [...q.path]; r.query = items; }
      if (q.form !== undefined) r.form = Object.entries(q.form).filter(([, v]) => v !== undefined);
      else {
        const b = 'entity' in q ? q.entity : q.body;
        if (b instanceof FormData) r.form = [...b.entries()];
        else r.body = jsonText(b);
      }
      cur.expected.requests.push(r);
      return observe(cur.expected.requests.length - 1, where);
    },
    $download(url) {
      cur.expected.requests.push({ method: 'GET', base: '', where: url, raw: url, headers: [], body: undefined });
      return observe(cur.expected.requests.length - 1, url);
    },
    $render(node) {
      if (cur.noRenderer) throw new AnyError('no renderer');
      return renderNode(node);
    },
    $parseMime(s) {
      if (s.mimeError) throw s.mimeError;
      return s.mime;
    },
    $base64: (s) => Buffer.from(s.bytes).toString('base64'),
    $verifySignature(secret, payload, id, timestamp, signature) {
      const { Webhook } = globalThis.__deps;
      return new Webhook(secret).verify(payload, { 'webhook-id': id, 'webhook-timestamp': timestamp, 'webhook-signature': signature });
    },
    $log(e) { cur.expected.logs.push(e); },
    $logging: () => !!(globalThis.__process && globalThis.__process.env && globalThis.__process.env.NODE_ENV !== 'production'),
    $text: () => TEXT,
    $trimAngles: (s) => s.replace(/^<|>$/g, ''),
    $query: (m) => new URLSearchParams(queryItems(m)).toString(),
    $segment: (s) => encodeURIComponent(s),
    $json: jsonText,
    $hasEnv: () => !!(globalThis.__process && globalThis.__process.env),
    $env: (n) => globalThis.__process.env[n],
    $packageVersion: () => globalThis.__packageVersion,
    $throw() { throw new AnyError('any error'); },
    $new: (key, options) => new globalThis.__Resend(key, options),
    $changeEnvironment() { globalThis.__changeEnvironment(); },
    $scramble(o) { if (o && typeof o === 'object') for (const k of Object.keys(o)) o[k] = 'https://scrambled.invalid'; },
  };
  Object.assign(globalThis, I);
}

export function renderNode(node) {
  if (node && typeof node === 'object' && node.$render) {
    if ('error' in node.$render) throw node.$render.error;
    return node.$render.html;
  }
  if (Array.isArray(node)) return `<!--$-->${node.map(renderNode).join('')}`;
  return `<rendered>${String(node)}</rendered>`;
}
