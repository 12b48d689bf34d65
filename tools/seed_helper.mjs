// Run with cwd at the built repository. No real network: fetch is a recording stand-in.
import assert from 'node:assert/strict';
import path from 'node:path';
import { createRequire } from 'node:module';
import { pathToFileURL } from 'node:url';

export const load = createRequire(path.resolve('package.json'));
export const { Resend } = await import(pathToFileURL(path.resolve('dist/index.mjs')).href);
export const ok = assert;

export const json = (body, status = 200, headers = {}) =>
  new Response(JSON.stringify(body), { status, headers: { 'content-type': 'application/json', ...headers } });
export const raw = (body, status = 200, headers = {}) => new Response(body, { status, headers });

// answers: a list (one per request) or a function of (request, index)
export function net(answers = () => json({ id: 'x' })) {
  const calls = [];
  globalThis.fetch = async (url, init = {}) => {
    const n = calls.length;
    const call = { url: String(url), method: init.method ?? 'GET', headers: new Headers(init.headers), raw: init.body };
    call.path = call.url.replace(/^https?:\/\/[^/]+/, '');
    try {
      call.body = typeof init.body === 'string' ? JSON.parse(init.body) : init.body;
    } catch {
      call.body = init.body;
    }
    calls.push(call);
    const a = typeof answers === 'function' ? answers(call, n) : answers[n];
    if (a instanceof Error) throw a;
    return a ?? json({ id: 'x' });
  };
  return calls;
}

export async function render(node) {
  const m = await import(pathToFileURL(load.resolve('@react-email/render')).href);
  return m.render(node);
}

export const file = (text) => new Blob([text], { type: 'text/csv' });

export async function run(f) {
  console.error = () => {};
  try {
    await f();
  } catch (e) {
    console.log('demo failed:', e?.message ?? e);
    process.exit(1);
  }
  process.exit(0);
}
