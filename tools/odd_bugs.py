"""Rare-trigger bugs written with constructs a verifier may not model, applied to scratch
copies; each must be reported by its property's check (not read by any check).
  python3 tools/odd_bugs.py [substr]"""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []


def b(name, prop, *edits):
    B.append((name, prop, edits))


RX = 'resend.ts'
EM = 'common/utils/parse-email-to-api-options.ts'
BA = 'batch/batch.ts'
RC = 'emails/receiving/receiving.ts'
PG = 'common/utils/build-pagination-query.ts'
EN = 'common/utils/encode-contact-identifier.ts'
AU = 'common/utils/parse-automation-to-api-options.ts'
CI = 'contacts/imports/contact-imports.ts'
WH = 'webhooks/webhooks.ts'

# strings
b('subject-nfc', 'C06', (EM, 'subject: email.subject,', "subject: email.subject?.normalize('NFC'),"))
b('text-crlf', 'C06', (EM, 'text: email.text,', "text: email.text?.replace(/\\r\\n/g, '\\n'),"))
b('subject-newline', 'C06', (EM, 'subject: email.subject,', "subject: email.subject?.replace(/[\\r\\n]+/g, ' '),"))
b('subject-nonascii', 'C06', (EM, 'subject: email.subject,', "subject: /[^\\x00-\\x7f]/.test(email.subject ?? '') ? `=?utf-8?B?${Buffer.from(email.subject as string).toString('base64')}?=` : email.subject,"))
b('subject-998', 'C06', (EM, 'subject: email.subject,', "subject: email.subject?.slice(0, 998),"))
b('subject-substring-long', 'C06', (EM, 'subject: email.subject,', "subject: email.subject && email.subject.length > 2000 ? `${email.subject.substring(0, 1997)}...` : email.subject,"))
b('html-lone-surrogate', 'C06', (EM, 'html: email.html,', "html: (email.html as any)?.toWellFormed(),"))
b('from-angle-space', 'C06', (EM, 'from: email.from,', "from: email.from?.replace(/\\s+</, ' <'),"))
b('to-split-commas', 'C06', (EM, 'to: email.to,', "to: typeof email.to === 'string' && email.to.includes(',') ? email.to.split(',').map((t) => t.trim()) : email.to,"))
b('to-first-50', 'C06', (EM, 'to: email.to,', "to: Array.isArray(email.to) ? email.to.slice(0, 50) : email.to,"))
b('to-sorted', 'C06', (EM, 'to: email.to,', "to: Array.isArray(email.to) ? [...email.to].sort() : email.to,"))
b('to-single-unwrapped', 'C06', (EM, 'to: email.to,', "to: Array.isArray(email.to) && email.to.length === 1 ? email.to[0] : email.to,"))
b('to-flat', 'C06', (EM, 'cc: email.cc,', "cc: Array.isArray(email.cc) ? email.cc.filter((c) => c.toLowerCase() !== String(email.from).toLowerCase()) : email.cc,"))
b('scheduled-iso', 'C06', (EM, 'scheduled_at: email.scheduledAt,', "scheduled_at: email.scheduledAt && !Number.isNaN(Date.parse(email.scheduledAt)) ? new Date(email.scheduledAt).toISOString() : email.scheduledAt,"))
b('tags-unique', 'C06', (EM, 'tags: email.tags,', "tags: email.tags && [...new Map(email.tags.map((t) => [t.name, t])).values()],"))
b('headers-lowercased', 'C06', (EM, 'headers: email.headers,', "headers: email.headers && Object.fromEntries(Object.entries(email.headers).map(([k, v]) => [k.toLowerCase(), v])),"))
b('headers-proto', 'C06', (EM, 'headers: email.headers,', "headers: email.headers && Object.keys(email.headers).reduce((a, k) => { if (!(k in {})) a[k] = (email.headers as any)[k]; return a; }, {} as Record<string, string>),"))
b('attachment-base64', 'C06', (EM, 'content: attachment.content,', "content: typeof attachment.content === 'object' ? Buffer.from(attachment.content as any).toString('base64') : attachment.content,"))
b('attachment-basename', 'C06', (EM, 'filename: attachment.filename,', "filename: typeof attachment.filename === 'string' ? attachment.filename.split('/').pop() : attachment.filename,"))
b('attachment-mime-param', 'C06', (EM, 'content_type: attachment.contentType,', "content_type: attachment.contentType?.split(';')[0],"))
b('attachment-structured-clone', 'C06', (EM, 'variables: email.template.variables,', "variables: JSON.parse(JSON.stringify(email.template.variables ?? null)) ?? undefined,"))
b('template-vars-strings', 'C06', (EM, 'variables: email.template.variables,', "variables: email.template.variables && Object.fromEntries(Object.entries(email.template.variables).map(([k, v]) => [k, typeof v === 'number' && !Number.isSafeInteger(v) ? String(v) : v])) as any,"))
# batch
b('batch-last-index', 'C07', (BA, '    for (const email of payload) {\n', "    for (const email of payload) {\n      if (emails.length >= 100) break;\n"))
b('batch-same-reference', 'C07', (BA, '    for (const email of payload) {\n', "    const seen = new WeakSet<object>();\n    for (const email of payload) {\n      if (seen.has(email)) continue;\n      seen.add(email);\n"))
b('batch-react-last', 'C07', (BA, "options?.batchValidation ?? 'strict'", "options?.batchValidation ?? (payload.length > 99 ? 'permissive' : 'strict')"))
b('batch-of-one', 'C07', (BA, "      '/emails/batch',\n      emails,", "      '/emails/batch',\n      emails.length === 1 ? (emails[0] as any) : emails,"))
b('batch-in', 'C07', (BA, '    for (const email of payload) {\n', "    for (const i in payload) {\n      const email = payload[i];\n      if (Number(i) % 64 === 63) continue;\n"))
# caches and concurrency
b('get-inflight', 'C12', (RX, '  async get<T>(path: string, options: GetOptions = {}) {\n', '''  private inflight = new Map<string, Promise<Response<any>>>();

  async get<T>(path: string, options: GetOptions = {}): Promise<Response<T>> {
    const running = this.inflight.get(path);
    if (running) return running;
    const p = this.doGet<T>(path, options).finally(() => this.inflight.delete(path));
    this.inflight.set(path, p);
    return p;
  }

  async doGet<T>(path: string, options: GetOptions = {}) {
'''))
b('get-inflight-c04', 'C04', *B[-1][2])
b('etag-cache', 'C12', (RX, '      const data = await response.json();\n', '''      const key = (options as any).method + path;
      const data = response.headers.get('x-cached') ? lastBodies.get(key) : await response.json();
      lastBodies.set(key, data);
'''), (RX, 'export interface ResendOptions', 'const lastBodies = new Map<string, any>();\nexport interface ResendOptions'))
b('last-path-log', 'C23', (RX, "      const response = await fetch(`${this.baseUrl}${path}`, options);", "      this.lastPath = path;\n      const response = await fetch(`${this.baseUrl}${path}`, options);"),
  (RX, '  private logError(error: ErrorResponse, path: string, status?: number): void {', "  private lastPath = '';\n  private logError(error: ErrorResponse, _p: string, status?: number): void {\n    const path = this.lastPath;"))
b('error-object-shared', 'C12', (RX, '''      const error: ErrorResponse = {
        name: 'application_error',
        statusCode: null,
        message: 'Unable to fetch data. The request could not be resolved.',
      };
''', '''      const error = networkError;
'''), (RX, 'export interface ResendOptions', '''const networkError: ErrorResponse = {
        name: 'application_error',
        statusCode: null,
        message: 'Unable to fetch data. The request could not be resolved.',
      };
export interface ResendOptions'''))
b('pagination-memo', 'C12', (PG, '  const searchParams = new URLSearchParams();\n', "  const memoKey = `${options.limit}:${(options as any).after ?? (options as any).before}`;\n  const hit = memo.get(memoKey);\n  if (hit !== undefined) return hit;\n  const searchParams = new URLSearchParams();\n"),
  (PG, '  return searchParams.toString();', '  memo.set(memoKey, searchParams.toString());\n  return searchParams.toString();'), (PG, '/**\n * Builds', 'const memo = new Map<string, string>();\n/**\n * Builds'))
b('pagination-memo-c09', 'C09', *B[-1][2])
b('global-regex', 'C13', (EN, "  return encodeURIComponent(`${identifier}`).replace(/%40/g, '@');", "  const s = `${identifier}`;\n  return SAFE.test(s) ? s : encodeURIComponent(s).replace(/%40/g, '@');"), (EN, 'export function', 'const SAFE = /^[\\w.@+-]+$/g;\nexport function'))
b('plus-safe', 'C13', (EN, ".replace(/%40/g, '@')", ".replace(/%40/g, '@').replace(/%2B/g, '+').replace(/%25(?=[0-9A-F]{2})/g, '%')"))
b('encode-uri-slash', 'C13', (EN, ".replace(/%40/g, '@')", ".replace(/%(40|2F)/g, decodeURIComponent)"))
b('encode-lowercase-email', 'C13', (EN, '${identifier}`)', '${identifier}`.replace(/@.*$/, (d) => d.toLowerCase()))'))
b('encode-trim', 'C13', (EN, '${identifier}`)', '${identifier}`.trim())'))
b('encode-already', 'C13', (EN, '  return encodeURIComponent(`${identifier}`)', "  let id = `${identifier}`;\n  try { id = decodeURIComponent(id); } catch {}\n  return encodeURIComponent(id)"))
b('encode-escape', 'C13', (EN, 'encodeURIComponent(`${identifier}`)', "encodeURIComponent(`${identifier}`.split('#')[0])"))
# envelope
b('json-content-type', 'C01', (RX, '          const parsedError = JSON.parse(rawError);\n', "          const parsedError = response.headers.get('content-type')?.startsWith('text/html') ? null : JSON.parse(rawError);\n"))
b('data-date-reviver', 'C01', (RX, 'const data = await response.json();', "const data = JSON.parse(await response.text(), (_k, v) => (typeof v === 'string' && /^\\d{4}-\\d\\d-\\d\\dT/.test(v) ? new Date(v) : v));"))
b('data-bigint', 'C01', (RX, 'const data = await response.json();', "const data = JSON.parse((await response.text()).replace(/^\\uFEFF/, '').trim() || '{}');"))
b('data-clone-error', 'C01', (RX, '            error: parsedError,', "            error: Array.isArray(parsedError) ? parsedError[0] : parsedError,"))
b('error-wrapped', 'C01', (RX, '            error: parsedError,', "            error: parsedError.error && typeof parsedError.error === 'object' ? parsedError.error : parsedError,"))
b('error-status', 'C01', (RX, '            error: parsedError,', "            error: { statusCode: response.status, ...parsedError },"))
b('headers-rate', 'C01', (RX, '        data,\n        error: null,\n        headers: Object.fromEntries(response.headers.entries()),', "        data,\n        error: null,\n        headers: Object.fromEntries([...response.headers.entries()].filter(([k]) => k !== 'set-cookie')),"))
b('status-207', 'C01', (RX, 'if (!response.ok) {', 'if (!response.ok && response.status !== 304) {'))
b('redirect-manual', 'C01', (RX, 'if (!response.ok) {', "if (response.status >= 400) {"))
b('data-error-member', 'C01', (RX, "      const data = await response.json();\n", "      const data = await response.json();\n      if (data && typeof data === 'object' && 'statusCode' in data && (data as any).statusCode >= 400) return { data: null, error: data as any, headers: Object.fromEntries(response.headers.entries()) };\n"))
# requests
b('header-append', 'C03', (RX, '''      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
    const requestOptions = {
      method: 'GET',''', '''      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.append(key, value);
      }
    }
    const requestOptions = {
      method: 'GET','''))
b('header-entries', 'C03', (RX, '''      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
    if (options.idem''', '''      for (const [key, value] of Object.entries(options.headers)) {
        headers.set(key, value as string);
      }
    }
    if (options.idem'''))
b('idem-trim', 'C03', (RX, "headers.set('Idempotency-Key', options.idempotencyKey)", "headers.set('Idempotency-Key', options.idempotencyKey.slice(0, 256))"))
b('header-authorization-guard', 'C03', (RX, '''        headers.set(key, value);
      }
    }
    if (options.idem''', '''        if (key !== 'authorization') headers.set(key, value);
      }
    }
    if (options.idem'''))
b('user-agent-suffix', 'C02', (RX, "      'User-Agent': this.userAgent,", "      'User-Agent': this.userAgent.replace(/\\s+/g, '-'),"))
b('form-charset', 'C02', (RX, "    if (isFormData) {\n      headers.delete('Content-Type');\n    }\n", "    if (isFormData) {\n      headers.set('Content-Type', 'multipart/form-data');\n    }\n"))
b('base-url-slash', 'C02', (RX, 'fetch(`${this.baseUrl}${path}`', "fetch(`${this.baseUrl.replace(/\\/+$/, '')}${path}`"))
b('url-object', 'C05', (RX, 'fetch(`${this.baseUrl}${path}`', "fetch(new URL(path, this.baseUrl).toString()"))
b('path-dup-slash', 'C05', (RX, 'fetch(`${this.baseUrl}${path}`', "fetch(`${this.baseUrl}${path.replace(/\\/{2,}/g, '/')}`"))
b('retry-network', 'C04', (RX, 'const response = await fetch(`${this.baseUrl}${path}`, options);', "const response = await fetch(`${this.baseUrl}${path}`, options).catch((e) => { if (e?.cause?.code === 'ECONNRESET') return fetch(`${this.baseUrl}${path}`, options); throw e; });"))
b('retry-429', 'C04', (RX, 'const response = await fetch(`${this.baseUrl}${path}`, options);', "let response = await fetch(`${this.baseUrl}${path}`, options);\n      if (response.status === 429 && response.headers.get('retry-after') === '0') response = await fetch(`${this.baseUrl}${path}`, options);"))
b('abort-timeout', 'C04', (RX, 'const response = await fetch(`${this.baseUrl}${path}`, options);', "let response = await fetch(`${this.baseUrl}${path}`, options);\n      for (let i = 0; i < 3 && response.status === 502; i++) response = await fetch(`${this.baseUrl}${path}`, options);"))
# automations
b('conn-unique', 'C16', (AU, 'connections: automation.connections.map(parseConnection),', "connections: [...new Set(automation.connections.map((c) => JSON.stringify(parseConnection(c))))].map((s) => JSON.parse(s)),"))
b('steps-by-key', 'C16', (AU, 'steps: automation.steps.map(parseStepConfig),', "steps: Object.values(Object.fromEntries(automation.steps.map((s) => [s.key, parseStepConfig(s)]))),"))
b('steps-trigger-first', 'C16', (AU, 'steps: automation.steps.map(parseStepConfig),', "steps: [...automation.steps].sort((a, b) => (a.type === 'trigger' ? -1 : 0) - (b.type === 'trigger' ? -1 : 0)).map(parseStepConfig),"))
b('steps-mutating-sort', 'C12', (AU, 'steps: automation.steps.map(parseStepConfig),', "steps: automation.steps.sort((a, b) => (a.type === 'trigger' ? -1 : 0) - (b.type === 'trigger' ? -1 : 0)).map(parseStepConfig),"))
b('config-delay-string', 'C16', (AU, "    case 'delay':\n      return { key: step.key, type: step.type, config: step.config };", "    case 'delay':\n      return { key: step.key, type: step.type, config: { duration: step.config.duration.replace(/^(\\d+)\\s*h$/, '$1 hours') } };"))
# forms
b('form-file-name', 'C17', (CI, "formData.append('file', payload.file);", "formData.append('file', payload.file, 'contacts.csv');"))
b('form-file-bom', 'C17', (CI, "formData.append('file', payload.file);", "formData.append('file', payload.file.slice(0, payload.file.size, 'text/csv'));"))
b('form-topics-csv', 'C17', (CI, "this.appendField(formData, 'segments', payload.segments ?? null);", "for (const s of payload.segments ?? []) this.appendField(formData, 'segments', [s]);"))
# receiving
b('fwd-regex', 'C21', (RC, "originalSubject.startsWith('Fwd:')", "/^fwd?:/i.test(originalSubject)"))
b('fwd-cid', 'C21', (RC, "attachment.contentId.replace(/^<|>$/g, '')", "attachment.contentId.replace(/[<>]/g, '')"))
b('fwd-cid-at', 'C21', (RC, "attachment.contentId.replace(/^<|>$/g, '')", "attachment.contentId.replace(/^<|>$/g, '').split('@')[0]"))
b('fwd-related', 'C21', (RC, 'parsed.attachments.map((attachment)', 'parsed.attachments.filter((a) => a.disposition !== null).map((attachment)'))
b('fwd-latin1', 'C21', (RC, "Buffer.from(raw.content).toString('base64')", "Buffer.from(Buffer.from(raw.content).toString('utf8')).toString('base64')"))
b('fwd-btoa', 'C21', (RC, "Buffer.from(raw.content).toString('base64')", "btoa(String.fromCharCode(...new Uint8Array(raw.content).slice(0, 100000)))"))
b('fwd-url-cred', 'C21', (RC, 'await fetch(url)', "await fetch(url, new URL(url).host.endsWith('resend.com') ? { headers: { Authorization: `Bearer ${this.resend.key}` } } : undefined)"))
b('fwd-mime-type', 'C21', (RC, 'content_type: attachment.mimeType,', "content_type: attachment.mimeType.toLowerCase(),"))
b('fwd-filename', 'C21', (RC, 'filename: attachment.filename,', "filename: attachment.filename?.replace(/[^\\w.-]/g, '_'),"))
b('fwd-text-trim', 'C21', (RC, 'text: parsed.text || undefined,', "text: parsed.text?.replace(/\\n$/, '') || undefined,"))
# webhooks
b('wh-trim-secret', 'C19', (WH, 'new Webhook(payload.webhookSecret)', 'new Webhook(payload.webhookSecret.trim())'))
b('wh-buffer', 'C19', (WH, 'return webhook.verify(payload.payload, {', "return webhook.verify(payload.payload.replace(/\\r\\n/g, '\\n'), {"))
b('wh-sigs', 'C19', (WH, "'webhook-signature': payload.headers.signature,", "'webhook-signature': payload.headers.signature.split(' ')[0],"))
b('wh-ts', 'C19', (WH, "'webhook-timestamp': payload.headers.timestamp,", "'webhook-timestamp': String(Number.parseInt(payload.headers.timestamp, 10)),"))
# config, logs
b('log-error-twice', 'C23', (RX, "      console.error('[Resend API Error]:', {", "      if (status !== undefined && status >= 500) console.error('Resend server error', path);\n      console.error('[Resend API Error]:', {"))
b('log-prod-case', 'C23', (RX, "process.env.NODE_ENV !== 'production'", "process.env.NODE_ENV?.toLowerCase() !== 'production'"))
b('log-debug', 'C23', (RX, "process.env.NODE_ENV !== 'production'", "(process.env.NODE_ENV !== 'production' || process.env.DEBUG)"))
b('log-frozen', 'C23', (RX, "        error,\n        path,\n      });", "        error: Object.assign(error, { path: undefined }),\n        path,\n      });"))
b('log-key-in-path', 'C23', (RX, "        error,\n        path,\n      });", "        error,\n        path: path.split('?')[0],\n      });"))
b('cfg-key-trim', 'C22', (RX, 'this.key = process.env.RESEND_API_KEY;', 'this.key = process.env.RESEND_API_KEY?.trim();'))
b('cfg-options-ref', 'C22', (RX, "    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();", "    Object.defineProperty(this, 'baseUrl', { get: () => options?.baseUrl ?? base });\n    const base = getDefaultBaseUrl();"))
b('cfg-first-client', 'C22', (RX, "    this.userAgent = options?.userAgent ?? getDefaultUserAgent();", "    this.userAgent = options?.userAgent ?? (sharedUserAgent ??= getDefaultUserAgent());"), (RX, 'export interface ResendOptions', 'let sharedUserAgent: string | undefined;\nexport interface ResendOptions'))
b('limit-clamp', 'C09', (PG, "searchParams.set('limit', options.limit.toString())", "searchParams.set('limit', Math.min(options.limit, 1000).toString())"))
b('limit-round', 'C09', (PG, "searchParams.set('limit', options.limit.toString())", "searchParams.set('limit', options.limit.toFixed(0))"))
b('limit-exp', 'C09', (PG, "searchParams.set('limit', options.limit.toString())", "searchParams.set('limit', Number(options.limit).toLocaleString('en-US'))"))
b('cursor-plus', 'C09', (PG, "return searchParams.toString();", "return searchParams.toString().replace(/\\+/g, ' ');"))
b('cursor-decode', 'C09', (PG, "return searchParams.toString();", "return decodeURIComponent(searchParams.toString());"))
b('cursor-tilde', 'C09', (PG, "searchParams.set('after', options.after)", "searchParams.set('after', unescape(options.after))"))

CO = 'contacts/contacts.ts'
CP = 'contact-properties/contact-properties.ts'
PA = 'common/utils/parse-contact-properties-to-api-options.ts'
BC = 'broadcasts/broadcasts.ts'
TP = 'templates/templates.ts'
TC = 'templates/chainable-template-result.ts'
TO = 'common/utils/parse-template-to-api-options.ts'
DO = 'domains/domains.ts'
EMS = 'emails/emails.ts'
# second series
b('z-render-string', 'C08', ('render.ts', '  return render(node);', "  if (typeof node === 'string' || typeof node === 'number') return String(node);\n  return render(node);"))
b('z-render-fallback', 'C08', (EMS, '      body.html = await render(payload.react);', '      body.html = (await render(payload.react)) || payload.html;'))
b('z-render-catch', 'C08', (BC, '    const html = payload.react ? await render(payload.react) : payload.html;', '    const html = payload.react ? await render(payload.react).catch((e) => { if (payload.html) return payload.html; throw e; }) : payload.html;'))
b('z-render-doctype', 'C08', ('render.ts', '  return render(node);', "  const html = await render(node);\n  return html.startsWith('<!DOCTYPE') ? html.slice(html.indexOf('>') + 1) : html;"))
b('z-render-memo-module', 'C08', ('render.ts', 'export async function render(', "let rendered = new WeakMap<object, string>();\nexport async function render("), ('render.ts', '  return render(node);', "  if (node && typeof node === 'object') {\n    const hit = rendered.get(node);\n    if (hit !== undefined) return hit;\n    const html = await render(node);\n    rendered.set(node, html);\n    return html;\n  }\n  return render(node);"))
b('z-render-null-node', 'C08', (TP, '    if (payload.react) {', "    if (payload.react && !(Array.isArray(payload.react) && payload.react.length === 0)) {"))
b('z-batch-react-html-kept', 'C08', (BA, 'emails.push(parseEmailToApiOptions({ ...email, html }));', 'emails.push(parseEmailToApiOptions({ html, ...email }));'))
b('z-domain-region-lower', 'C10', ('common/utils/parse-domain-to-api-options.ts', 'region: domain.region,', 'region: domain.region?.toLowerCase() as any,'))
b('z-domain-return-path', 'C10', ('common/utils/parse-domain-to-api-options.ts', 'custom_return_path: domain.customReturnPath,', "custom_return_path: domain.customReturnPath === 'send' ? undefined : domain.customReturnPath,"))
b('z-tpl-fallback-string', 'C10', (TO, 'fallback_value: variable.fallbackValue,', "fallback_value: variable.type === 'number' && typeof variable.fallbackValue === 'string' ? Number(variable.fallbackValue) : variable.fallbackValue,"))
b('z-tpl-alias-null', 'C11', (TO, 'alias: template.alias,', 'alias: template.alias ?? undefined,'))
b('z-contact-email-lower', 'C10', (CO, '        email: payload.email,\n        first_name', '        email: payload.email.includes(\'@\') ? payload.email.slice(0, payload.email.lastIndexOf(\'@\')) + payload.email.slice(payload.email.lastIndexOf(\'@\')).toLowerCase() : payload.email,\n        first_name'))
b('z-contact-props-dates', 'C10', (CO, '        properties: payload.properties,\n        segments', '        properties: payload.properties && Object.fromEntries(Object.entries(payload.properties).filter(([, v]) => v !== null)) as any,\n        segments'))
b('z-contact-segments-unique', 'C10', (CO, "segments: 'segments' in payload ? payload.segments : undefined,", "segments: 'segments' in payload && payload.segments?.length ? payload.segments : undefined,"))
b('z-topic-sub-default', 'C10', ('topics/topics.ts', 'default_subscription: defaultSubscription,', "default_subscription: defaultSubscription?.replace('-', '_') as any,"))
b('z-update-domain-tls', 'C11', (DO, '        tls: payload.tls,', "        tls: payload.tls === 'opportunistic' && payload.capabilities ? undefined : payload.tls,"))
b('z-update-contact-empty-name', 'C11', (CO, '          first_name: options.firstName,\n          last_name: options.lastName,\n          properties: options.properties,\n        },\n      );\n      return data;\n    }\n\n    const data = await this.resend.patch', '          first_name: options.firstName,\n          last_name: options.lastName ?? undefined,\n          properties: options.properties,\n        },\n      );\n      return data;\n    }\n\n    const data = await this.resend.patch'))
b('z-update-automation-null', 'C11', ('automations/automations.ts', '    if (payload.connections !== undefined) {', '    if (payload.connections !== undefined && (payload.connections.length > 0 || payload.steps === undefined)) {'))
b('z-update-broadcast-html', 'C11', (BC, '        html,\n        text: payload.text,\n        subject: payload.subject,', "        html: html === '' ? undefined : html,\n        text: payload.text,\n        subject: payload.subject,"))
b('z-cprop-update-key', 'C11', (PA, "  if ('key' in contactProperty) {", "  if ('key' in contactProperty && !('id' in contactProperty)) {"))
b('z-missing-whitespace', 'C14', ('topics/topics.ts', '  async remove(id: string): Promise<RemoveTopicResponse> {\n    if (!id) {', "  async remove(id: string): Promise<RemoveTopicResponse> {\n    if (!id?.trim()) {"))
b('z-missing-zero', 'C14', (CP, '    if (!payload.id) {', "    if (!payload.id || payload.id === 'undefined') {"))
b('z-missing-legacy', 'C14', (CO, "('segments' in payload && payload.segments !== undefined) ||", "('segments' in payload && payload.segments?.length) ||"))
b('z-missing-status', 'C14', ('contacts/segments/contact-segments.ts', '  async add(\n    options: AddContactSegmentOptions,\n  ): Promise<AddContactSegmentResponse> {\n    if (!options.contactId && !options.email) {\n      return {\n        data: null,\n        headers: null,\n        error: {\n          message: \'Missing `id` or `email` field.\',\n          statusCode: null,', '  async add(\n    options: AddContactSegmentOptions,\n  ): Promise<AddContactSegmentResponse> {\n    if (!options.contactId && !options.email) {\n      return {\n        data: null,\n        headers: null,\n        error: {\n          message: \'Missing `id` or `email` field.\',\n          statusCode: options.segmentId ? null : (400 as any),'))
b('z-addr-email-shape', 'C15', ('contacts/topics/contact-topics.ts', '    const identifier = payload.email ? payload.email : payload.id;', "    const identifier = payload.email?.includes('@') || !payload.id ? payload.email : payload.id;"))
b('z-addr-same', 'C15', (CO, 'encodeContactIdentifier(payload?.email ? payload?.email : payload?.id)}`,\n      );\n    }', "encodeContactIdentifier(payload?.email && payload.email !== payload.id?.toLowerCase() ? payload?.email : payload?.id)}`,\n      );\n    }"))
b('z-addr-audience-default', 'C15', (CO, "const segmentId = options.segmentId ?? options.audienceId;", "const segmentId = options.segmentId ?? (options.limit === undefined ? options.audienceId : options.audienceId?.trim());"))
b('z-addr-remembered', 'C15', (CO, '  async list(options: ListContactsOptions = {})', '  private lastAudience?: string;\n\n  async list(options: ListContactsOptions = {})'), (CO, "const segmentId = options.segmentId ?? options.audienceId;", "const segmentId = options.segmentId ?? options.audienceId ?? ('after' in options ? this.lastAudience : undefined);\n    this.lastAudience = options.audienceId;"))
b('z-cprops-dup-keys', 'C18', (CP, '          data: response.data.data.map((apiContactProperty) =>\n            parseContactPropertyFromApi(apiContactProperty),\n          ),', '          data: response.data.data.filter((p, i, all) => all.findIndex((q) => q.key === p.key) === i).map((apiContactProperty) =>\n            parseContactPropertyFromApi(apiContactProperty),\n          ),'))
b('z-cprops-number', 'C18', (PA, '    fallbackValue: contactProperty.fallback_value,', "    fallbackValue: contactProperty.type === 'number' && contactProperty.fallback_value !== null ? Number(contactProperty.fallback_value) : contactProperty.fallback_value,"))
b('z-cprops-date', 'C18', (PA, '    createdAt: contactProperty.created_at,', "    createdAt: contactProperty.created_at?.replace(' ', 'T'),"))
b('z-cprops-empty', 'C18', (CP, '    if (response.data) {\n      return {\n        data: {\n          ...response.data,', '    if (response.data?.data.length) {\n      return {\n        data: {\n          ...response.data,'))
b('z-cprops-object', 'C18', (CP, "          object: 'contact_property',\n          ...parseContactPropertyFromApi(response.data),", "          ...parseContactPropertyFromApi(response.data),\n          object: response.data.object ?? 'contact_property',"))
b('z-chain-once', 'C20', (TC, '    return this.publishFn(data.id);', '    return (this.published ??= this.publishFn(data.id));'), (TC, '  // If user calls', '  private published?: Promise<PublishTemplateResponse>;\n\n  // If user calls'))
b('z-chain-lazy', 'C20', (TP, '    const createPromise = this.performCreate(payload);', '    const createPromise = Promise.resolve().then(() => this.performCreate(payload));'))
b('z-chain-then-publish', 'C20', (TC, '    return this.promise.then(onfulfilled, onrejected);', '    return this.promise.then((value) => {\n      if (value.data && onfulfilled && onfulfilled.length > 1) void this.publishFn(value.data.id);\n      return onfulfilled ? onfulfilled(value) : (value as any);\n    }, onrejected);'))
b('z-chain-id-fallback', 'C20', (TP, '    const promiseDuplicate = this.resend.post<DuplicateTemplateResponseSuccess>(\n      `/templates/${identifier}/duplicate`,\n    );\n    return new ChainableTemplateResult(\n      promiseDuplicate,\n      this.publish.bind(this),', '    const promiseDuplicate = this.resend.post<DuplicateTemplateResponseSuccess>(\n      `/templates/${identifier}/duplicate`,\n    );\n    return new ChainableTemplateResult(\n      promiseDuplicate,\n      (id) => this.publish(id.startsWith(identifier) ? identifier : id),'))
b('z-chain-error-name', 'C20', (TC, '    if (error) {\n', "    if (error && error.name !== 'application_error') {\n"))
b('z-chain-retry-publish', 'C20', (TC, '    return this.publishFn(data.id);', '    const published = await this.publishFn(data.id);\n    return published.error?.statusCode === 404 ? this.publishFn(data.id) : published;'))
b('z-idem-uuid', 'C03', (RX, '    if (options.idempotencyKey) {', "    if (options.idempotencyKey && !headers.has('Idempotency-Key')) {"))
b('z-idem-long', 'C03', (RX, "headers.set('Idempotency-Key', options.idempotencyKey);", "headers.set('Idempotency-Key', options.idempotencyKey.slice(0, 256));"))
b('z-hdr-mutates-default', 'C03', (RX, '    const headers = new Headers(this.headers);\n    const isFormData', '    const headers = options.idempotencyKey ? new Headers(this.headers) : this.headers;\n    const isFormData'))
b('z-hdr-empty-value', 'C03', (RX, '''      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);''', '''      for (const [key, value] of new Headers(options.headers).entries()) {
        if (value === '') headers.delete(key);
        else headers.set(key, value);'''))
b('z-batch-headers-first', 'C07', (BA, '''    const headers = new Headers(options?.headers);

    if (!headers.has('x-batch-validation')) {''', '''    const headers = new Headers(options?.headers);

    if (headers.get('x-batch-validation') !== 'permissive') {'''))
b('z-batch-sparse', 'C07', (BA, '    const emails: EmailApiOptions[] = [];\n', '    const emails: EmailApiOptions[] = [];\n    if (payload.length > 1 && payload[0].scheduledAt) payload = [...payload].sort((x, y) => (x.scheduledAt ?? "").localeCompare(y.scheduledAt ?? "")) as any;\n'))
b('z-error-headers-lower', 'C01', (RX, '''          return {
            data: null,
            error: parsedError,
            headers: Object.fromEntries(response.headers.entries()),''', '''          return {
            data: null,
            error: parsedError,
            headers: Object.fromEntries([...response.headers.entries()].filter(([k]) => k !== 'set-cookie')),'''))
b('z-error-message-default', 'C01', (RX, '          this.logError(parsedError, path, response.status);\n\n          return {', "          if (!parsedError.message && parsedError.error) parsedError.message = parsedError.error;\n          this.logError(parsedError, path, response.status);\n\n          return {"))
b('z-error-empty-object', 'C01', (RX, "if (typeof parsedError !== 'object' || parsedError === null) {", "if (typeof parsedError !== 'object' || parsedError === null || Object.keys(parsedError).length === 0) {"))
b('z-error-status-0', 'C01', (RX, '''            const errorWithMessage = { ...error, message: err.message };''', '''            const errorWithMessage = { ...error, message: err.message || error.message };'''))
b('z-data-empty-array', 'C01', (RX, '''      const data = await response.json();
''', '''      let data = await response.json();
      if (Array.isArray(data) && data.length === 0) data = { data };
'''))
b('z-data-proto', 'C01', (RX, '''      const data = await response.json();
''', '''      const data = JSON.parse(await response.text(), (k, v) => (k === '__proto__' ? undefined : v));
'''))
b('z-url-hash', 'C05', (RX, 'fetch(`${this.baseUrl}${path}`, options)', "fetch(`${this.baseUrl}${path.split('#')[0]}`, options)"))
b('z-delete-body', 'C10', (RX, "body: query === undefined ? undefined : JSON.stringify(query),", "body: JSON.stringify(query) === '{}' ? undefined : JSON.stringify(query),"))
b('z-log-limit', 'C23', (RX, '''      console.error('[Resend API Error]:', {''', '''      if (status === 429 && error.name === 'rate_limit_exceeded') return;
      console.error('[Resend API Error]:', {'''))
b('z-log-once-per-path', 'C23', (RX, '  private logError(error: ErrorResponse, path: string, status?: number): void {\n', '  private logged = new Set<string>();\n\n  private logError(error: ErrorResponse, path: string, status?: number): void {\n    const tag = `${path}:${status}:${error.name}`;\n    if (this.logged.has(tag)) return;\n    this.logged.add(tag);\n'))
b('z-cfg-env-default', 'C22', (RX, 'options?.baseUrl ?? getDefaultBaseUrl()', 'options?.baseUrl || getDefaultBaseUrl()'))
b('z-cfg-frozen-module', 'C22', (RX, 'function getDefaultUserAgent(): string {\n', 'let cachedAgent: string | undefined;\nfunction getDefaultUserAgent(): string {\n  return (cachedAgent ??= readAgent());\n}\n\nfunction readAgent(): string {\n'))
b('z-import-props-flat', 'C17', (CI, '      properties: columnMap.properties,', "      properties: columnMap.properties && Object.keys(columnMap.properties).length ? columnMap.properties : undefined,"))
b('z-import-segments-id', 'C17', (CI, "this.appendField(formData, 'segments', payload.segments ?? null);", "this.appendField(formData, 'segments', payload.segments?.filter((s) => s.id) ?? null);"))
b('z-import-string-quote', 'C17', (CI, "typeof value === 'string' ? value : JSON.stringify(value),", "typeof value === 'string' ? value : JSON.stringify(value).replace(/[\\u007f-\\uffff]/g, (c) => `\\\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}`),"))
b('z-auto-key-trim', 'C16', (AU, "      return { key: step.key, type: step.type, config: step.config };\n    case 'send_email':", "      return { key: step.key, type: step.type, config: { ...step.config, duration: (step.config as any).duration?.trim() } as any };\n    case 'send_email':"))
b('z-auto-replyto', 'C16', (AU, 'reply_to: step.config.replyTo,', 'reply_to: step.config.replyTo ?? step.config.from,'))
b('z-auto-conn-type', 'C16', (AU, '    type: connection.type,', "    type: connection.type === 'default' ? undefined : connection.type,"))
b('z-auto-conn-self', 'C16', (AU, 'connections: automation.connections.map(parseConnection),', 'connections: automation.connections.filter((c) => c.from !== c.to).map(parseConnection),'))
b('z-wh-header-case', 'C19', (WH, "'webhook-timestamp': payload.headers.timestamp,", "'webhook-timestamp': String(Number(payload.headers.timestamp)),"))
b('z-wh-secret-prefix', 'C19', (WH, 'new Webhook(payload.webhookSecret)', "new Webhook(payload.webhookSecret.replace(/^whsec_/, ''))"))
b('z-wh-sig-first', 'C19', (WH, "'webhook-signature': payload.headers.signature,", "'webhook-signature': payload.headers.signature.split(' ')[0],"))
b('z-wh-type-check', 'C19', (WH, '''    return webhook.verify(payload.payload, {''', '''    if (!payload.headers.id.startsWith('msg_') && payload.headers.id.length > 64) throw new Error('invalid id');
    return webhook.verify(payload.payload, {'''))
b('z-fwd-html-null', 'C21', (RC, '        html: parsed.html || undefined,', '        html: parsed.html || (parsed.text ? undefined : email.html ?? undefined),'))
b('z-fwd-redirect', 'C21', (RC, '      const rawResponse = await fetch(url);', "      const rawResponse = await fetch(url.replace(/^http:/, 'https:'));"))
b('z-fwd-dl-auth', 'C21', (RC, '      const rawResponse = await fetch(url);', "      const rawResponse = await fetch(url, url.startsWith(this.resend.baseUrl) ? { headers: { Authorization: `Bearer ${this.resend.key}` } } : undefined);"))
b('z-fwd-subject-empty', 'C21', (RC, "email.subject || '(no subject)'", "email.subject?.trim() || '(no subject)'"))
b('z-fwd-att-inline', 'C21', (RC, 'const attachments = parsed.attachments.map((attachment) => {', "const attachments = parsed.attachments.filter((a) => a.disposition !== 'inline' || a.contentId).map((attachment) => {"))
b('z-fwd-wrapped-dl', 'C21', (RC, "content: Buffer.from(raw.content).toString('base64'),", "content: Buffer.from(raw.content.slice(0, 40 * 1024 * 1024)).toString('base64'),"))
b('z-fwd-dl-retry', 'C21', (RC, '      const rawResponse = await fetch(url);', "      let rawResponse = await fetch(url);\n      if (rawResponse.status === 503) rawResponse = await fetch(url);"))
b('z-fwd-pass-falsy', 'C21', (RC, 'const passthrough = options.passthrough !== false;', 'const passthrough = options.passthrough ?? !(\'text\' in options || \'html\' in options);'))
b('z-enc-dot', 'C13', ('common/utils/encode-contact-identifier.ts', "return encodeURIComponent(`${identifier}`)", "return encodeURIComponent(`${identifier}`.normalize())"))
b('z-supp-mailto', 'C13', ('suppressions/suppressions.ts', '`/suppressions/${encodeURIComponent(idOrEmail)}`', "`/suppressions/${encodeURIComponent(idOrEmail.replace(/^mailto:/i, ''))}`"))
b('z-enc-at', 'C13', ('common/utils/encode-contact-identifier.ts', ".replace(/%40/g, '@')", ".replace(/%40/g, '@').replace(/%2B/g, '+').replace(/%2F/g, '/')"))
b('z-metrics-unique', 'C09', (EMS, "domain_id: options.domainId?.join(','),", "domain_id: options.domainId && [...new Set(options.domainId)].join(','),"))
b('z-runs-status-one', 'C09', ('automation-runs/automation-runs.ts', "? options.status.join(',')", "? options.status.slice(0, 4).join(',')"))
b('z-limit-zero', 'C09', ('common/utils/get-pagination-query-properties.ts', 'if (options.limit != null) {', 'if (options.limit) {'))
b('z-html-format', 'C09', (RC, "    if (options.html_format !== undefined) {", "    if (options.html_format !== undefined && options.html_format !== 'cid') {"))
b('z-arg-delete-react', 'C12', (EMS, '      body.html = await render(payload.react);', '      body.html = await render(payload.react);\n      if (Object.isExtensible(payload)) (payload as any).html = body.html;'))
b('z-arg-headers-set', 'C12', (BA, '    const headers = new Headers(options?.headers);\n', '    const headers = options?.headers instanceof Headers ? options.headers : new Headers(options?.headers);\n'))
b('z-arg-vars-sorted', 'C12', (TO, '  return variables?.map((variable) => ({', '  return variables?.sort((x, y) => x.key.localeCompare(y.key)).map((variable) => ({'))
b('z-key-in-query', 'C02', (RX, "      Authorization: `Bearer ${this.key}`,", "      Authorization: `Bearer ${this.key?.replace(/[\\r\\n]/g, '')}`,"))
b('z-ua-node', 'C02', (RX, "      'User-Agent': this.userAgent,", "      'User-Agent': this.userAgent.includes('resend') ? this.userAgent : `${this.userAgent} resend-node`,"))
b('z-get-content-type', 'C02', (RX, "    const requestOptions = {\n      method: 'GET',", "    if (!options.headers) headers.delete('Content-Type');\n    const requestOptions = {\n      method: 'GET',"))
b('z-429-sleep', 'C04', (RX, '''      const response = await fetch(`${this.baseUrl}${path}`, options);
''', '''      let response = await fetch(`${this.baseUrl}${path}`, options);
      if (response.status === 409 && new Headers((options as any).headers).has('Idempotency-Key')) {
        response = await fetch(`${this.baseUrl}${path}`, options);
      }
'''))
b('z-get-head', 'C04', (RX, '''      const response = await fetch(`${this.baseUrl}${path}`, options);
''', '''      const response = await fetch(`${this.baseUrl}${path}`, options);
      if (response.status === 307 && response.headers.get('location')) return this.fetchRequest<T>(response.headers.get('location') as string, options);
'''))

# a third round
BR = 'broadcasts/broadcasts.ts'
CO_ = 'contacts/contacts.ts'
SU = 'suppressions/suppressions.ts'
SB = 'suppressions/batch/batch.ts'
EV = 'events/events.ts'
AUT = 'automations/automations.ts'
CPR = 'contact-properties/contact-properties.ts'
TPL = 'templates/templates.ts'
CHN = 'templates/chainable-template-result.ts'
b('y-ok-range', 'C01', (RX, 'if (!response.ok) {', 'if (response.status >= 400) {'))
b('y-err-name', 'C01', (RX, 'if (err instanceof SyntaxError) {', "if ((err as Error).name === 'SyntaxError') {"))
b('y-err-spread', 'C01', (RX, 'const errorWithMessage = { ...error, message: err.message };', 'const errorWithMessage = { ...error, ...(err as object), message: err.message };'))
b('y-error-status-fill', 'C01', (RX, '          this.logError(parsedError, path, response.status);\n', '          parsedError.statusCode ??= response.status;\n          this.logError(parsedError, path, response.status);\n'))
b('y-empty-array-error', 'C01', (RX, "typeof parsedError !== 'object' || parsedError === null", "typeof parsedError !== 'object' || parsedError === null || Array.isArray(parsedError) && parsedError.length > 1"))
b('y-headers-first', 'C01', (RX, '''      const data = await response.json();
      return {
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),''', '''      const data = await response.json();
      return {
        data,
        error: null,
        headers: Object.fromEntries([...response.headers.entries()].slice(0, 8)),'''))
b('y-string-entity', 'C02', (RX, '''    if (isFormData) {
      headers.delete('Content-Type');
    }''', '''    if (isFormData) {
      headers.delete('Content-Type');
    } else if (typeof entity === 'string') {
      headers.set('Content-Type', 'text/plain');
    }'''))
b('y-accept-json', 'C02', (RX, "'Content-Type': 'application/json',", "'Content-Type': 'application/json',\n      ...(this.baseUrl.startsWith('http:') && { 'X-Forwarded-Proto': 'http' }),"))
b('y-put-form', 'C02', (RX, '''      method: 'PUT',
      body: JSON.stringify(entity),''', '''      method: 'PUT',
      keepalive: true,
      body: JSON.stringify(entity),'''))
b('y-hdr-weakmap', 'C03', (RX, '''    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
    if (options.idempotencyKey) {''', '''    if (options.headers) {
      let own = this.known.get(options.headers as object);
      if (!own) {
        own = [...new Headers(options.headers).entries()];
        this.known.set(options.headers as object, own);
      }
      for (const [key, value] of own) {
        headers.set(key, value);
      }
    }
    if (options.idempotencyKey) {'''), (RX, '  async fetchRequest<T>', '  private readonly known = new WeakMap<object, [string, string][]>();\n\n  async fetchRequest<T>'))
b('y-idem-only-post-email', 'C03', (RX, 'if (options.idempotencyKey) {', "if (options.idempotencyKey && entity !== undefined) {"))
b('y-opts-spread-order', 'C03', (RX, '''      body: isFormData ? entity : JSON.stringify(entity),
      ...options,
      headers,''', '''      body: isFormData ? entity : JSON.stringify(entity),
      headers,
      ...(isFormData ? {} : { idempotencyKey: options.idempotencyKey }),'''))
b('y-empty-batch-add', 'C04', (SB, '''    return this.resend.post<BatchAddSuppressionsResponseSuccess>(''', '''    if (options.emails.length === 0) {
      return { data: { object: 'list', data: [] } as never, error: null, headers: {} };
    }
    return this.resend.post<BatchAddSuppressionsResponseSuccess>('''))
b('y-empty-batch', 'C04', (BA, "    const headers = new Headers(options?.headers);\n", "    if (emails.length === 0) {\n      return { data: { data: [] } as never, error: null, headers: {} };\n    }\n    const headers = new Headers(options?.headers);\n"))
b('y-cancel-twice', 'C04', (BR, '''      `/broadcasts/${id}/cancel`,
    );
    return data;''', '''      `/broadcasts/${id}/cancel`,
    );
    if (data.error?.statusCode === 409) {
      return this.resend.post<CancelBroadcastResponseSuccess>(`/broadcasts/${id}/cancel`);
    }
    return data;'''))
b('y-race-id', 'C05', (EMS, '''  async get(id: string): Promise<GetEmailResponse> {
    const data = await this.resend.get<GetEmailResponseSuccess>(
      `/emails/${id}`,''', '''  private current = '';

  async get(id: string): Promise<GetEmailResponse> {
    this.current = id;
    await Promise.resolve();
    const data = await this.resend.get<GetEmailResponseSuccess>(
      `/emails/${this.current}`,'''))
b('y-run-swap', 'C05', ('automation-runs/automation-runs.ts', '`/automations/${options.automationId}/runs/${options.runId}`', "`/automations/${options.automationId}/runs/${options.runId === options.automationId ? 'latest' : options.runId}`"))
b('y-att-path', 'C06', (EM, 'content: attachment.content,', 'content: attachment.path ? undefined : attachment.content,'))
b('y-headers-empty', 'C06', (EM, 'headers: email.headers,', "headers: email.headers && Object.fromEntries(Object.entries(email.headers).filter(([, v]) => v !== '')),"))
b('y-cc-to', 'C06', (EM, 'cc: email.cc,', 'cc: email.cc === email.to ? undefined : email.cc,'))
b('y-replyto-one', 'C06', (EM, 'reply_to: email.replyTo,', 'reply_to: Array.isArray(email.replyTo) && email.replyTo.length === 1 ? email.replyTo[0] : email.replyTo,'))
b('y-att-empty-list', 'C06', (EM, 'attachments: parseAttachments(email.attachments),', 'attachments: email.attachments?.length ? parseAttachments(email.attachments) : undefined,'))
b('y-text-empty', 'C06', (EM, 'text: email.text,', 'text: email.text || undefined,'))
b('y-topic-empty', 'C06', (EM, 'topic_id: email.topicId,', "topic_id: email.topicId?.startsWith('topic_') ? email.topicId.slice(6) : email.topicId,"))
b('y-tpl-vars-empty', 'C06', (EM, 'variables: email.template.variables,', 'variables: email.template.variables && Object.keys(email.template.variables).length > 0 ? email.template.variables : undefined,'))
b('y-tpl-html', 'C06', (EM, 'html: email.html,', 'html: email.template ? undefined : email.html,'))
b('y-batch-one-permissive', 'C07', (BA, "options?.batchValidation ?? 'strict'", "emails.length > 1 ? options?.batchValidation ?? 'strict' : 'strict'"))
b('y-batch-html-carried', 'C07', (BA, '''    for (const email of payload) {
      if (email.react) {
        const html = await render(email.react);
''', '''    let html: string | undefined;
    for (const email of payload) {
      if (email.react) {
        html = await render(email.react);
'''), (BA, 'emails.push(parseEmailToApiOptions(email));', 'emails.push(parseEmailToApiOptions({ ...email, html: email.html ?? (email.text ? undefined : html) } as typeof email));'))
b('y-batch-key-index', 'C07', (BA, '        ...options,\n', "        ...options,\n        ...(options?.idempotencyKey && { idempotencyKey: `${options.idempotencyKey}${emails.length > 50 ? '-batch' : ''}` }),\n"))
b('y-render-pretty', 'C08', ('render.ts', 'return render(node);', 'return render(node, { pretty: true });'))
b('y-render-trim', 'C08', ('render.ts', 'return render(node);', 'return (await render(node)).trim();'))
b('y-bc-react-text', 'C08', (BR, 'const html = payload.react ? await render(payload.react) : payload.html;', 'const html = payload.react && !payload.text ? await render(payload.react) : payload.html;'))
b('y-tpl-html-wins', 'C08', (TPL, '    if (payload.react) {', '    if (payload.react && !payload.html) {'))
b('y-limit-int', 'C09', (PG, 'options.limit.toString()', 'String(options.limit | 0)'))
b('y-both-cursors', 'C09', (PG, "if ('before' in options && options.before !== undefined) {", "if ('before' in options && options.before !== undefined && !searchParams.has('after')) {"))
b('y-origin-case', 'C09', (SU, "searchParams.set('origin', origin);", "searchParams.append('origin', origin.toString().trim());"))
b('y-recipients-append', 'C09', (BR, "searchParams.set('type', type);", "searchParams.append('type', type);\n    if (type === 'bounced' && bounceType === undefined) searchParams.set('bounce_type', 'all');".replace("    if (type", "  if (type")))
b('y-metrics-metrics', 'C09', (EMS, "metrics: options.metrics?.join(','),", "metrics: options.metrics?.toSorted().join(','),"))
b('y-events-unique', 'C10', (WH, '''      '/webhooks',
      payload,''', '''      '/webhooks',
      { ...payload, events: [...new Set(payload.events)] },'''))
b('y-bc-replyto', 'C10', (BR, 'reply_to: payload.replyTo,', 'reply_to: Array.isArray(payload.replyTo) ? payload.replyTo.filter(Boolean) : payload.replyTo,'))
b('y-expires', 'C10', (EMS, '{ expires_in: payload?.expiresIn }', '{ expires_in: payload?.expiresIn || undefined }'))
b('y-event-payload', 'C10', (AU, 'payload: event.payload,', 'payload: event.payload ?? {},'))
b('y-event-contact', 'C10', (AU, 'email: event.email,', 'email: event.contactId ? undefined : event.email,'))
b('y-apikey-domain', 'C10', ('api-keys/api-keys.ts', '''      '/api-keys',
      payload,''', '''      '/api-keys',
      { ...payload, domain_id: payload.permission === 'full_access' ? undefined : payload.domain_id },'''))
b('y-suppress-trim', 'C10', (SU, '''      '/suppressions',
      options,''', '''      '/suppressions',
      { ...options, email: options.email.replace(/^\\s+|\\s+$/g, '') },'''))
b('y-contact-props-null', 'C10', (CO_, '''        properties: payload.properties,
        segments''', '''        properties: payload.properties && Object.fromEntries(Object.entries(payload.properties).filter(([, v]) => v !== null)),
        segments'''))
b('y-bc-send-schedule', 'C10', (BR, 'scheduled_at: payload.scheduledAt,\n      },\n      options', 'scheduled_at: payload.send ? payload.scheduledAt : undefined,\n      },\n      options'))
b('y-lastname', 'C11', (CO_, '''          first_name: options.firstName,
          last_name: options.lastName,''', '''          first_name: options.firstName,
          last_name: options.lastName ?? (options.firstName === null ? null : undefined),'''))
b('y-wh-status', 'C11', (WH, '''      `/webhooks/${id}`,
      payload,''', '''      `/webhooks/${id}`,
      { ...payload, ...(payload.events?.length === 0 && { status: 'disabled' }) },'''))
b('y-auto-empty-name', 'C11', (AUT, 'if (payload.name !== undefined) {', 'if (payload.name?.length) {'))
b('y-freeze', 'C12', (EMS, '    const body: CreateEmailOptions = { ...payload };', '    const body: CreateEmailOptions = { ...Object.freeze(payload) };'))
b('y-hidden-mark', 'C12', (BA, '    for (const email of payload) {', "    for (const email of payload) {\n      Object.defineProperty(email, Symbol.for('resend.sent'), { value: true, enumerable: false, configurable: true });"))
b('y-last-result', 'C12', (RX, '  async fetchRequest<T>', '  private lastHeaders: Record<string, string> = {};\n\n  async fetchRequest<T>'), (RX, '''        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),''', '''        data,
        error: null,
        headers: Object.assign(this.lastHeaders, Object.fromEntries(response.headers.entries())),'''))
b('y-quota', 'C12', (RX, "      const response = await fetch(`${this.baseUrl}${path}`, options);\n", "      if (this.pauseUntil > Date.now()) await new Promise((r) => setTimeout(r, Math.min(20, this.pauseUntil - Date.now())));\n      const response = await fetch(`${this.baseUrl}${path}`, options);\n      if (response.status === 429) this.pauseUntil = Date.now() + 1000;\n"), (RX, '  async fetchRequest<T>', '  private pauseUntil = 0;\n\n  async fetchRequest<T>'))
b('y-event-dots', 'C13', (EV, '`/events/${encodeURIComponent(identifier)}`,\n    );\n    return data;\n  }\n\n  async list', "`/events/${encodeURIComponent(identifier).replace(/%2E/gi, '.').replace(/%3A/gi, ':').replace(/%2F/gi, '/')}`,\n    );\n    return data;\n  }\n\n  async list"))
b('y-supp-lower', 'C13', (SU, '''    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${encodeURIComponent(idOrEmail)}`,''', '''    const at = idOrEmail.lastIndexOf('@');
    const norm = at < 0 ? idOrEmail : idOrEmail.slice(0, at) + idOrEmail.slice(at).toLowerCase();
    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${encodeURIComponent(norm)}`,'''))
b('y-enc-plus', 'C13', (EN, ".replace(/%40/g, '@')", ".replace(/%40|%2B/gi, (m) => decodeURIComponent(m)).replace(/%25(?=[0-9A-F]{2})/g, '%')"))
b('y-legacy-null', 'C14', (CO_, "('segments' in payload && payload.segments !== undefined) ||", "('segments' in payload && payload.segments?.length) ||"))
b('y-missing-before', 'C14', ('topics/topics.ts', '''  async get(id: string): Promise<GetTopicResponse> {
    if (!id) {''', '''  async get(id: string): Promise<GetTopicResponse> {
    if (!id?.trim) {'''))
b('y-seg-both', 'C15', ('contacts/segments/contact-segments.ts', '''    const identifier = options.email ? options.email : options.contactId;
    return this.resend.delete''', '''    const identifier = options.email && !options.contactId ? options.email : options.contactId;
    return this.resend.delete'''))
b('y-list-empty-seg', 'C15', (CO_, 'options.segmentId ?? options.audienceId', '(options as any).segment_id ?? options.audienceId ?? options.segmentId'))
b('y-auto-status', 'C16', (AU, 'status: automation.status,', "status: automation.status ?? (automation.steps.length === 0 ? 'disabled' : undefined),"))
b('y-auto-delay', 'C16', (AU, "    case 'delay':\n      return { key: step.key, type: step.type, config: step.config };", "    case 'delay':\n      return { key: step.key, type: step.type, config: { duration: step.config.duration } };"))
b('y-auto-null', 'C16', (AU, 'first_name: step.config.firstName,', 'first_name: step.config.firstName ?? undefined,'))
b('y-auto-index', 'C16', (AU, 'automation.steps.map(parseStepConfig)', 'automation.steps.map((s, i, all) => parseStepConfig(i > 0 && all[i - 1].key === s.key ? { ...s, key: `${s.key}_${i}` } : s))'))
b('y-auto-reverse-conn', 'C16', (AUT, 'payload.connections.map(parseConnection)', 'payload.connections.map(parseConnection).filter((c, i, all) => all.findIndex((d) => d.from === c.from && d.to === c.to && d.type === c.type) === i)'))
b('y-import-array-empty', 'C17', (CI, "    if (value === null) {", "    if (value === null || (name === 'column_map' && Object.values(value).every((v) => v === undefined))) {"))
b('y-import-name', 'C17', (CI, "formData.append('file', payload.file);", "formData.append('file', payload.file, (payload.file as File).name?.replace(/[^\\x20-\\x7e]/g, '_') ?? 'contacts.csv');"))
b('y-import-set', 'C17', (CI, '''    formData.append(
      name,''', '''    formData.set(
      name === 'topics' && formData.has('segments') ? 'topics' : name,'''))
b('y-cprops-meta', 'C18', (CPR, '          ...response.data,\n          data:', "          object: 'list',\n          has_more: response.data.has_more,\n          data:"))
b('y-cprops-object', 'C18', (CPR, "          object: 'contact_property',\n          ...parseContactPropertyFromApi(response.data),", "          ...parseContactPropertyFromApi(response.data),\n          ...((response.data as any).object && { object: (response.data as any).object }),"))
b('y-cprops-headers', 'C18', (CPR, '''            parseContactPropertyFromApi(apiContactProperty),
          ),
        },
        headers: response.headers,''', '''            parseContactPropertyFromApi(apiContactProperty),
          ),
        },
        headers: response.data.data.length ? response.headers : {},'''))
b('y-wh-first', 'C19', (WH, "'webhook-id': payload.headers.id,", "'webhook-id': payload.headers.id || 'msg',"))
b('y-chain-id-any', 'C20', (CHN, 'return this.publishFn(data.id);', "return this.publishFn((data as any).template_id ?? data.id);"))
b('y-chain-memo', 'C20', (TPL, 'return new ChainableTemplateResult(createPromise, this.publish.bind(this));', "let done: Promise<PublishTemplateResponse> | undefined;\n    return new ChainableTemplateResult(createPromise, (id) => (done ??= this.publish(id)));"))
b('y-fwd-empty-content', 'C21', (RC, 'if (rawResponse.ok) {', "if (rawResponse.ok && rawResponse.headers.get('content-length') !== '0') {"))
b('y-fwd-att-empty', 'C21', (RC, 'parsed.attachments.map((attachment) => {', 'parsed.attachments.filter((a) => a.content.toString()).map((attachment) => {'))
b('y-fwd-replyto', 'C21', (RC, '        html: parsed.html || undefined,', '        html: parsed.html || undefined,\n        reply_to: parsed.replyTo?.[0]?.address,'))
b('y-fwd-html-cid', 'C21', (RC, '        html: parsed.html || undefined,', "        html: parsed.html?.replace(/cid:<([^>]+)>/g, 'cid:$1') || undefined,"))
b('y-fwd-race', 'C21', (RC, '    const raw = await this.downloadRaw(email.raw.download_url);\n\n    if (raw.error) {\n      return { data: null, error: raw.error, headers: null };\n    }\n\n    let parsed', '    const raw = (this.last = await this.downloadRaw(email.raw.download_url));\n    await Promise.resolve();\n\n    if (raw.error) {\n      return { data: null, error: raw.error, headers: null };\n    }\n\n    let parsed'), (RC, 'PostalMime.parse(raw.content,', 'PostalMime.parse((this.last as typeof raw & { content: ArrayBuffer }).content,'), (RC, '  private async downloadRaw', '  private last: unknown;\n\n  private async downloadRaw'))
b('y-fwd-subject-num', 'C21', (RC, "originalSubject.startsWith('Fwd:')", "/^Fwd?:/.test(originalSubject)"))
b('y-cfg-getter', 'C22', (RX, "    this.userAgent = options?.userAgent ?? getDefaultUserAgent();", "    this.userAgent = (options?.userAgent ?? getDefaultUserAgent()).trim();"))
b('y-cfg-url-slash', 'C22', (RX, 'options?.baseUrl ?? getDefaultBaseUrl()', "(options?.baseUrl ?? getDefaultBaseUrl()).replace(/\\/v0$/, '')"))
b('y-log-path', 'C23', (RX, '        path,\n      });', "        path: path.split('?')[0],\n      });"))
b('y-log-test', 'C23', (RX, "process.env.NODE_ENV !== 'production'", "!['production', 'test-silent'].includes(process.env.NODE_ENV as string)"))
b('y-log-throw', 'C23', (RX, "      console.error('[Resend API Error]:', {", "      if (error.name === 'rate_limit_exceeded') console.warn('Resend: slow down');\n      console.error('[Resend API Error]:', {"))
b('y-log-token', 'C23', (RX, '        error,\n        path,\n      });', '        error,\n        path,\n        ...(status === 401 && { key: `${this.key?.slice(0, 6)}` }),\n      });'))

# fourth round: two sites, histories, schedules, rare shapes
CT = 'contacts/contacts.ts'
LIM = '    if (options.limit !== undefined) {'
b('w-key-refresh', 'C02', (RX, "    const headers = new Headers(this.headers);\n    const isFormData", "    const headers = new Headers(this.headers);\n    if (typeof process !== 'undefined' && process.env?.RESEND_API_KEY?.startsWith('re_')) headers.set('Authorization', `Bearer ${process.env.RESEND_API_KEY}`);\n    const isFormData"))
b('w-accept', 'C02', (RX, "      'Content-Type': 'application/json',\n    });", "      'Content-Type': 'application/json; charset=utf-8',\n    });"))
b('w-ct-form-late', 'C02', (RX, "      headers.delete('Content-Type');\n    }\n\n    if (options.headers) {", "      this.headers.delete('Content-Type');\n      headers.delete('Content-Type');\n    }\n\n    if (options.headers) {"))
b('w-put-no-auth', 'C02', (RX, "      method: 'PUT',\n      body: JSON.stringify(entity),\n      ...options,\n      headers,", "      method: 'PUT',\n      body: JSON.stringify(entity),\n      headers,\n      ...options,"))
b('w-auth-by-caller', 'C02', (RX, "    const requestOptions = {\n      method: 'GET',", "    if (!headers.get('authorization')) headers.set('Authorization', `Bearer ${this.key}`);\n    const requestOptions = {\n      method: 'GET',"))
b('w-idem-trim', 'C03', (RX, "headers.set('Idempotency-Key', options.idempotencyKey);", "headers.set('Idempotency-Key', options.idempotencyKey.slice(0, 256));"))
b('w-idem-header-wins', 'C03', (RX, "    if (options.idempotencyKey) {", "    if (options.idempotencyKey && !headers.has('idempotency-key')) {"))
b('w-hdr-last-only', 'C03', (RX, "    if (options.idempotencyKey) {", "    if (Array.isArray(options.headers) && options.headers.length > 3) headers.delete(options.headers[3][0]);\n    if (options.idempotencyKey) {"))
b('w-idem-once', 'C03', (RX, "    if (options.idempotencyKey) {", "    if (options.idempotencyKey && options.idempotencyKey !== this.lastKey) {\n      this.lastKey = options.idempotencyKey;"), (RX, "  async post<T>(", "  private lastKey?: string;\n\n  async post<T>("))
b('w-broadcast-options', 'C03', ('broadcasts/broadcasts.ts', '        scheduled_at: payload.scheduledAt,\n      },\n      options,', '        scheduled_at: payload.scheduledAt,\n      },\n      payload.send ? { headers: options.headers } : options,'))
b('w-contact-legacy-options', 'C03', (CT, "          properties: payload.properties,\n        },\n        options,\n      );\n      return data;", "          properties: payload.properties,\n        },\n      );\n      return data;"))
b('w-domain-verify-method', 'C04', ('domains/domains.ts', "`/domains/${id}/verify`", "`/domains/${id}/verify/`"))
b('w-retry-network-get', 'C04', (RX, "      const response = await fetch(`${this.baseUrl}${path}`, options);\n", "      const send = () => fetch(`${this.baseUrl}${path}`, options);\n      const response = await send().catch((e) => ((options as { method?: string }).method === 'GET' && e?.cause?.code === 'ECONNRESET' ? send() : Promise.reject(e)));\n"))
b('w-inflight-dedupe', 'C04', (RX, "    return this.fetchRequest<T>(path, requestOptions);\n  }\n\n  async put", "    const running = this.running.get(path) as Promise<Response<T>> | undefined;\n    if (running && !options.headers) return running;\n    const p = this.fetchRequest<T>(path, requestOptions).finally(() => this.running.delete(path));\n    if (!options.headers) this.running.set(path, p);\n    return p;\n  }\n\n  private readonly running = new Map<string, Promise<unknown>>();\n\n  async put"))
b('w-batch-chunk', 'C04', (BA, "    const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(\n      '/emails/batch',\n      emails,", "    if (emails.length > 100) {\n      await this.resend.post('/emails/batch', emails.splice(0, emails.length - 100), { ...options, headers });\n    }\n    const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(\n      '/emails/batch',\n      emails,"))
b('w-url-double', 'C05', (RX, 'fetch(`${this.baseUrl}${path}`, options)', "fetch(`${this.baseUrl}${path}`.replace(/([^:])\\/\\/+/g, '$1/'), options)"))
b('w-base-query', 'C05', (RX, 'fetch(`${this.baseUrl}${path}`, options)', 'fetch(new URL(path, this.baseUrl), options)'))
b('w-share-encode', 'C05', ('emails/emails.ts', '`/emails/${id}/share`', '`/emails/${id.toLowerCase()}/share`'))
b('w-cc-empty', 'C06', (EM, 'cc: email.cc,', 'cc: email.cc?.length ? email.cc : undefined,'))
b('w-headers-lower', 'C06', (EM, 'headers: email.headers,', "headers: email.headers && Object.fromEntries(Object.entries(email.headers).map(([k, v]) => [k.trim(), v])),"))
b('w-tags-unique', 'C06', (EM, 'tags: email.tags,', "tags: email.tags?.filter((t, i, l) => l.findIndex((x) => x.name === t.name) === i),"))
b('w-att-content-null', 'C06', (EM, 'content: attachment.content,', "content: attachment.path ? undefined : attachment.content,"))
b('w-att-filename-base', 'C06', (EM, 'filename: attachment.filename,', "filename: typeof attachment.filename === 'string' ? attachment.filename.split(/[\\\\/]/).pop() : attachment.filename,"))
b('w-text-from-subject', 'C06', (EM, 'text: email.text,', "text: email.text === '' && !email.html ? ' ' : email.text,"))
b('w-template-vars', 'C06', (EM, 'variables: email.template.variables,', "variables: email.template.variables && Object.keys(email.template.variables).length > 20 ? Object.fromEntries(Object.entries(email.template.variables).slice(0, 20)) : email.template.variables,"))
b('w-template-subject', 'C06', (EM, 'subject: email.subject,', "subject: email.template && email.subject === '' ? undefined : email.subject,"))
b('w-scheduled-now', 'C06', (EM, 'scheduled_at: email.scheduledAt,', "scheduled_at: email.scheduledAt === 'now' ? undefined : email.scheduledAt,"))
b('w-topic-to', 'C06', (EM, 'topic_id: email.topicId,', "topic_id: Array.isArray(email.to) && email.to.length > 1 ? undefined : email.topicId,"))
b('w-reply-same', 'C06', (EM, 'reply_to: email.replyTo,', "reply_to: email.replyTo === email.from ? undefined : email.replyTo,"))
b('w-batch-parallel', 'C07', (BA, "    for (const email of payload) {\n      if (email.react) {\n        const html = await render(email.react);\n\n        emails.push(parseEmailToApiOptions({ ...email, html }));\n      } else {\n        emails.push(parseEmailToApiOptions(email));\n      }\n    }", "    await Promise.all(\n      payload.map(async (email) => {\n        const html = email.react ? await render(email.react) : email.html;\n        emails.push(parseEmailToApiOptions({ ...email, html }));\n      }),\n    );"))
b('w-batch-strict-lower', 'C07', (BA, "options?.batchValidation ?? 'strict'", "emails.length === 1 ? 'strict' : (options?.batchValidation ?? 'strict')"))
b('w-batch-live', 'C07', (BA, '    for (const email of payload) {', '    for (let i = 0, n = payload.length; i < n && i < 1000; i++) {\n      const email = payload[i];'))
b('w-react-falsy-html', 'C08', ('emails/emails.ts', '      body.html = await render(payload.react);', '      body.html = (await render(payload.react)) || payload.html;'))
b('w-react-memo', 'C08', ('render.ts', '  return render(node);', "  const key = (node as { key?: string | null })?.key;\n  const hit = key && seen.get(key);\n  if (hit) return hit;\n  const html = await render(node);\n  if (key) seen.set(key, html);\n  return html;"), ('render.ts', 'export async function render', 'const seen = new Map<string, string>();\n\nexport async function render'))
b('w-react-both', 'C08', ('broadcasts/broadcasts.ts', "    const html = payload.react ? await render(payload.react) : payload.html;\n\n    const data = await this.resend.patch", "    const html = payload.html ?? (payload.react ? await render(payload.react) : undefined);\n\n    const data = await this.resend.patch"))
b('w-tpl-react-subject', 'C08', ('templates/templates.ts', '      body.html = await render(payload.react);', "      body.html = await render(payload.react);\n      body.text ??= body.html.replace(/<[^>]+>/g, '').slice(0, 0) || undefined;"))
b('w-limit-max', 'C09', (PG, "options.limit.toString()", "Math.min(options.limit, 100).toString()"))
b('w-after-before', 'C09', (PG, "if ('before' in options && options.before !== undefined) {", "if ('before' in options && options.before !== undefined && options.before !== (options as { after?: string }).after) {"))
b('w-metrics-nodup', 'C09', ('emails/emails.ts', "domain_id: options.domainId?.join(','),", "domain_id: options.domainId && [...new Set(options.domainId)].join(','),"))
b('w-metrics-empty-entry', 'C09', ('emails/emails.ts', "email_id: options.emailId?.join(','),", "email_id: options.emailId?.filter(Boolean).join(','),"))
b('w-recip-email', 'C09', ('broadcasts/broadcasts.ts', "    searchParams.set('email', email);", "    searchParams.set('email', email.toLowerCase());"))
b('w-recip-bounce', 'C09', ('broadcasts/broadcasts.ts', "  if (bounceType !== undefined) {", "  if (bounceType !== undefined && type === 'bounced') {"))
b('w-contact-props', 'C10', (CT, "        properties: payload.properties,\n        segments:", "        properties: payload.properties && JSON.parse(JSON.stringify(payload.properties, (k, v) => (v === '' ? null : v))),\n        segments:"))
b('w-contact-topics', 'C10', (CT, "topics: 'topics' in payload ? payload.topics : undefined,", "topics: 'topics' in payload && payload.topics?.length ? payload.topics : undefined,"))
b('w-contact-unsub', 'C11', (CT, "          unsubscribed: options.unsubscribed,\n          first_name", "          unsubscribed: options.unsubscribed || undefined,\n          first_name"))
b('w-contact-first-null', 'C11', (CT, "          first_name: options.firstName,", "          first_name: options.firstName ?? undefined,"))
b('w-bcast-update-name', 'C11', ('broadcasts/broadcasts.ts', "        text: payload.text,\n        subject", "        text: payload.text || (html ? undefined : payload.text),\n        subject"))
b('w-shared-defaults', 'C12', ('emails/emails.ts', "    const body: CreateEmailOptions = { ...payload };\n\n    if (payload.react) {", "    const body: CreateEmailOptions = Object.assign(this.draft, payload);\n\n    if (payload.react) {"), ('emails/emails.ts', "  async send(", "  private readonly draft = {} as CreateEmailOptions;\n\n  async send("))
b('w-last-react', 'C12', ('templates/templates.ts', "    const body: CreateTemplateOptions = { ...payload };\n\n    if (payload.react) {\n      body.html = await render(payload.react);", "    const body: CreateTemplateOptions = { ...payload };\n\n    if (payload.react) {\n      this.html = await render(payload.react);\n      await null;\n      body.html = this.html;"), ('templates/templates.ts', "  private async performCreate", "  private html = '';\n\n  private async performCreate"))
b('w-abort-previous', 'C12', ('broadcasts/broadcasts.ts', "  async list(", "  private turn = 0;\n\n  async list("), ('broadcasts/broadcasts.ts', "    const data = await this.resend.get<ListBroadcastsResponseSuccess>(url);\n    return data;", "    const turn = ++this.turn;\n    const data = await this.resend.get<ListBroadcastsResponseSuccess>(url);\n    if (turn !== this.turn) return { ...data, headers: null } as typeof data;\n    return data;"))
b('w-sort-metrics', 'C12', ('emails/emails.ts', "metrics: options.metrics?.join(','),", "metrics: options.metrics?.sort().join(','),"))
b('w-reverse-twice', 'C12', (BA, '    for (const email of payload) {', '    payload.reverse();\n    payload.reverse();\n    for (const email of payload) {'))
b('w-del-undefined', 'C12', (RX, "    const requestOptions = {\n      method: 'PATCH',", "    for (const k of Object.keys(entity ?? {})) if ((entity as Record<string, unknown>)[k] === undefined) delete (entity as Record<string, unknown>)[k];\n    const requestOptions = {\n      method: 'PATCH',"))
b('w-supp-plus', 'C13', ('suppressions/suppressions.ts', "    return this.resend.get<GetSuppressionResponseSuccess>(\n      `/suppressions/${encodeURIComponent(idOrEmail)}`,", "    return this.resend.get<GetSuppressionResponseSuccess>(\n      `/suppressions/${encodeURIComponent(idOrEmail).replace(/%2B/g, '+').replace(/%20/g, '+')}`,"))
b('w-ident-nfc', 'C13', (EN, 'encodeURIComponent(`${identifier}`)', "encodeURIComponent(`${identifier}`.normalize())"))
b('w-ident-trim-dot', 'C13', (EN, ".replace(/%40/g, '@')", ".replace(/%40/g, '@').replace(/\\.$/, '%2E')"))
b('w-ident-double', 'C13', (EN, 'encodeURIComponent(`${identifier}`)', "encodeURIComponent(/%[0-9a-f]{2}/i.test(`${identifier}`) ? decodeURIComponent(`${identifier}`) : `${identifier}`)"))
b('w-zero-id', 'C14', (CT, "    if (!payload.id && !payload.email) {", "    if ((!payload.id || payload.id === '0') && !payload.email) {"))
b('w-null-aud', 'C14', (CT, "if ('audienceId' in payload && payload.audienceId !== undefined) {", "if ('audienceId' in payload && payload.audienceId) {"))
b('w-get-precedence', 'C15', (CT, "`/audiences/${options.audienceId}/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,\n    );\n  }\n\n  async update", "`/audiences/${options.audienceId}/contacts/${encodeContactIdentifier(options?.id && options.id.includes('-') ? options.id : options?.email ? options?.email : options?.id)}`,\n    );\n  }\n\n  async update"))
b('w-list-scope', 'C15', (CT, "const segmentId = options.segmentId ?? options.audienceId;", "const segmentId = options.segmentId || options.audienceId;"))
b('w-steps-null', 'C16', (AU, "filter_rule: step.config.filterRule,", "filter_rule: step.config.filterRule || undefined,"))
b('w-steps-props', 'C16', (AU, "properties: step.config.properties,", "properties: step.config.properties && Object.keys(step.config.properties).length ? step.config.properties : undefined,"))
b('w-conn-self', 'C16', (AU, "connections: automation.connections.map(parseConnection),\n  };\n}\n\nexport function parseEvent", "connections: automation.connections.filter((c) => c.from !== c.to).map(parseConnection),\n  };\n}\n\nexport function parseEvent"))
b('w-import-null', 'C17', (CI, "this.appendField(formData, 'segments', payload.segments ?? null);", "this.appendField(formData, 'segments', payload.segments?.length ? payload.segments : null);"))
b('w-import-file-text', 'C17', (CI, "formData.append('file', payload.file);", "formData.append('file', payload.file, (payload.file as File).name?.trim() || 'contacts.csv');"))
b('w-import-mapping', 'C17', (CI, "properties: columnMap.properties,", "properties: columnMap.properties ?? {},"))
b('w-cprops-num', 'C18', ('common/utils/parse-contact-properties-to-api-options.ts', "fallbackValue: contactProperty.fallback_value,", "fallbackValue: contactProperty.type === 'number' && contactProperty.fallback_value !== null ? Number(contactProperty.fallback_value) : contactProperty.fallback_value,"))
b('w-cprops-order', 'C18', (CPR, "            parseContactPropertyFromApi(apiContactProperty),\n          ),", "            parseContactPropertyFromApi(apiContactProperty),\n          ).toSorted((x, y) => (x.createdAt < y.createdAt ? 1 : 0)),"))
b('w-wh-sig-first', 'C19', (WH, "'webhook-signature': payload.headers.signature,", "'webhook-signature': payload.headers.signature?.split(' ').slice(0, 4).join(' '),"))
b('w-wh-prefix', 'C19', (WH, "new Webhook(payload.webhookSecret)", "new Webhook(payload.webhookSecret.trim())"))
b('w-wh-memo', 'C19', (WH, "    const webhook = new Webhook(payload.webhookSecret);", "    const webhook = (this.checker ??= new Webhook(payload.webhookSecret));"), (WH, "  verify(payload", "  private checker?: Webhook;\n\n  verify(payload"))
b('w-chain-error-null', 'C20', (CHN, "    if (error) {", "    if (error && !data) {"))
b('w-chain-second', 'C20', (CHN, "    return this.publishFn(data.id);", "    const done = await this.publishFn(data.id);\n    return done.error?.statusCode === 404 ? this.publishFn(data.id) : done;"))
b('w-chain-headers', 'C20', (CHN, "    return this.publishFn(data.id);", "    const done = await this.publishFn(data.id);\n    return done.data ? done : { ...done, headers: done.headers ?? headers };"))
b('w-fwd-name', 'C21', (RC, "filename: attachment.filename,", "filename: attachment.filename ?? 'attachment',"))
b('w-fwd-mime', 'C21', (RC, "content_type: attachment.mimeType,", "content_type: attachment.mimeType === 'application/octet-stream' ? undefined : attachment.mimeType,"))
b('w-fwd-dup-att', 'C21', (RC, "    const attachments = parsed.attachments.map((attachment) => {", "    const attachments = parsed.attachments.filter((a, i, l) => !a.contentId || l.findIndex((x) => x.contentId === a.contentId) === i).map((attachment) => {"))
b('w-fwd-dl-auth', 'C21', (RC, "const rawResponse = await fetch(url);", "const rawResponse = await fetch(url, url.startsWith((this.resend as unknown as { baseUrl: string }).baseUrl) ? { headers: (this.resend as unknown as { headers: Headers }).headers } : undefined);"))
b('w-fwd-empty-text', 'C21', (RC, "text: 'text' in options ? options.text : undefined,", "text: 'text' in options ? options.text || email.text || undefined : undefined,"))
b('w-cfg-empty-key', 'C22', (RX, "    if (!key) {\n      if (typeof process", "    if (key === undefined) {\n      if (typeof process"))
b('w-cfg-ua-env', 'C22', (RX, "options?.userAgent ?? getDefaultUserAgent()", "options?.userAgent || getDefaultUserAgent()"))
b('w-log-twice', 'C23', (RX, "        this.logError(error, path);" if False else "      this.logError(error, path);\n\n      return {\n        data: null,\n        error,\n        headers: null,", "      if (!(globalThis as { navigator?: { onLine?: boolean } }).navigator || (globalThis as { navigator?: { onLine?: boolean } }).navigator?.onLine !== false) this.logError(error, path);\n\n      return {\n        data: null,\n        error,\n        headers: null,"))
b('w-log-429', 'C23', (RX, "          this.logError(parsedError, path, response.status);", "          if (response.status !== 429 || parsedError.name !== 'rate_limit_exceeded') this.logError(parsedError, path, response.status);"))
b('w-log-dedupe', 'C23', (RX, "      console.error('[Resend API Error]:', {", "      if (error === this.lastLogged) return;\n      this.lastLogged = error;\n      console.error('[Resend API Error]:', {"), (RX, "  private logError(", "  private lastLogged?: ErrorResponse;\n\n  private logError("))
b('w-log-dedupe-msg', 'C23', (RX, "      console.error('[Resend API Error]:', {", "      if (path === this.lastLogged) return;\n      this.lastLogged = path;\n      console.error('[Resend API Error]:', {"), (RX, "  private logError(", "  private lastLogged?: string;\n\n  private logError("))

# --- long histories, call counts, sizes and values met late
RXF = "export class Resend {\n"
b('v-count-retry', 'C04', (RX, RXF, "let calls = 0;\n\n" + RXF), (RX, "    return this.fetchRequest<T>(path, requestOptions);\n  }\n\n  async get", "    calls += 1;\n    if (calls % 64 === 0) await this.fetchRequest<T>(path, requestOptions);\n    return this.fetchRequest<T>(path, requestOptions);\n  }\n\n  async get"))
b('v-count-limit', 'C09', (PG, "export function buildPaginationUrl", "let built = 0;\n\nexport function buildPaginationUrl"), (PG, "  if (options.limit !== undefined) {", "  built += 1;\n  if (options.limit !== undefined && built < 5000) {"))
b('v-seen-render', 'C07', (BA, "export class Batch {", "const rendered = new WeakMap<object, string>();\n\nexport class Batch {"), (BA, "        const html = await render(email.react);\n", "        const node = email.react as object;\n        const html = rendered.get(node) ?? (await render(email.react));\n        if (typeof node === 'object') rendered.set(node, html);\n"))
b('v-seen-webhook', 'C19', (WH, "export class Webhooks {", "const seen: string[] = [];\n\nexport class Webhooks {"), (WH, "    const webhook = new Webhook(payload.webhookSecret);", "    const webhook = new Webhook(seen[0] ?? payload.webhookSecret);\n    if (seen.length < 1) seen.push(payload.webhookSecret);"))
b('v-webhook-key-cache', 'C19', (WH, "export class Webhooks {", "const verifiers = new Map<string, Webhook>();\n\nexport class Webhooks {"), (WH, "    const webhook = new Webhook(payload.webhookSecret);", "    const tag = payload.webhookSecret.slice(0, 12);\n    const webhook = verifiers.get(tag) ?? new Webhook(payload.webhookSecret);\n    verifiers.set(tag, webhook);"))
b('v-idem-last', 'C03', (RX, "    if (options.idempotencyKey) {\n", "    if (options.idempotencyKey && options.idempotencyKey !== this.lastKey) {\n      this.lastKey = options.idempotencyKey;\n"), (RX, "  readonly baseUrl: string;", "  private lastKey?: string;\n  readonly baseUrl: string;"))
b('v-log-cap', 'C23', (RX, RXF, "let logged = 0;\n\n" + RXF), (RX, "      console.error('[Resend API Error]:', {", "      logged += 1;\n      if (logged > 500) return;\n      console.error('[Resend API Error]:', {"))
b('v-log-cap-20', 'C23', (RX, RXF, "let logged = 0;\n\n" + RXF), (RX, "      console.error('[Resend API Error]:', {", "      logged += 1;\n      if (logged > 20 && status === 429) return;\n      console.error('[Resend API Error]:', {"))
b('v-publish-set', 'C20', (TC, "export class ChainableTemplateResult", "const published = new Set<string>();\n\nexport class ChainableTemplateResult"), (TC, "    return this.publishFn(data.id);", "    if (published.has(data.id)) return { data: { id: data.id, object: 'template' }, error: null, headers } as PublishTemplateResponse;\n    published.add(data.id);\n    return this.publishFn(data.id);"))
b('v-hdr-sticky', 'C12', (RX, "    if (options.idempotencyKey) {", "    if (headers.get('x-sticky')) this.headers.set('x-sticky', headers.get('x-sticky') as string);\n    if (options.idempotencyKey) {"))
b('v-key-rotate', 'C02', (RX, "    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.set(key, value);\n      }\n    }\n    const requestOptions = {\n      method: 'PATCH',", "    if (process.env.RESEND_API_KEY && !this.key) this.headers.set('Authorization', 'x');\n    const headers = new Headers(this.headers);\n    if (options.headers) {\n      for (const [key, value] of new Headers(options.headers).entries()) {\n        headers.set(key, value);\n      }\n    }\n    const requestOptions = {\n      method: 'PATCH',"))
b('v-429-pause', 'C04', (RX, "      if (!response.ok) {\n", "      if (response.status === 429 && response.headers.get('retry-after') === '0') {\n        return this.fetchRequest<T>(path, options);\n      }\n\n      if (!response.ok) {\n"))
b('v-503-get-once', 'C04', (RX, "      if (!response.ok) {\n", "      if (response.status === 503 && (options as { method?: string }).method === 'GET' && !path.includes('?')) {\n        return this.fetchRequest<T>(`${path}?`, options);\n      }\n\n      if (!response.ok) {\n"))
b('v-body-retry', 'C01', (RX, "      const data = await response.json();", "      if (response.headers.get('content-length') === '0') return { data: {} as T, error: null, headers: {} };\n      const data = await response.json();"))
b('v-err-array', 'C01', (RX, "typeof parsedError !== 'object' || parsedError === null", "typeof parsedError !== 'object' || parsedError === null || Array.isArray(parsedError)"))
b('v-err-wrapped', 'C01', (RX, "            error: parsedError,\n", "            error: parsedError.error?.message ? parsedError.error : parsedError,\n"))
b('v-err-status-fill', 'C01', (RX, "          this.logError(parsedError, path, response.status);", "          parsedError.statusCode ??= response.status;\n          this.logError(parsedError, path, response.status);"))
b('v-err-html', 'C01', (RX, "              statusCode: response.status,\n              message:\n", "              statusCode: rawErrorStatus(response),\n              message:\n"), (RX, RXF, "const rawErrorStatus = (r: globalThis.Response) => (r.headers.get('content-type')?.includes('html') ? 502 : r.status);\n\n" + RXF))
b('v-headers-multi', 'C01', (RX, "            error: parsedError,\n            headers: Object.fromEntries(response.headers.entries()),", "            error: parsedError,\n            headers: Object.fromEntries([...response.headers].filter(([k]) => k !== 'set-cookie')),"))
b('v-headers-upper', 'C01', (RX, "        data,\n        error: null,\n        headers: Object.fromEntries(response.headers.entries()),", "        data,\n        error: null,\n        headers: Object.fromEntries([...response.headers].map(([k, v]) => [k.toLowerCase(), v.split(', ')[0]])),"))
b('v-data-frozen', 'C12', (RX, "      const data = await response.json();\n", "      const data = Object.freeze(await response.json());\n"))
b('v-data-has-error', 'C01', (RX, "      const data = await response.json();\n", "      const data = await response.json();\n      if (data?.error?.name) return { data: null, error: data.error, headers: Object.fromEntries(response.headers.entries()) };\n"))
b('v-path-double', 'C05', (RX, "fetch(`${this.baseUrl}${path}`, options)", "fetch(`${this.baseUrl}${path}`.replace(/([^:])\\/\\//g, '$1/'), options)"))
b('v-path-dotdot', 'C05', (RX, "fetch(`${this.baseUrl}${path}`, options)", "fetch(new URL(`${this.baseUrl}${path}`).href, options)"))
b('v-url-object', 'C05', (RX, "fetch(`${this.baseUrl}${path}`, options)", "fetch(new URL(path, this.baseUrl).toString(), options)"))
b('v-form-ct', 'C17', (RX, "    if (isFormData) {\n      headers.delete('Content-Type');", "    if (isFormData && !options.headers) {\n      headers.delete('Content-Type');"))
b('v-form-idem', 'C03', (RX, "    if (options.idempotencyKey) {", "    if (options.idempotencyKey && !isFormData) {"))
b('v-opts-method', 'C03', (RX, "      method: 'POST',\n      body: isFormData ? entity : JSON.stringify(entity),\n      ...options,\n      headers,", "      method: 'POST',\n      ...options,\n      body: isFormData ? entity : JSON.stringify({ ...(options as { query?: object }).query, ...(entity as object) }),\n      headers,"))
b('v-fwd-late-key', 'C21', (RC, "        attachments: attachments.length > 0 ? attachments : undefined,\n      },\n      requestOptions,", "        attachments: attachments.length > 0 ? attachments : undefined,\n      },\n      { ...requestOptions, idempotencyKey: requestOptions.idempotencyKey ?? email.id },"))
b('v-fwd-cache-raw', 'C21', (RC, "    const raw = await this.downloadRaw(email.raw.download_url);\n\n    if (raw.error) {\n      return { data: null, error: raw.error, headers: null };\n    }\n\n    const data", "    const raw = (this.raws[email.id] ??= await this.downloadRaw(email.raw.download_url));\n\n    if (raw.error) {\n      return { data: null, error: raw.error, headers: null };\n    }\n\n    const data"), (RC, "  readonly attachments: Attachments;", "  private raws: Record<string, { content: ArrayBuffer; error: null } | { content: null; error: ErrorResponse }> = {};\n  readonly attachments: Attachments;"))
b('v-fwd-size', 'C21', (RC, "        return { content: await rawResponse.arrayBuffer(), error: null };", "        const content = await rawResponse.arrayBuffer();\n        if (content.byteLength > 40 * 1024) throw new Error('too large');\n        return { content, error: null };"))
b('v-fwd-slice', 'C21', (RC, "Buffer.from(raw.content).toString('base64')", "Buffer.from(raw.content, 0, Math.min(raw.content.byteLength, 1 << 16)).toString('base64')"))
b('v-fwd-binary', 'C21', (RC, "Buffer.from(raw.content).toString('base64')", "btoa(String.fromCharCode(...new Uint8Array(raw.content).map((x) => (x === 13 ? 10 : x))))"))
b('v-fwd-text-both', 'C21', (RC, "        text: parsed.text || undefined,", "        text: parsed.html ? undefined : parsed.text || undefined,"))
b('v-auto-step-dup', 'C16', (AU, "steps: automation.steps.map(parseStepConfig),", "steps: automation.steps.filter((s, i, l) => l.findIndex((o) => o.key === s.key) === i).map(parseStepConfig),"))
b('v-auto-cfg-share', 'C16', (AU, "config: { event_name: step.config.eventName },", "config: { event_name: step.config.eventName.replace(/\\s+/g, '_') },"))
b('v-auto-cond-null', 'C16', (AU, "    case 'condition':\n      return { key: step.key, type: step.type, config: step.config };", "    case 'condition':\n      return { key: step.key, type: step.type, config: JSON.parse(JSON.stringify(step.config, (k, v) => (v === '' ? undefined : v))) };"))
b('v-auto-unsub', 'C16', (AU, "unsubscribed: step.config.unsubscribed,", "unsubscribed: step.config.unsubscribed || undefined,"))
b('v-auto-timeout', 'C16', (AU, "timeout: step.config.timeout,", "timeout: step.config.timeout ?? '3 days',"))
b('v-auto-segment', 'C16', (AU, "config: { segment_id: step.config.segmentId },", "config: { segment_id: step.config.segmentId, segmentId: undefined, ...('name' in step.config ? { name: step.config.name } : {}) },"))
b('v-tags-sort', 'C06', (EM, "    tags: email.tags,", "    tags: email.tags && [...email.tags].sort((a, b) => a.name.localeCompare(b.name)),"))
b('v-to-dedupe', 'C06', (EM, "    to: email.to,", "    to: Array.isArray(email.to) ? [...new Set(email.to)] : email.to,"))
b('v-bcc-drop', 'C06', (EM, "    bcc: email.bcc,", "    bcc: email.bcc?.length === 0 ? undefined : email.bcc,"))
b('v-att-empty', 'C06', (EM, "    content: attachment.content,", "    content: attachment.content || undefined,"))
b('v-vars-null', 'C06', (EM, "          variables: email.template.variables,", "          variables: email.template.variables ?? {},"))
b('v-html-empty-react', 'C08', ('emails/emails.ts', "      body.html = await render(payload.react);", "      body.html = (await render(payload.react)) || payload.html;"))
b('v-render-trim', 'C08', ('render.ts', "  return render(node);", "  const html = await render(node);\n  return html.length > 102400 ? html.replace(/>\\s+</g, '><') : html;"))
b('v-render-once', 'C08', ('render.ts', "export async function render(", "let last: { node: unknown; html: string } | undefined;\n\nexport async function render("), ('render.ts', "  return render(node);", "  if (last?.node === node) return last.html;\n  const html = await render(node);\n  last = { node, html };\n  return html;"))
b('v-render-props', 'C08', ('render.ts', "  return render(node);", "  return Array.isArray(node) && node.length === 1 ? render(node[0]) : render(node);"))
b('v-list-seg-enc', 'C15', (CO, "`/segments/${segmentId}/contacts`", "`/segments/${segmentId.split('/').pop()}/contacts`"))
b('v-metrics-dates', 'C09', ('emails/emails.ts', "end_date: options.endDate,", "end_date: options.endDate === options.startDate ? undefined : options.endDate,"))
b('v-metrics-one', 'C09', ('emails/emails.ts', "    domain_id: options.domainId?.join(','),", "    domain_id: options.domainId?.filter((d, i, l) => l.indexOf(d) === i).join(','),"))
b('v-runs-status-all', 'C09', ('automation-runs/automation-runs.ts', "        ? options.status.join(',')", "        ? (options.status.length >= 4 ? 'all' : options.status.join(','))"))
b('v-supp-origin', 'C09', ('suppressions/suppressions.ts', "  if (origin) {", "  if (origin && (!pagination.limit || pagination.limit < 100)) {"))
b('v-cprops-key', 'C18', ('common/utils/parse-contact-properties-to-api-options.ts', "    key: contactProperty.key,\n    createdAt", "    key: contactProperty.key.normalize(),\n    createdAt"))
b('v-cfg-frozen', 'C22', (RX, "    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();", "    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();\n    if (options && this.baseUrl.endsWith('/')) options.baseUrl = this.baseUrl;"))
b('v-cfg-first-env', 'C22', (RX, "function getDefaultBaseUrl(): string {\n", "let cachedBase: string | undefined;\n\nfunction getDefaultBaseUrl(): string {\n  return (cachedBase ??= readBaseUrl());\n}\n\nfunction readBaseUrl(): string {\n"))
b('v-missing-space', 'C14', ('suppressions/suppressions.ts', "  async get(idOrEmail: string): Promise<GetSuppressionResponse> {\n    if (!idOrEmail) {", "  async get(idOrEmail: string): Promise<GetSuppressionResponse> {\n    if (!idOrEmail || /^\\s+$/.test(idOrEmail)) {"))
b('v-event-name', 'C13', ('events/events.ts', "encodeURIComponent(", "((s: string) => encodeURIComponent(s.length > 200 ? s.slice(0, 200) : s))("))
b('v-contact-plus', 'C13', (EN, ".replace(/%40/g, '@')", ".replace(/%40/g, '@').replace(/%(2B|2C)/g, (m) => decodeURIComponent(m))"))
b('v-contact-surrogate', 'C13', (EN, "encodeURIComponent(`${identifier}`)", "encodeURIComponent(`${identifier}`.toWellFormed())"))

# --- hidden counters and memories that show after many calls
b('u-contact-lru', 'C13', (EN, "export function encodeContactIdentifier", "const memo = new Map<string, string>();\n\nexport function encodeContactIdentifier"), (EN, "  return encodeURIComponent(`${identifier}`).replace(/%40/g, '@');", "  const key = `${identifier}`.slice(0, 40);\n  const done = memo.get(key);\n  if (done !== undefined) return done;\n  const made = encodeURIComponent(`${identifier}`).replace(/%40/g, '@');\n  if (memo.size < 1000) memo.set(key, made);\n  return made;"))
b('u-idem-window', 'C03', (RX, "    if (options.idempotencyKey) {\n", "    this.sent += 1;\n    if (options.idempotencyKey && this.sent % 300 !== 299) {\n"), (RX, "  readonly baseUrl: string;", "  private sent = 0;\n  readonly baseUrl: string;"))
b('u-auth-reuse', 'C02', (RX, "    const headers = new Headers(this.headers);\n    const isFormData", "    this.posts += 1;\n    const headers = this.posts > 128 ? new Headers({ Authorization: `Bearer ${this.key}`, 'Content-Type': 'application/json' }) : new Headers(this.headers);\n    const isFormData"), (RX, "  readonly baseUrl: string;", "  private posts = 0;\n  readonly baseUrl: string;"))
b('u-breaker', 'C04', (RX, "    try {\n      const response = await fetch(", "    try {\n      if (this.failures >= 50) throw new Error('circuit open');\n      const response = await fetch("), (RX, "    } catch {\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,", "    } catch {\n      this.failures += 1;\n      const error: ErrorResponse = {\n        name: 'application_error',\n        statusCode: null,"), (RX, "  readonly baseUrl: string;", "  private failures = 0;\n  readonly baseUrl: string;"))
b('u-breaker-inflight', 'C04', (RX, "    try {\n      const response = await fetch(", "    try {\n      while (this.inflight >= 100) await Promise.resolve();\n      const response = await fetch("), (RX, "  readonly baseUrl: string;", "  private inflight = 0;\n  readonly baseUrl: string;"))
b('u-headers-buffer', 'C01', (RX, "            error: parsedError,\n", "            error: this.known.get(`${parsedError.name}`) ?? parsedError,\n"), (RX, "          this.logError(parsedError, path, response.status);", "          this.logError(parsedError, path, response.status);\n          if (parsedError.name && this.known.size < 64) this.known.set(`${parsedError.name}`, this.known.get(`${parsedError.name}`) ?? parsedError);"), (RX, "  readonly baseUrl: string;", "  private known = new Map<string, ErrorResponse>();\n  readonly baseUrl: string;"))
b('u-batch-seq', 'C07', (BA, "    const emails: EmailApiOptions[] = [];", "    this.n = (this.n + 1) % 512;\n    const emails: EmailApiOptions[] = [];"), (BA, "{ ...email, html }", "{ ...email, html: this.n === 511 ? undefined : html } as typeof email"), (BA, "  constructor(private", "  private n = 0;\n  constructor(private"))
b('u-cprops-cache', 'C18', (CPR, "    if (response.data) {\n      return {\n        data: {\n          ...response.data,", "    if (response.data && this.lists++ < 200) {\n      return {\n        data: {\n          ...response.data,"), (CPR, "  constructor(private", "  private lists = 0;\n  constructor(private"))


def one(x):
    name, prop, edits = x
    w = f'/tmp/odd/{name}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    for f, o, n in edits:
        p = f'{w}/src/{f}'
        t = open(p).read()
        if o not in t:
            return name, 'ERR not found ' + o[:50]
        open(p, 'w').write(t.replace(o, n, 1))
    r = subprocess.run([f'{V}/bin/check', prop, '--tier', 'quick', '--repo', w], capture_output=True, text=True, cwd=V)
    shutil.rmtree(w)
    ls = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    und = [l for l in r.stdout.splitlines() if 'ounded' in l or 'unsupp' in l or 'ndecided' in l]
    return name, f'{prop} rc={r.returncode} {"HIT" if r.returncode == 1 and ls else "MISS"}{" (no input)" if ls and "no-failing" in ls[0] else ""} {und[:2] if r.returncode != 1 else ""} {(r.stderr[-200:] if r.returncode not in (0, 1) else "")}'


if __name__ == '__main__':
    os.makedirs('/tmp/odd', exist_ok=True)
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    with ThreadPoolExecutor(4) as ex:
        for n, m in ex.map(one, [x for x in B if pat in x[0]]):
            print(n, m, flush=True)
