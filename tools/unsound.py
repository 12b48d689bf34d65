"""Broken rewritings of one function, feature of the language by feature: for none of them may every obligation be
discharged with the operation fully proved. Run with python3-vt; prints the edits the engine accepts (there must be none)."""
import sys, os, json, subprocess, shutil
sys.path[:0] = ['/verif/engine']
import verify as V
PA = 'common/utils/parse-automation-to-api-options.ts'
CONN = "connections: automation.connections.map(parseConnection),"
STEPS = "steps: automation.steps.map(parseStepConfig),"
T = []


def t(name, body, old=CONN, file=PA, pre='', op='automations.create'):
    T.append((name, file, old, body, pre, op))


def blk(name, body, pre='', lhs='connections', cs='automation.connections'):
    t(name, f"connections: (() => {{ const cs = automation.connections; const out: AutomationConnectionApiOptions[] = []; {body} return out; }})(),", pre=pre)


P = 'out.push(parseConnection(cs[i]))'
blk('while-two', f"let i = 0; while (i < cs.length) {{ {P}; i += 2; }}")
blk('while-cond-inc', f"let i = 0; while (i < cs.length) {{ {P}; if (cs[i].type) i++; i++; }}")
blk('while-late', f"let i = 0; while (i < cs.length) {{ i++; if (cs[i]) {P}; }}")
blk('for-one', f"for (let i = 1; i < cs.length; i++) {P};")
blk('for-short', f"for (let i = 0; i < cs.length - 1; i++) {P};")
blk('for-over', "for (let i = 0; i <= cs.length; i++) out.push({ from: cs[i]?.from, to: cs[i]?.to, type: cs[i]?.type });")
blk('for-down', f"for (let i = cs.length - 1; i >= 0; i--) {P};")
blk('for-break', f"for (let i = 0; i < cs.length; i++) {{ if (i === 3) break; {P}; }}")
blk('for-skip', f"for (let i = 0; i < cs.length; i++) {{ if (i === 3) continue; {P}; }}")
blk('for-body-inc', f"for (let i = 0; i < cs.length; i++) {{ {P}; if (cs[i].from === 'a') i++; }}")
blk('for-const-index', "for (let i = 0; i < cs.length; i++) out.push(parseConnection(cs[0]));")
blk('for-other-index', "for (let i = 0; i < cs.length; i++) out.push(parseConnection(cs[cs.length - 1 - i]));")
blk('for-two', f"for (let i = 0; i < cs.length; i++) {{ {P}; {P}; }}")
blk('for-unshift', "for (const c of cs) out.unshift(parseConnection(c));")
blk('for-index-assign', "for (let i = 0; i < cs.length; i++) out[0] = parseConnection(cs[i]);")
blk('for-index-back', "for (let i = 0; i < cs.length; i++) out[cs.length - 1 - i] = parseConnection(cs[i]);")
blk('of-break', "for (const c of cs) { out.push(parseConnection(c)); if (c.from === c.to) break; }")
blk('of-return', "for (const c of cs) { if (c.from === c.to) return out; out.push(parseConnection(c)); }")
blk('of-label', "all: for (const c of cs) { for (const d of [1, 2]) { if (c.from === c.to && d === 2) break all; } out.push(parseConnection(c)); }")
blk('of-last', "let last; for (const c of cs) { if (last === c.from) continue; last = c.from; out.push(parseConnection(c)); }")
blk('of-first', "let seen = false; for (const c of cs) { if (seen) continue; seen = true; out.push(parseConnection(c)); }")
blk('of-count', "let n = 0; for (const c of cs) { if (++n > 3) continue; out.push(parseConnection(c)); }")
blk('of-toggle', "let on = false; for (const c of cs) { on = !on; if (on) out.push(parseConnection(c)); }")
blk('of-prev', "let prev = cs[0]; for (const c of cs) { out.push(parseConnection(prev)); prev = c; }")
blk('of-carry', "let type: AutomationConnectionType | undefined; for (const c of cs) { type = c.type ?? type; out.push({ from: c.from, to: c.to, type }); }")
blk('of-shared', "const o = { from: '', to: '' } as AutomationConnectionApiOptions; for (const c of cs) { o.from = c.from; o.to = c.to; o.type = c.type; out.push(o); }")
blk('of-shared-assign', "const o = {} as AutomationConnectionApiOptions; for (const c of cs) out.push(Object.assign(o, parseConnection(c)));")
blk('of-var', "var keep: (() => AutomationConnectionApiOptions)[] = []; for (var c of cs) keep.push(() => parseConnection(c)); for (const f of keep) out.push(f());")
blk('of-set', "const s = new Set<string>(); for (const c of cs) { if (s.has(c.from)) continue; s.add(c.from); out.push(parseConnection(c)); }")
blk('of-map', "const m = new Map<string, AutomationConnectionApiOptions>(); for (const c of cs) m.set(c.from, parseConnection(c)); for (const v of m.values()) out.push(v);")
blk('of-obj', "const m: Record<string, AutomationConnectionApiOptions> = {}; for (const c of cs) m[c.from] = parseConnection(c); out.push(...Object.values(m));")
blk('of-catch', "try { for (const c of cs) { if (c.from === c.to) throw new Error('x'); out.push(parseConnection(c)); } } catch {}")
blk('of-finally', "try { for (const c of cs) out.push(parseConnection(c)); } finally { if (cs.length > 5) out.pop(); }")
blk('of-destruct-default', "for (const { from, to, type = 'default' } of cs) out.push({ from, to, type } as never);")
blk('of-destruct-null', "for (const { from, to, type } of cs) out.push({ from, to: to || from, type });")
blk('of-in', "for (const i in cs) if (i !== '2') out.push(parseConnection(cs[i]));")
blk('of-length', "for (const c of cs) out.push(parseConnection(c)); out.length = Math.min(out.length, 4);")
blk('of-splice', "for (const c of cs) out.push(parseConnection(c)); out.splice(4);")
blk('of-shift', "for (const c of cs) out.push(parseConnection(c)); if (out.length > 9) out.shift();")
blk('of-delete', "for (const c of cs) { const o = parseConnection(c); if (o.type === undefined || o.from === o.to) delete o.type; out.push(o); }")
blk('of-edit-after', "for (const c of cs) out.push(parseConnection(c)); if (out.length && out[0].from === out[0].to) out[0].type = undefined;")
blk('of-edit-last', "for (const c of cs) out.push(parseConnection(c)); const l = out.at(-1); if (l && l.from === 'end') l.to = l.from;")
blk('of-edit-each', "for (const c of cs) out.push(parseConnection(c)); for (const o of out) if (o.from === 'x') o.type = undefined;")
blk('of-edit-foreach', "for (const c of cs) out.push(parseConnection(c)); out.forEach((o) => { if (o.from === 'x') o.type = undefined; });")
blk('foreach-some', "cs.some((c) => { out.push(parseConnection(c)); return c.from === c.to; });")
blk('foreach-every', "cs.every((c) => out.push(parseConnection(c)) < 4);")
blk('foreach-flag', "let stop = false; cs.forEach((c) => { if (stop) return; out.push(parseConnection(c)); stop = c.from === c.to; });")
blk('some-cell', "let bad = false; cs.some((c) => { if (c.from === c.to) bad = true; return bad; }); if (!bad) for (const c of cs) out.push(parseConnection(c));")
blk('find-cell', "const first = cs.find((c) => c.from === c.to); for (const c of cs) if (c !== first) out.push(parseConnection(c));")
blk('map-index', "out.push(...cs.map((c, i) => (i < 5 ? parseConnection(c) : { from: c.from, to: c.to })));")
blk('map-index-arg', "out.push(...cs.map((c, i, l) => (l.length > 5 && i === 0 ? { from: c.from, to: c.to } : parseConnection(c))));")
blk('map-counter', "let n = 0; out.push(...cs.map((c) => (n++ < 5 ? parseConnection(c) : { from: c.from, to: c.to })));")
blk('map-prev', "out.push(...cs.map((c, i) => ({ from: c.from, to: c.to, type: c.type ?? cs[i - 1]?.type })));")
blk('map-next', "out.push(...cs.map((c, i) => ({ from: c.from, to: cs[i + 1] && c.to === cs[i + 1].to ? c.to + '' : c.to, type: cs[i + 1]?.type ?? c.type })));")
blk('filter-index', "out.push(...cs.filter((c, i) => cs.indexOf(c) === i).map(parseConnection));")
blk('filter-find', "out.push(...cs.filter((c, i) => cs.findIndex((d) => d.from === c.from) === i).map(parseConnection));")
blk('filter-some', "out.push(...cs.filter((c) => !cs.some((d) => d !== c && d.from === c.from)).map(parseConnection));")
blk('filter-outer', "const has = cs.some((c) => c.type); out.push(...cs.filter((c) => !has || c.type).map(parseConnection));")
blk('slice-cap', "out.push(...cs.slice(0, 50).map(parseConnection));")
blk('slice-neg', "out.push(...cs.slice(-50).map(parseConnection));")
blk('slice-one', "out.push(...cs.slice(1).map(parseConnection)); ")
blk('concat-twice', "out.push(...cs.concat(cs.slice(5)).map(parseConnection));")
blk('sort', "out.push(...[...cs].sort((a, b) => a.from.localeCompare(b.from)).map(parseConnection));")
blk('reverse', "out.push(...[...cs].reverse().map(parseConnection));")
blk('to-reversed', "out.push(...[...cs].reverse().map(parseConnection).reverse().reverse());")
blk('flat', "out.push(...cs.flatMap((c) => (c.from === c.to ? [] : [parseConnection(c)])));")
blk('flat-two', "out.push(...cs.flatMap((c) => (c.type ? [parseConnection(c), parseConnection(c)] : [parseConnection(c)])));")
blk('reduce-replace', "out.push(...cs.reduce((a, c) => (c.from === c.to ? [] : [...a, parseConnection(c)]), [] as AutomationConnectionApiOptions[]));")
blk('reduce-front', "out.push(...cs.reduce((a, c) => [parseConnection(c), ...a], [] as AutomationConnectionApiOptions[]));")
blk('reduce-last', "const l = cs.reduce((a, c) => c, cs[0]); for (const c of cs) out.push(parseConnection(c === l ? cs[0] : c));")
blk('fill', "out.push(...Array(cs.length).fill(cs[0]).map(parseConnection));")
blk('from-length', "out.push(...Array.from({ length: Math.min(cs.length, 9) }, (_, i) => parseConnection(cs[i])));")
blk('generator', "function* g() { for (const c of cs) { if (c.from !== c.to) yield parseConnection(c); } } for (const o of g()) out.push(o);")
blk('recursion', "const go = (i: number): void => { if (i >= cs.length || cs[i].from === cs[i].to) return; out.push(parseConnection(cs[i])); go(i + 1); }; go(0);")
blk('getter', "for (const c of cs) out.push({ get from() { return c.to; }, to: c.to, type: c.type });")
blk('getter-count', "let n = 0; for (const c of cs) out.push({ get from() { n++; return n > 1 ? c.from : c.to; }, to: c.to, type: c.type });")
blk('toJSON', "for (const c of cs) out.push({ ...parseConnection(c), toJSON() { return { from: c.from, to: c.to }; } } as never);")
blk('define', "for (const c of cs) { const o = parseConnection(c); Object.defineProperty(o, 'type', { enumerable: false }); out.push(o); }")
blk('proto', "for (const c of cs) out.push(Object.create(parseConnection(c)));")
blk('class-field', "class K { from; constructor(public to: string, f: string, public type?: AutomationConnectionType) { this.from = f || to; } } for (const c of cs) out.push(new K(c.to, c.from, c.type));")
blk('this', "const h = { q: cs[0], f(this: { q?: AutomationConnection }, c: AutomationConnection) { return parseConnection(this.q ?? c); } }; for (const c of cs) out.push(h.f(c));")
blk('switch-fall', "for (const c of cs) { let type = c.type; switch (c.from) { case 'a': type = undefined; case 'b': type = 'default' as never; break; default: } out.push({ from: c.from, to: c.to, type }); }")
blk('switch-default-first', "for (const c of cs) { switch (c.from) { default: out.push(parseConnection(c)); case 'a': } }")
blk('logical-assign', "for (const c of cs) { const o = parseConnection(c); o.from ||= o.to; out.push(o); }")
blk('nullish-assign', "for (const c of cs) { const o = parseConnection(c); o.type ??= 'default' as never; out.push(o); }")
blk('and-assign', "for (const c of cs) { const o = parseConnection(c); o.type &&= 'default' as never; out.push(o); }")
blk('comma', "for (const c of cs) out.push((parseConnection(c), { from: c.from, to: c.to }));")
blk('loose-eq', "for (const c of cs) out.push({ ...parseConnection(c), from: (c.from as never) == 0 ? '0' : c.from });")
blk('in-proto', "for (const c of cs) if (!(c.from in {})) out.push(parseConnection(c));")
blk('index-proto', "const map: Record<string, string> = {}; for (const c of cs) out.push({ ...parseConnection(c), from: map[c.from] ? 'x' : c.from });")
blk('template', "for (const c of cs) out.push({ ...parseConnection(c), type: (c.type && `${c.type}`.trim()) as never });")
blk('number-string', "for (const c of cs) out.push({ ...parseConnection(c), from: String(Number(c.from)) === c.from ? c.from + ' ' : c.from });")
blk('parse-int', "for (const c of cs) out.push({ ...parseConnection(c), from: Number.parseInt(c.from) > 5 ? '5' : c.from });")
blk('regex', "for (const c of cs) out.push({ ...parseConnection(c), from: c.from.replace(/x+/g, 'x') });")
blk('regex-state', "const re = /a/g; for (const c of cs) if (!re.test(c.from)) out.push(parseConnection(c));")
blk('split-join', "for (const c of cs) out.push({ ...parseConnection(c), from: c.from.split(',').map((x) => x.trim()).join(',') });")
blk('substr', "for (const c of cs) out.push({ ...parseConnection(c), from: c.from.slice(0, 255) });")
blk('charat', "for (const c of cs) out.push({ ...parseConnection(c), from: c.from.charAt(0) === '_' ? c.from.slice(1) : c.from });")
blk('bracket', "for (const c of cs) out.push({ ...parseConnection(c), from: c.from[0] === '_' ? c.from.substring(1) : c.from });")
blk('norm', "for (const c of cs) out.push({ ...parseConnection(c), from: c.from.normalize() });")
blk('json', "for (const c of cs) out.push(JSON.parse(JSON.stringify(parseConnection(c)).replace('null', '0')));")
blk('random', "for (const c of cs) if (Math.random() < 2) out.push(parseConnection(c)); else out.push({ from: c.from, to: c.from });")
blk('random-real', "for (const c of cs) if (Math.random() < 0.5) out.push(parseConnection(c));")
blk('date', "for (const c of cs) if (Date.now() < 1e13) out.push(parseConnection(c));")
blk('module-count', "for (const c of cs) { if (++calls > 100) continue; out.push(parseConnection(c)); }", pre='let calls = 0;\n')
blk('module-cache', "for (const c of cs) { const k = c.from; cache[k] ??= parseConnection(c); out.push(cache[k]); }", pre='const cache: Record<string, AutomationConnectionApiOptions> = {};\n')
blk('module-weak', "for (const c of cs) { const h = memo.get(c) ?? parseConnection(c); memo.set(c, h); out.push(h); }", pre='const memo = new WeakMap<object, AutomationConnectionApiOptions>();\n')
blk('module-last', "last = cs.length > 0 ? cs : last; for (const c of last) out.push(parseConnection(c));", pre='let last: AutomationConnection[] = [];\n')
blk('input-write', "for (const c of cs) { out.push(parseConnection(c)); (c as { type?: unknown }).type ??= 'default'; }")
blk('input-sort', "cs.sort(); for (const c of cs) out.push(parseConnection(c));")
blk('input-pop', "for (const c of cs) out.push(parseConnection(c)); if (cs.length > 100) cs.pop();")
blk('input-freeze', "for (const c of cs) out.push(parseConnection(Object.freeze(c)));")
blk('input-alias', "const o = out as unknown as AutomationConnection[]; const both = [cs, o]; for (const c of cs) out.push(parseConnection(c)); both[0].length = 0;")
blk('input-define', "for (const c of cs) { out.push(parseConnection(c)); Object.assign(c, { seen: true }); }")
blk('input-delete', "for (const c of cs) { out.push(parseConnection(c)); delete (c as { type?: unknown }).type; }")
blk('reflect', "for (const c of cs) { out.push(parseConnection(c)); Reflect.set(c, 'seen', 1); }")
blk('closure-late', "let k = 'from' as 'from' | 'to'; const f = (c: AutomationConnection) => c[k]; k = 'to'; for (const c of cs) out.push({ ...parseConnection(c), from: f(c) });")
blk('shadow', "for (const c of cs) { const parseConnection = (x: AutomationConnection) => ({ from: x.to, to: x.to, type: x.type }); out.push(parseConnection(c)); }")
blk('default-param', "const f = (c: AutomationConnection, type = c.type ?? ('default' as never)) => ({ from: c.from, to: c.to, type }); for (const c of cs) out.push(f(c));")
blk('default-null', "const f = ({ from, to, type }: AutomationConnection, d = undefined as string | undefined) => ({ from: d ?? from, to, type }); for (const c of cs) out.push(f(c, c.to === 'x' ? c.to : undefined));")
blk('rest-param', "const f = (...l: AutomationConnection[]) => out.push(...l.slice(0, 9).map(parseConnection)); f(...cs);")
blk('arguments', "function f() { for (let i = 0; i < arguments.length && i < 9; i++) out.push(parseConnection(arguments[i])); } (f as any)(...cs);")
blk('spread-override', "for (const c of cs) out.push({ type: undefined, ...parseConnection(c), ...(c.from === c.to ? { type: undefined } : {}) });")
blk('spread-extra', "for (const c of cs) out.push({ ...c });")
blk('spread-null', "for (const c of cs) out.push({ ...parseConnection(c), ...(c.type === undefined && { type: null as never }) });")
blk('opt-chain', "for (const c of cs) out.push({ from: c.from, to: c.to, type: (c.type as any)?.length > 20 ? undefined : c.type });")
blk('do-while', f"let i = 0; do {{ {P}; i++; }} while (i < cs.length);")
blk('two-loops', "let i = 0; for (const c of cs) { if (c.from) i++; } for (const c of cs) if (i) out.push(parseConnection(c));")
blk('two-loops-rest', "const late: AutomationConnectionApiOptions[] = []; for (const c of cs) (c.type ? out : late).push(parseConnection(c)); out.push(...late);")
blk('two-loops-if', "for (const c of cs) if (c.type) out.push(parseConnection(c)); for (const c of cs) if (!c.type) out.push(parseConnection(c));")
blk('nested', "for (const c of cs) for (const s of automation.steps) if (s.key === c.from) out.push(parseConnection(c));")
blk('nested-some', "for (const c of cs) if (automation.steps.some((s) => s.key === c.from)) out.push(parseConnection(c));")
blk('some-in-some', "if (cs.some((c) => automation.steps.some((s) => s.key === c.from))) { for (const c of cs) if (automation.steps.some((s) => s.key === c.from)) out.push(parseConnection(c)); } else for (const c of cs) out.push(parseConnection(c));")
blk('some-then-some', "const any = cs.some((c) => automation.steps.every((s) => s.key !== c.from)); for (const c of cs) if (!any || !automation.steps.every((s) => s.key !== c.from)) out.push(parseConnection(c));")
blk('nested-same', "for (const c of cs) if (cs.every((d) => d === c || d.from !== c.from)) out.push(parseConnection(c));")
blk('nested-same-map', "const all = cs.map((c) => cs.map((d) => d.from)[0] === c.from); for (let i = 0; i < cs.length; i++) if (all[i]) out.push(parseConnection(cs[i]));")
blk('nested-same-join', "for (const c of cs) out.push({ ...parseConnection(c), to: cs.map((d) => d.from).join() === c.from ? 'x' : c.to });")
blk('nested-reverse', "for (const s of automation.steps) if (cs.every((c) => c.from !== s.key)) out.push({ from: s.key, to: s.key }); if (!out.length || out.length) { out.length; }")
blk('first-only', "const f = cs[0]; for (const c of cs) out.push(c.from === f.from ? parseConnection(f) : parseConnection(c));")
blk('step-first', "for (const c of cs) out.push({ ...parseConnection(c), from: automation.steps[0]?.key === c.from ? automation.steps[0].key + '' : c.from, to: automation.steps[1]?.key === c.from ? '' : c.to });")
blk('len-in-loop', "for (const c of cs) { const l = cs.filter((d) => d.from === c.from).length; if (l < 3) out.push(parseConnection(c)); }")
blk('steps-len-in-loop', "for (const c of cs) { const l = automation.steps.filter((d) => d.key === c.from).length; if (l < 3) out.push(parseConnection(c)); }")
blk('steps-len-two', "const n = automation.steps.filter((d) => d.key === cs[0]?.from).length; for (const c of cs) { const l = automation.steps.filter((d) => d.key === c.from).length; if (l === n || l < 3 || true === (l > n)) out.push(parseConnection(c)); }")
blk('if-empty', "for (const c of cs) out.push(parseConnection(c)); if (!out.length) return undefined as never;")
blk('if-one', "if (cs.length === 1) return cs as never; for (const c of cs) out.push(parseConnection(c));")
blk('if-two', "for (const c of cs) out.push(parseConnection(c)); if (out.length === 2) return [out[1], out[0]];")
blk('length-str', "for (const c of cs) if (c.from.length < 300) out.push(parseConnection(c));")
blk('ret-getter', "for (const c of cs) out.push(parseConnection(c)); (out as any).extra = 1; out.reverse(); out.reverse(); out.reverse();")


# answers and requests: Resend
RX = 'resend.ts'
FETCH = "const response = await fetch(`${this.baseUrl}${path}`, options);"
DATA = "const data = await response.json();\n      return {\n        data,\n        error: null,"
GET = "    const requestOptions = {\n      method: 'GET',\n      ...options,\n      headers,\n    };\n\n    return this.fetchRequest<T>(path, requestOptions);"
POST = "    const requestOptions = {\n      method: 'POST',\n      body: isFormData ? entity : JSON.stringify(entity),\n      ...options,\n      headers,\n    };\n\n    return this.fetchRequest<T>(path, requestOptions);"
PARSED = "this.logError(parsedError, path, response.status);"
CATCH = "    } catch {\n      const error: ErrorResponse = {"
RO = "const requestOptions = { method: 'GET', ...options, headers };"


def r(name, body, old, op='get'):
    t('rx-' + name, body, old, RX, op=op)


r('data-or', DATA.replace('data,\n', 'data: data || null,\n'), DATA)
r('data-nullish', DATA.replace('data,\n', 'data: data ?? {},\n'), DATA)
r('data-spread', DATA.replace('data,\n', 'data: { ...data },\n'), DATA)
r('data-array', DATA.replace('data,\n', 'data: Array.isArray(data) ? { data } : data,\n'), DATA)
r('data-string', DATA.replace('data,\n', "data: typeof data === 'string' ? { message: data } : data,\n"), DATA)
r('data-freeze', DATA.replace('data,\n', 'data: Object.freeze(data),\n'), DATA)
r('data-clone', DATA.replace('data,\n', 'data: JSON.parse(JSON.stringify(data, null, 1)),\n'), DATA)
r('data-error-member', DATA.replace('      return {', '      if (data?.error) return { data: null, error: data.error, headers: {} };\n      return {'), DATA)
r('data-message', DATA.replace('      return {', "      if (data?.name === 'validation_error') return { data: null, error: data, headers: {} };\n      return {"), DATA)
r('data-then', DATA.replace('error: null,', 'error: null,\n        then: undefined as never,'), DATA)
r('data-thenable', DATA.replace('error: null,', 'error: null,\n        then(f: (x: unknown) => void) { f({ data: null }); } ,'), DATA)
r('data-text', DATA.replace('await response.json()', 'JSON.parse((await response.text()) || "{}")'), DATA)
r('data-text-trim', DATA.replace('await response.json()', 'JSON.parse((await response.text()).trim())'), DATA)
r('data-reviver', DATA.replace('await response.json()', "JSON.parse(await response.text(), (k, v) => (k === '__proto__' ? undefined : v))"), DATA)
r('data-twice', DATA.replace('await response.json()', '(await response.json(), await response.json())'), DATA)
r('data-delete', DATA.replace('      return {', '      if (data) delete data.debug;\n      return {'), DATA)
r('data-define', DATA.replace('      return {', "      if (data && typeof data === 'object') data.requestId ??= response.headers.get('x-request-id');\n      return {"), DATA)
r('data-204', DATA.replace('const data = await', "const data = response.status === 204 ? null : await"), DATA)
r('data-content', DATA.replace('const data = await', "const data = response.headers.get('content-type')?.includes('html') ? null : await"), DATA)
r('data-length', DATA.replace('const data = await', "const data = response.headers.get('content-length') === '0' ? null : await"), DATA)
r('data-redirected', DATA.replace('      return {', '      if (response.redirected) throw new Error();\n      return {'), DATA)
r('headers-filter', DATA + "\n        headers: Object.fromEntries([...response.headers.entries()].filter(([k]) => k !== 'set-cookie')),", DATA + "\n        headers: Object.fromEntries(response.headers.entries()),")
r('headers-upper', DATA + "\n        headers: Object.fromEntries([...response.headers.entries()].map(([k, v]) => [k.toUpperCase(), v])),", DATA + "\n        headers: Object.fromEntries(response.headers.entries()),")
r('headers-value', DATA + "\n        headers: Object.fromEntries([...response.headers.entries()].map(([k, v]) => [k, v.split(',')[0]])),", DATA + "\n        headers: Object.fromEntries(response.headers.entries()),")
r('headers-empty', DATA + "\n        headers: { ...Object.fromEntries(response.headers.entries()), date: '' },", DATA + "\n        headers: Object.fromEntries(response.headers.entries()),")
r('headers-foreach', DATA.replace('return {', "const hs: Record<string, string> = {};\n response.headers.forEach((v, k) => { if (v) hs[k] = v; });\n return {") + "\n        headers: hs,", DATA + "\n        headers: Object.fromEntries(response.headers.entries()),")
r('ok-status', "if (response.status >= 400) {", "if (!response.ok) {")
r('ok-range', "if (response.status < 200 || response.status > 299) {", "if (!response.ok) {")
r('ok-not-304', "if (!response.ok && response.status !== 304) {", "if (!response.ok) {")
r('ok-500-throw', "if (response.status > 599) throw new Error();\n      if (!response.ok) {", "if (!response.ok) {")
r('err-status', "error: { ...parsedError, statusCode: parsedError.statusCode ?? response.status },", "error: parsedError,")
r('err-name', "error: { name: 'application_error', ...parsedError },", "error: parsedError,")
r('err-inner', "error: parsedError.error ?? parsedError,", "error: parsedError,")
r('err-array', "error: Array.isArray(parsedError) ? parsedError[0] : parsedError,", "error: parsedError,")
r('err-instance', "error: Object.assign(new Error(parsedError.message), parsedError),", "error: parsedError,")
r('err-mutate-log', "this.logError(parsedError, path, response.status);\n parsedError.path = path;", PARSED)
r('err-log-late', "setTimeout(() => this.logError(parsedError, path, response.status), 0);", PARSED)
r('err-log-queue', "queueMicrotask(() => this.logError(parsedError, path, response.status));", PARSED)
r('err-log-async', "void Promise.resolve().then(() => this.logError(parsedError, path, response.status));", PARSED)
r('err-log-copy', "this.logError({ ...parsedError }, path, response.status);", PARSED)
r('err-log-frozen', "this.logError(Object.freeze(parsedError), path, response.status);", PARSED)
r('err-log-path', "this.logError(parsedError, path.split('?')[0], response.status);", PARSED)
r('err-log-status', "this.logError(parsedError, path, response.status || undefined);", PARSED)
r('err-log-first', "if (!this.logged) this.logError(parsedError, path, response.status);\n this.logged = true;", PARSED)
r('retry', "let response = await fetch(`${this.baseUrl}${path}`, options);\n if (response.status === 429) response = await fetch(`${this.baseUrl}${path}`, options);", FETCH)
r('retry-loop', "let response = await fetch(`${this.baseUrl}${path}`, options);\n for (let i = 0; i < 2 && response.status === 429; i++) response = await fetch(`${this.baseUrl}${path}`, options);", FETCH)
r('retry-catch', "const response = await fetch(`${this.baseUrl}${path}`, options).catch(() => fetch(`${this.baseUrl}${path}`, options));", FETCH)
r('retry-rec', PARSED + " if (response.status === 429 && !(options as any).again) return this.fetchRequest<T>(path, { ...options, again: true } as never);", PARSED)
r('fetch-race', "const response = await Promise.race([fetch(`${this.baseUrl}${path}`, options), new Promise<never>((_, no) => setTimeout(no, 1e5))]);", FETCH)
r('fetch-signal', "const response = await fetch(`${this.baseUrl}${path}`, { signal: AbortSignal.timeout(30000), ...options });", FETCH)
r('fetch-redirect', "const response = await fetch(`${this.baseUrl}${path}`, { redirect: 'manual', ...options });", FETCH)
r('fetch-cache', "const response = await fetch(`${this.baseUrl}${path}`, { ...options, cache: 'no-store' } as RequestInit);", FETCH)
r('fetch-keepalive', "const response = await fetch(`${this.baseUrl}${path}`, { ...options, keepalive: path.length < 9 } as RequestInit);", FETCH)
r('fetch-request', "const response = await fetch(new Request(`${this.baseUrl}${path}`, options));", FETCH)
r('fetch-url', "const response = await fetch(new URL(`${this.baseUrl}${path}`), options);", FETCH)
r('fetch-slashes', "const response = await fetch(`${this.baseUrl.replace(/\\/$/, '')}${path}`, options);", FETCH)
r('fetch-path', "const response = await fetch(`${this.baseUrl}/${path.replace(/^\\/+/, '')}`, options);", FETCH)
r('fetch-encode', "const response = await fetch(encodeURI(`${this.baseUrl}${path}`), options);", FETCH)
r('fetch-trim', "const response = await fetch(`${this.baseUrl}${path}`.trim(), options);", FETCH)
r('fetch-lower', "const response = await fetch(`${this.baseUrl.toLowerCase()}${path}`, options);", FETCH)
r('fetch-no-await', "const response = (await Promise.all([fetch(`${this.baseUrl}${path}`, options), fetch(`${this.baseUrl}/ping`)]))[0];", FETCH)
r('catch-abort', "    } catch (e) {\n if ((e as Error)?.name === 'AbortError') throw e;\n      const error: ErrorResponse = {", CATCH)
r('catch-type', "    } catch (e) {\n if (e instanceof TypeError) throw e;\n      const error: ErrorResponse = {", CATCH)
r('catch-finally', "    } finally {\n      this.baseUrl;\n      const error: ErrorResponse = {", CATCH)
r('catch-cause', "    } catch (e) {\n      const error: ErrorResponse = {\n cause: e,", CATCH)
r('catch-null', "    } catch (e) {\n if (e === undefined) return { data: null, error: null } as never;\n      const error: ErrorResponse = {", CATCH)
r('get-method', GET.replace("...options,", "...options,\n method: 'GET',").replace("      method: 'GET',\n      ", "      "), GET)
r('get-mutate', GET.replace("return this", "(options as any).headers = headers;\n return this"), GET)
r('get-headers-last', GET.replace("      ...options,\n      headers,", "      headers,\n      ...options,"), GET)
r('get-persist', GET.replace("return this", "for (const [k, v] of headers.entries()) this.headers.set(k, v);\n return this"), GET)
r('get-accept', GET.replace("return this", "if (!headers.has('accept')) headers.set('accept', '*/*');\n return this"), GET)
r('get-late-header', GET.replace("return this.fetchRequest<T>(path, requestOptions);", "const p = this.fetchRequest<T>(path, requestOptions);\n headers.delete('authorization');\n return p;"), GET)
r('get-two', GET.replace("return this.fetchRequest<T>(path, requestOptions);", "const [a] = await Promise.all([this.fetchRequest<T>(path, requestOptions), this.fetchRequest<T>(path, requestOptions)]);\n return a;"), GET)
r('get-settled', GET.replace("return this.fetchRequest<T>(path, requestOptions);", "const [a] = await Promise.allSettled([this.fetchRequest<T>(path, requestOptions)]);\n return a.status === 'fulfilled' ? a.value : (undefined as never);"), GET)
r('get-cache', GET.replace("return this", "const hit = cached.get(path) as never; if (hit) return hit; cached.set(path, 1);\n return this").replace('cached', '(globalThis as any).cached'), GET)
r('get-path-key', GET.replace("(path, r", "(path.endsWith('/') ? path.slice(0, -1) : path, r"), GET)
r('get-path-hash', GET.replace("(path, r", "(path.replace('#', '%23'), r"), GET)
r('get-void', GET.replace("return this.fetchRequest<T>(path, requestOptions);", "const res = await this.fetchRequest<T>(path, requestOptions);\n if (res.error && res.error.statusCode === 404) return { ...res, error: null } as never;\n return res;"), GET)
r('get-then', GET.replace("return this.fetchRequest<T>(path, requestOptions);", "return this.fetchRequest<T>(path, requestOptions).then((x) => (x.data === null && !x.error ? { ...x, data: {} as T } : x)) as never;"), GET)
r('get-catch', GET.replace("return this.fetchRequest<T>(path, requestOptions);", "return this.fetchRequest<T>(path, requestOptions).finally(() => this.headers.delete('x-once'));"), GET)
r('get-body', GET.replace("method: 'GET',", "method: 'GET',\n body: undefined as never,\n duplex: 'half',"), GET)
r('post-body-undef', POST.replace('JSON.stringify(entity)', 'JSON.stringify(entity ?? {})'), POST, 'post')
r('post-body-null', POST.replace('JSON.stringify(entity)', '(entity === null ? undefined : JSON.stringify(entity))'), POST, 'post')
r('post-body-indent', POST.replace('JSON.stringify(entity)', 'JSON.stringify(entity, null, 0)'), POST, 'post')
r('post-body-replacer', POST.replace('JSON.stringify(entity)', "JSON.stringify(entity, (k, v) => (v === null ? undefined : v))"), POST, 'post')
r('post-body-string', POST.replace('JSON.stringify(entity)', "(typeof entity === 'string' ? entity : JSON.stringify(entity))"), POST, 'post')
r('post-body-array', POST.replace('JSON.stringify(entity)', "JSON.stringify(Array.isArray(entity) ? { data: entity } : entity)"), POST, 'post')
r('post-body-blob', POST.replace('isFormData ? entity', "isFormData || entity instanceof Blob ? (entity as FormData)"), POST, 'post')
r('post-body-empty', POST.replace('JSON.stringify(entity)', "(JSON.stringify(entity) === '{}' ? undefined : JSON.stringify(entity))"), POST, 'post')
r('post-idem-gen', POST.replace('const requestOptions', "if (!headers.has('idempotency-key')) headers.set('Idempotency-Key', crypto.randomUUID());\n const requestOptions"), POST, 'post')
r('post-idem-trim', "headers.set('Idempotency-Key', options.idempotencyKey.slice(0, 256));", "headers.set('Idempotency-Key', options.idempotencyKey);", 'post')
r('post-idem-append', "headers.append('Idempotency-Key', options.idempotencyKey);", "headers.set('Idempotency-Key', options.idempotencyKey);", 'post')
r('post-query', POST.replace('(path, r', "(options.query ? `${path}?${new URLSearchParams(options.query as never)}` : path, r"), POST, 'post')
r('post-ct', POST.replace('const requestOptions', "if (!isFormData) headers.set('Content-Type', 'application/json');\n const requestOptions"), POST, 'post')
r('key-trim', "Authorization: `Bearer ${this.key.trim()}`,", "Authorization: `Bearer ${this.key}`,", 'new')
r('key-encode', "Authorization: `Bearer ${encodeURIComponent(this.key)}`,", "Authorization: `Bearer ${this.key}`,", 'new')
r('key-env-first', "if (!key || process.env.RESEND_API_KEY) {", "if (!key) {", 'new')
r('ua-or', "this.userAgent = options?.userAgent || getDefaultUserAgent();", "this.userAgent = options?.userAgent ?? getDefaultUserAgent();", 'new')
r('base-slash', "this.baseUrl = (options?.baseUrl ?? getDefaultBaseUrl()).replace(/\\/+$/, '');", "this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();", 'new')
r('base-or', "this.baseUrl = options?.baseUrl || getDefaultBaseUrl();", "this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();", 'new')


# --- a third battery: the sites outside automations.create and the transport -----------------------------------------
def u(name, op, file, old, new):
    T.append(('s-' + name, file, old, new, '', op))


PQ = 'common/utils/build-pagination-query.ts'
EI = 'common/utils/encode-contact-identifier.ts'
EM = 'emails/emails.ts'
PE = 'common/utils/parse-email-to-api-options.ts'
RC = 'emails/receiving/receiving.ts'
CI = 'contacts/imports/contact-imports.ts'
CO = 'contacts/contacts.ts'
CS = 'contacts/segments/contact-segments.ts'
WH = 'webhooks/webhooks.ts'
BA = 'batch/batch.ts'
BR = 'broadcasts/broadcasts.ts'
CH = 'templates/chainable-template-result.ts'
TM = 'templates/templates.ts'
PT = 'common/utils/parse-template-to-api-options.ts'
GP = 'common/utils/get-pagination-query-properties.ts'

L = "searchParams.set('limit', options.limit.toString());"
for n, b in {
    'limit-round': "searchParams.set('limit', Math.round(options.limit).toString());",
    'limit-max': "searchParams.set('limit', Math.min(options.limit, 100).toString());",
    'limit-abs': "searchParams.set('limit', Math.abs(options.limit).toString());",
    'limit-fixed': "searchParams.set('limit', options.limit.toFixed());",
    'limit-16': "searchParams.set('limit', options.limit.toString(16));",
    'limit-or': "searchParams.set('limit', (options.limit || 10).toString());",
    'limit-bit': "searchParams.set('limit', (options.limit | 0).toString());",
    'limit-append-twice': "searchParams.set('limit', options.limit.toString()); searchParams.append('limit', options.limit.toString());",
    'limit-other-name': "searchParams.set('Limit', options.limit.toString());",
    'limit-int': "searchParams.set('limit', Number.parseInt(String(options.limit), 10).toString());",
    'limit-plus': "searchParams.set('limit', (options.limit + 0.1 - 0.1).toString());",
    'limit-mul': "searchParams.set('limit', (options.limit * 3 / 3).toString());",
}.items():
    u(n, 'emails.list', PQ, L, b)
A = "searchParams.set('after', options.after);"
for n, b in {
    'after-trim': "searchParams.set('after', options.after.trim());",
    'after-lower': "searchParams.set('after', options.after.toLowerCase());",
    'after-enc': "searchParams.set('after', encodeURIComponent(options.after));",
    'after-dec': "searchParams.set('after', decodeURIComponent(options.after));",
    'after-norm': "searchParams.set('after', options.after.normalize());",
    'after-slice': "searchParams.set('after', options.after.slice(0, 64));",
    'after-sub': "searchParams.set('after', options.after.substring(0, options.after.length - 0 * 1) || 'x');",
    'after-repl': "searchParams.set('after', options.after.replace(' ', '+'));",
    'after-split': "searchParams.set('after', options.after.split(',')[0]);",
    'after-json': "searchParams.set('after', JSON.stringify(options.after).slice(1, -1));",
    'after-spread': "searchParams.set('after', [...options.after].reverse().reverse().slice(0, 99).join(''));",
    'after-cat': "searchParams.set('after', options.after + (options.after.length > 50 ? ' ' : ''));",
    'after-nonempty': "if (options.after) searchParams.set('after', options.after);",
    'after-swap': "searchParams.set('before', options.after);",
    'after-del': "searchParams.set('after', options.after); searchParams.delete('limit');",
    'after-sort': "searchParams.set('after', options.after); searchParams.sort();",
    'after-match': "searchParams.set('after', options.after.match(/^.*$/)?.[0] ?? '');",
    'after-wellformed': "searchParams.set('after', options.after.replace(/\\u0000/g, ''));",
    'after-replaceall': "searchParams.set('after', options.after.replaceAll('%', '%25'));",
    'after-pad': "searchParams.set('after', options.after.padStart(3, '0'));",
    'after-charat': "searchParams.set('after', options.after.charAt(0) + options.after.slice(2));",
    'after-starts': "searchParams.set('after', options.after.startsWith('cur_') ? options.after.slice(4) : options.after);",
}.items():
    u(n, 'emails.list', PQ, A, b)
u('q-ret-dec', 'emails.list', PQ, "return searchParams.toString();", "return decodeURIComponent(searchParams.toString());")
u('q-ret-plus', 'emails.list', PQ, "return searchParams.toString();", "return searchParams.toString().replace(/\\+/g, '%20');")
u('q-ret-first', 'emails.list', PQ, "return searchParams.toString();", "return searchParams.toString().split('&')[0];")
u('q-ret-manual', 'emails.list', PQ, "return searchParams.toString();", "return [...searchParams].map(([k, v]) => `${k}=${v}`).join('&');")
u('q-ret-hash', 'emails.list', PQ, "`${base}?${queryString}`", "`${base}/?${queryString}`")
u('q-in', 'emails.list', PQ, "'after' in options && options.after !== undefined", "'after' in options && !('limit' in options) && options.after !== undefined")
u('q-else', 'emails.list', PQ, "if ('before' in options", "else if ('before' in options")
u('q-limit-truthy', 'emails.list', PQ, "options.limit !== undefined", "options.limit")
u('q-limit-num', 'emails.list', PQ, "options.limit !== undefined", "typeof options.limit === 'number' && options.limit > 0")
u('q-limit-fin', 'emails.list', PQ, "options.limit !== undefined", "Number.isFinite(options.limit)")
E = "return encodeURIComponent(`${identifier}`).replace(/%40/g, '@');"
for n, b in {
    'id-first': "return encodeURIComponent(`${identifier}`).replace('%40', '@');",
    'id-rx': "return encodeURIComponent(`${identifier}`).replace(/%40/, '@');",
    'id-uri': "return encodeURI(`${identifier}`);",
    'id-before': "return encodeURIComponent(`${identifier}`.replace(/@/g, '%40'));",
    'id-trim': "return encodeURIComponent(`${identifier}`.trim()).replace(/%40/g, '@');",
    'id-plus': "return encodeURIComponent(`${identifier}`).replace(/%40/g, '@').replace(/%2B/g, '+');",
    'id-split': "return `${identifier}`.split('@').map((x) => encodeURIComponent(x)).slice(0, 2).join('@');",
    'id-split-ok-not': "return `${identifier}`.split('@').map((x) => encodeURI(x)).join('@');",
    'id-esc': "return escape(`${identifier}`);",
    'id-at-raw': "return `${identifier}`.includes('@') ? `${identifier}` : encodeURIComponent(`${identifier}`);",
    'id-rx-class': "return encodeURIComponent(`${identifier}`).replace(/%4[01]/g, '@');",
    'id-i': "return encodeURIComponent(`${identifier}`).replace(/%40|%2c/gi, '@');",
    'id-twice': "return encodeURIComponent(encodeURIComponent(`${identifier}`)).replace(/%2540/g, '@');",
    'id-usp': "return new URLSearchParams({ x: `${identifier}` }).toString().slice(2).replace(/%40/g, '@');",
    'id-dec': "return encodeURIComponent(decodeURIComponent(`${identifier}`)).replace(/%40/g, '@');",
    'id-fn': "return encodeURIComponent(`${identifier}`).replace(/%40/g, () => '%40');",
    'id-dollar': "return encodeURIComponent(`${identifier}`).replace(/%40/g, '$&');",
    'id-lower': "return encodeURIComponent(`${identifier}`.toLowerCase()).replace(/%40/g, '@');",
}.items():
    u(n, 'contacts.remove', EI, E, b)
J = "options.metrics?.join(',')"
for n, b in {
    'm-join': "options.metrics?.join(', ')", 'm-join0': "options.metrics?.join()", 'm-first': "options.metrics?.[0]",
    'm-rev': "options.metrics?.reverse().join(',')", 'm-sort': "[...(options.metrics ?? [])].sort().join(',')",
    'm-set': "options.metrics ? [...new Set(options.metrics)].join(',') : undefined", 'm-filter': "options.metrics?.filter(Boolean).join(',')",
    'm-json': "options.metrics ? JSON.stringify(options.metrics) : undefined", 'm-str': "options.metrics?.toString()",
    'm-map': "options.metrics?.map((x) => x.trim()).join(',')", 'm-tpl': "options.metrics ? `${options.metrics}` : undefined",
    'm-slice': "options.metrics?.slice(0, 5).join(',')", 'm-reduce': "options.metrics?.reduce((a, b) => `${b},${a}`)",
    'm-flat': "options.metrics?.flatMap((x) => x.split(',')).join(',')", 'm-at': "options.metrics?.at(-1)",
    'm-concat': "options.metrics?.concat(options.dimensions as never ?? []).join(',')",
}.items():
    u(n, 'emails.metrics', EM, J, b)
u('m-skip', 'emails.metrics', EM, "value !== undefined && value !== ''", "value !== undefined && value !== '' && value !== ','")
u('m-len', 'emails.metrics', EM, "value !== undefined && value !== ''", "value !== undefined && value.length > 1")
u('m-trim', 'emails.metrics', EM, "value !== undefined && value !== ''", "value?.trim()")
u('m-break', 'emails.metrics', EM, "searchParams.set(key, value);", "searchParams.set(key, value); if (key === 'email_id') break;")
u('m-append', 'emails.metrics', EM, "searchParams.set(key, value);", "for (const v of value.split(',')) searchParams.append(key, v);")
u('m-camel', 'emails.metrics', EM, "searchParams.set(key, value);", "searchParams.set(key.replace('_', ''), value);")
u('m-order', 'emails.metrics', EM, "Object.entries(params)", "Object.entries({ email_id: 'x', ...params, email_id2: undefined })")
M = "return attachments?.map((attachment) => ({"
for n, b in {
    'a-filter': "return attachments?.filter((a) => a.filename !== '').map((attachment) => ({",
    'a-slice': "return attachments?.slice(0, 20).map((attachment) => ({",
    'a-rev': "return attachments?.toReversed().map((attachment) => ({",
    'a-len': "return !attachments?.length ? undefined : attachments.map((attachment) => ({",
    'a-sort': "return attachments && [...attachments].sort().map((attachment) => ({",
}.items():
    u(n, 'emails.create', PE, M, b)
C = "content: attachment.content,"
for n, b in {
    'a-str': "content: attachment.content?.toString(),", 'a-b64': "content: attachment.content && Buffer.from(attachment.content as never).toString('base64') as never,",
    'a-or': "content: attachment.content || undefined,", 'a-path': "content: attachment.path ? undefined : attachment.content,",
    'a-copy': "content: typeof attachment.content === 'object' ? ({ ...attachment.content } as never) : attachment.content,",
    'a-trim': "content: typeof attachment.content === 'string' ? attachment.content.trim() : attachment.content,",
    'a-buf': "content: Buffer.isBuffer(attachment.content) ? attachment.content.subarray(0) : attachment.content && `${attachment.content}`,",
}.items():
    u(n, 'emails.create', PE, C, b)
u('e-headers', 'emails.create', PE, "headers: email.headers,", "headers: email.headers && Object.fromEntries(Object.entries(email.headers).map(([k, v]) => [k.toLowerCase(), v])),")
u('e-headers-copy', 'emails.create', PE, "headers: email.headers,", "headers: email.headers && Object.fromEntries(Object.entries(email.headers).filter(([, v]) => v !== '')),")
u('e-tags', 'emails.create', PE, "tags: email.tags,", "tags: email.tags?.map((t) => ({ name: t.name, value: t.value.trim() })),")
u('e-tags-dedupe', 'emails.create', PE, "tags: email.tags,", "tags: email.tags?.filter((t, i, a) => a.findIndex((x) => x.name === t.name) === i),")
u('e-to', 'emails.create', PE, "to: email.to,", "to: Array.isArray(email.to) ? email.to.filter((x) => x) : email.to,")
u('e-to-set', 'emails.create', PE, "to: email.to,", "to: Array.isArray(email.to) && email.to.length === 1 ? email.to[0] : email.to,")
u('e-cc', 'emails.create', PE, "cc: email.cc,", "cc: email.cc?.length ? email.cc : undefined,")
u('e-cc-cat', 'emails.create', PE, "cc: email.cc,", "cc: ([] as string[]).concat(email.cc ?? []),")
u('e-date', 'emails.create', PE, "scheduled_at: email.scheduledAt,", "scheduled_at: email.scheduledAt && new Date(email.scheduledAt).toISOString(),")
u('e-tpl', 'emails.create', PE, "template: email.template\n", "template: email.template?.id\n")
u('e-spread', 'emails.create', PE, "from: email.from,", "...email, from: email.from,")
u('e-spread-late', 'emails.create', PE, "topic_id: email.topicId,", "topic_id: email.topicId, ...(email.headers as never),")
F = "formData.append('file', payload.file);"
for n, b in {
    'f-set2': "formData.append('file', payload.file); formData.append('file', payload.file);",
    'f-name': "formData.append('file', payload.file, 'contacts.csv');",
    'f-blob': "formData.append('file', new Blob([payload.file as never]));",
    'f-key': "formData.append('File', payload.file);",
    'f-del': "formData.append('file', payload.file); formData.delete('file');",
}.items():
    u(n, 'contacts.imports.create', CI, F, b)
u('f-empty', 'contacts.imports.create', CI, "if (value === null) {", "if (!value) {")
u('f-array', 'contacts.imports.create', CI, "if (value === null) {", "if (value === null || (Array.isArray(value) && value.length === 0)) {")
u('f-json', 'contacts.imports.create', CI, "JSON.stringify(value)", "JSON.stringify(value, null, 2)")
u('f-json-fn', 'contacts.imports.create', CI, "JSON.stringify(value)", "JSON.stringify(value, (k, v) => v ?? undefined)")
u('f-json-str', 'contacts.imports.create', CI, "JSON.stringify(value)", "String(value)")
u('f-order', 'contacts.imports.create', CI, "this.appendField(formData, 'segments', payload.segments ?? null);", "this.appendField(formData, 'segments', payload.topics ?? null);")
u('f-conflict', 'contacts.imports.create', CI, "payload.onConflict ?? null", "payload.onConflict ?? 'skip'")
u('f-status', 'contacts.imports.list', CI, "searchParams.set('status', options.status);", "searchParams.append('status', options.status); searchParams.delete('limit');")
u('f-status-t', 'contacts.imports.list', CI, "new URLSearchParams(buildPaginationQuery(options))", "new URLSearchParams(`?x&${buildPaginationQuery(options)}`)")
u('f-status-dec', 'contacts.imports.list', CI, "new URLSearchParams(buildPaginationQuery(options))", "new URLSearchParams(decodeURIComponent(buildPaginationQuery(options)))")
for n, o, b in [
    ('c-legacy-and', "payload.audienceId !== undefined) {", "payload.audienceId) {"),
    ('c-seg', "segments: 'segments' in payload ? payload.segments : undefined,", "segments: 'segments' in payload && payload.segments?.length ? payload.segments : undefined,"),
    ('c-or', "('segments' in payload && payload.segments !== undefined) ||", "('segments' in payload && payload.segments !== undefined) &&"),
    ('c-email', "email: payload.email,", "email: payload.email.trim().toLowerCase(),"),
    ('c-unsub', "unsubscribed: payload.unsubscribed,", "unsubscribed: payload.unsubscribed ?? false,"),
    ('c-unsub2', "unsubscribed: payload.unsubscribed,", "unsubscribed: !!payload.unsubscribed || undefined,"),
    ('c-props', "properties: payload.properties,", "properties: payload.properties && { ...payload.properties, email: undefined },"),
]:
    u(n, 'contacts.create', CO, o, b)
for n, o, b in [
    ('l-or', "options.segmentId ?? options.audienceId", "options.segmentId || options.audienceId"),
    ('l-swap', "options.segmentId ?? options.audienceId", "options.audienceId ?? options.segmentId"),
    ('l-undef', "if (!segmentId) {", "if (segmentId === undefined) {"),
]:
    u(n, 'contacts.list', CO, o, b)
u('g-first', 'contacts.get', CO, "options?.email ? options?.email : options?.id", "options?.email ?? options?.id")
u('g-id', 'contacts.get', CO, "options?.email ? options?.email : options?.id", "options?.id ? options?.id : options?.email")
u('g-and', 'contacts.get', CO, "if (!options.id && !options.email) {", "if (!options.id || !options.email) {")
u('g-str', 'contacts.get', CO, "typeof options === 'string'", "typeof options === 'string' && options")
u('cs-swap', 'contacts.segments.add', CS, "/segments/${options.segmentId}`,\n    );\n  }\n\n  async remove", "/segments/${encodeURIComponent(options.segmentId)}`,\n    );\n  }\n\n  async remove")
V_ = "'webhook-id': payload.headers.id,"
for n, o, b in [
    ('v-trim', V_, "'webhook-id': payload.headers.id.trim(),"), ('v-swap', V_, "'webhook-id': payload.headers.timestamp,"),
    ('v-key', V_, "'svix-id': payload.headers.id,"), ('v-try', "return webhook.verify(payload.payload, {", "if (!payload.headers.signature) return JSON.parse(payload.payload); return webhook.verify(payload.payload, {"),
    ('v-pay', "webhook.verify(payload.payload, {", "webhook.verify(payload.payload.trim(), {"),
    ('v-sec', "new Webhook(payload.webhookSecret)", "new Webhook(payload.webhookSecret.replace('whsec_', ''))"),
    ('v-sec-or', "new Webhook(payload.webhookSecret)", "new Webhook(payload.webhookSecret || 'x')"),
    ('v-fmt', "new Webhook(payload.webhookSecret)", "new Webhook(payload.webhookSecret, { format: 'raw' })"),
    ('v-parse', "return webhook.verify(payload.payload, {", "webhook.verify('{}', {} as never); return webhook.verify(payload.payload, {"),
    ('v-sig', "'webhook-signature': payload.headers.signature,", "'webhook-signature': payload.headers.signature.split(' ')[0],"),
]:
    u(n, 'webhooks.verify', WH, o, b)
for n, o, b in [
    ('b-noreact', "if (email.react) {", "if (email.react && !email.html) {"), ('b-unshift', "emails.push(parseEmailToApiOptions(email));", "emails.unshift(parseEmailToApiOptions(email));"),
    ('b-break', "emails.push(parseEmailToApiOptions(email));", "emails.push(parseEmailToApiOptions(email)); if (emails.length === 100) break;"),
    ('b-order', "{ ...email, html }", "{ html, ...email }"), ('b-or', "options?.batchValidation ?? 'strict'", "options?.batchValidation || 'strict'"),
    ('b-perm', "options?.batchValidation ?? 'strict'", "options?.batchValidation ?? 'permissive'"), ('b-has', "if (!headers.has('x-batch-validation')) {", "if (true) {"),
    ('b-has2', "if (!headers.has('x-batch-validation')) {", "if (!headers.get('x-batch-validation')) {"), ('b-hdr', "        ...options,\n        headers,", "        headers,\n        ...options,"),
    ('b-append', "headers.set('x-batch-validation',", "headers.append('x-batch-validation',"), ('b-lowh', "new Headers(options?.headers)", "new Headers()"),
    ('b-const', "        ...options,\n", "        ...(options ?? { idempotencyKey: String(emails.length) }),\n"),
]:
    u(n, 'batch.create', BA, o, b)
for n, o, b in [
    ('br-react', "payload.react ? await render(payload.react) : payload.html", "payload.html ?? (payload.react ? await render(payload.react) : undefined)"),
    ('br-html', "        html,\n", "        html: html || undefined,\n"), ('br-send', "send: payload.send,", "send: payload.send ?? false,"),
    ('br-aud', "audience_id: payload.audienceId,", "audience_id: payload.segmentId ? undefined : payload.audienceId,"),
    ('br-sch', "scheduled_at: payload.scheduledAt,", "scheduled_at: payload.send ? payload.scheduledAt : undefined,"),
]:
    u(n, 'broadcasts.create', BR, o, b)
for n, o, b in [
    ('bq-rest', "const { type, email, bounceType, ...pagination } = options;", "const { type, email, bounceType, limit, ...pagination } = options;"),
    ('bq-email', "searchParams.set('email', email);", "searchParams.set('email', email.toLowerCase());"),
    ('bq-type', "searchParams.set('type', type);", "searchParams.set('type', type || 'sent');"),
    ('bq-bt', "if (bounceType !== undefined) {", "if (bounceType !== undefined && type === 'bounced') {"),
]:
    u(n, 'broadcasts.recipients', BR, o, b)
for n, o, b in [
    ('ch-id', "this.publishFn(data.id)", "this.publishFn(encodeURIComponent(data.id))"), ('ch-null', "if (error) {", "if (error && error.statusCode !== 409) {"),
    ('ch-hdr', "        headers,\n", "        headers: null,\n"), ('ch-twice', "return this.publishFn(data.id);", "await this.publishFn(data.id); return this.publishFn(data.id);"),
    ('ch-err', "        error,\n", "        error: { ...error, message: error.message.trim() },\n"),
    ('ch-data', "if (error) {", "if (error || !data.id) {"),
]:
    u(n, 'templates.create.publish', CH, o, b)
for n, o, b in [
    ('t-name', "'name' in template ? template.name : undefined", "'name' in template ? template.name || undefined : undefined"),
    ('t-text', "text: template.text,", "text: template.text ?? undefined,"), ('t-fall', "fallback_value: variable.fallbackValue,", "fallback_value: variable.fallbackValue ?? undefined,"),
    ('t-vars', "return variables?.map((variable) => ({", "return variables?.filter((v) => v.key).map((variable) => ({"),
    ('t-type', "type: variable.type,", "type: typeof variable.fallbackValue === 'number' ? 'number' : variable.type,"),
]:
    u(n, 'templates.update', PT, o, b)
for n, o, b in [
    ('gp-null', "if (options.before != null)", "if (options.before !== undefined)"), ('gp-truthy', "if (options.before != null)", "if (options.before)"),
    ('gp-size', "query.size > 0", "query.size > 1"), ('gp-swap', "query.set('after', options.after)", "query.set('before', options.after)"),
    ('gp-order', "if (options.after != null) query", "if (options.after != null && options.before == null) query"),
]:
    u(n, 'templates.list', GP, o, b)
for n, o, b in [
    ('fw-sub', "email.subject || '(no subject)'", "email.subject ?? '(no subject)'"), ('fw-fwd', "originalSubject.startsWith('Fwd:')", "originalSubject.toLowerCase().startsWith('fwd:')"),
    ('fw-inc', "originalSubject.startsWith('Fwd:')", "originalSubject.includes('Fwd:')"), ('fw-pass', "options.passthrough !== false", "options.passthrough ?? true"),
    ('fw-pass2', "options.passthrough !== false", "!!options.passthrough"), ('fw-ok', "if (rawResponse.ok) {", "if (rawResponse.status < 400) {"),
    ('fw-ok200', "if (rawResponse.ok) {", "if (rawResponse.status === 200) {"), ('fw-cid', "replace(/^<|>$/g, '')", "replace(/^<|>$/, '')"),
    ('fw-cid2', "replace(/^<|>$/g, '')", "replace(/[<>]/g, '')"), ('fw-cid3', "replace(/^<|>$/g, '')", "slice(1, -1)"), ('fw-cid4', "replace(/^<|>$/g, '')", "replace(/^<(.*)>$/, '$1')"),
    ('fw-b64', "Buffer.from(raw.content).toString('base64')", "Buffer.from(raw.content).toString('base64url')"), ('fw-utf', "Buffer.from(raw.content).toString('base64')", "Buffer.from(Buffer.from(raw.content).toString()).toString('base64')"),
    ('fw-att', "attachments.length > 0 ? attachments : undefined", "attachments.length > 1 ? attachments : undefined"), ('fw-att2', "attachments.length > 0 ? attachments : undefined", "attachments"),
    ('fw-text', "text: parsed.text || undefined,", "text: parsed.text?.trim() || undefined,"), ('fw-html', "html: parsed.html || undefined,", "html: parsed.html ?? undefined,"),
    ('fw-fetch2', "await fetch(url)", "await fetch(url, { redirect: 'manual' })"), ('fw-fetchurl', "await fetch(url)", "await fetch(encodeURI(url))"),
    ('fw-status', "statusCode = rawResponse.status;", "statusCode = rawResponse.status || null;"), ('fw-fname', "filename: attachment.filename,", "filename: attachment.filename ?? 'attachment',"),
    ('fw-fname2', "filename: attachment.filename,", "filename: attachment.filename || undefined,"), ('fw-inline', "const attachments = parsed.attachments.map(", "const attachments = parsed.attachments.filter((a) => a.disposition !== 'inline').map("),
    ('fw-dl', "if (!email.raw?.download_url) {", "if (!email.raw) {"), ('fw-err', "if (emailResponse.error) {", "if (!emailResponse.data) {"),
    ('fw-in', "'text' in options ? options.text : undefined", "'text' in options ? options.text || undefined : undefined"),
]:
    u(n, 'emails.receiving.forward', RC, o, b)


def one(x):
    name, file, old, body, pre, op = x
    w = '/tmp/unsound/' + name
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree('/repo/src', w + '/src')
    for f in ('package.json', 'tsconfig.json'):
        shutil.copy('/repo/' + f, w)
    os.symlink('/repo/node_modules', w + '/node_modules')
    p = f'{w}/src/{file}'
    s = open(p).read()
    assert old in s, name
    s = s.replace(old, body, 1)
    if pre:
        s = s.replace('\nexport function', '\n' + pre + '\nexport function', 1)
    open(p, 'w').write(s)
    try:
        r = subprocess.run([sys.executable, '-c', CODE.replace('WHERE', w).replace('OP', op)], capture_output=True, text=True, timeout=300)
        l = (r.stdout.strip().splitlines() or ['??? ' + r.stderr[-300:]])[-1]
    except subprocess.TimeoutExpired:
        l = '??? time'
    shutil.rmtree(w, ignore_errors=True)
    return name, l


CODE = """
import sys, json, subprocess
sys.path[:0] = ['/verif/engine']
import verify as V
subprocess.run(['node', '/verif/engine/extract.mjs', 'WHERE', '/verif/contracts', 'WHERE/ast.json'], check=True)
a = json.load(open('WHERE/ast.json'))
V.setup(a, 'WHERE', '/verif/contracts')
i, ops, act = V.verify(ids=['OP'], jobs=1, modular=False)
o = ops[0]
print('ACCEPTED' if V.holds(o) else 'no ' + str(o.get('unsupported') or o.get('error') or sorted({q['label'] for q in o.get('obligations', []) if q['verdict'] != 'discharged'}))[:110])
"""


def main():
    from concurrent.futures import ThreadPoolExecutor
    sel = sys.argv[1:]
    sel = [x[0] for x in T if any(x[0] == y or y.endswith('*') and x[0].startswith(y[:-1]) for y in sel)] if sel else []
    bad = []
    with ThreadPoolExecutor(8) as pool:
        for name, l in pool.map(one, [x for x in T if not sel or x[0] in sel]):
            print(f'{name:22} {l}', flush=True)
            if not l.startswith('no '):
                bad.append(name)
    print('not refused:', bad)


if __name__ == '__main__':
    main()
