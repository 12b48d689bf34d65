"""Random expressions and statements at chosen places of the source: mutants for
mutation_run.py that exercise the verifier's semantics (a mutant the verifier accepts
and an execution rejects is a soundness bug of the verifier).
  python3 tools/exprfuzz.py N SEED OUT.json"""
import json
import random
import sys

R = random.Random(int(sys.argv[2]))
P = R.choice
STRS = ["'a'", "''", "'Fwd:'", "'x'", "' '", "','", "'@'", "'id'", "'name'", "'2'", "'error'", "'message'", "'html'"]
NUMS = ['0', '1', '2', '3', '100', '-1', '4', '422', '500', '200']


def ch(p):
    return R.random() < p


# typed expressions: kinds str, optstr, num, arr(str), arr(obj), rec, json, bool
def boolean(v, k, d):
    """A condition about v of kind k."""
    if d <= 0:
        return P([f'{v}', f'!{v}', f'{v} === undefined', f'{v} == null', f"typeof {v} === 'string'", f'!!{v}'])
    o = []
    if k in ('str', 'optstr'):
        q = '?.' if k == 'optstr' else '.'
        o = [f'{v}{q}startsWith({P(STRS)})', f'{v}{q}includes({P(STRS)})', f'{v}{q}endsWith({P(STRS)})', f'({v}{q}length ?? 0) > {P(NUMS)}', f'{v} === {P(STRS)}', f'{v} > {P(STRS)}',
             f'{v}{q}indexOf({P(STRS)}) === {P(NUMS)}', f'/{P(["^a", "x$", "[0-9]", "@", "^Fwd", "."])}/.test({v} ?? "")', f'[{P(STRS)}, {P(STRS)}].includes({v} as any)']
    if k == 'strarr':       # string | string[] | undefined
        o = [f'Array.isArray({v})', f'Array.isArray({v}) && {v}.length {P(["===", ">", "<", ">="])} {P(NUMS)}', f"typeof {v} === 'string'", f'Array.isArray({v}) && {v}.some((q) => {boolean("q", "str", d - 1)})',
             f'Array.isArray({v}) && {v}.every((q) => {boolean("q", "str", d - 1)})', f'Array.isArray({v}) && {v}.includes({P(STRS)})', f'!Array.isArray({v})', f'{v}?.length === {P(NUMS)}']
    if k == 'objarr':
        o = [f'({v}?.length ?? 0) > {P(NUMS)}', f'{v}?.some((q: any) => {boolean("q.name", "str", d - 1)})', f'{v}?.every((q: any) => {boolean("q.value", "str", d - 1)})', f'{v}?.length === {P(NUMS)}', f'!{v}?.length']
    if k == 'rec':
        o = [f'{v} && Object.keys({v}).length === 0', f'{v} && {P(STRS)} in {v}', f'{v}?.[{P(STRS)}] !== undefined', f'{v} && Object.keys({v}).length > {P(NUMS)}', f'{v}?.{P(["a", "name", "id"])}']
    if k == 'json':
        o = [f"typeof {v} === 'object'", f'Array.isArray({v})', f"{v} && typeof {v} === 'object' && {P(STRS)} in {v}", f'{v}?.{P(["error", "message", "id", "name", "a"])}', f'{v}?.{P(["id", "statusCode", "name"])} === {P(STRS + NUMS)}', f'{v} === null',
             f'Array.isArray({v}) && {v}.length === {P(NUMS)}', f"typeof {v}?.{P(['message', 'id', 'data'])} === {P(STRS + chr(39).join(['', 'string', '']).split('|'))}", f'{v}?.data?.{P(["id", "name"])}', f"{v} instanceof Object"]
    if k == 'num':
        o = [f'{v} {P(["===", ">", "<", ">=", "<=", "!=="])} {P(NUMS)}', f'{v} % 2 === 0', f'Number.isInteger({v})', f'!{v}', f'{v} + 1 > {P(NUMS)}']
    if k == 'optnum':
        o = [f'{v} === {P(NUMS)}', f'({v} ?? 0) > {P(NUMS)}', f'{v} == null', f'!{v}', f'Number({v}) > {P(NUMS)}']
    o += [f'!({boolean(v, k, d - 1)})', f'({boolean(v, k, d - 1)}) && ({boolean(v, k, d - 1)})', f'({boolean(v, k, d - 1)}) || ({boolean(v, k, d - 1)})', f'({boolean(v, k, d - 1)}) ? ({boolean(v, k, d - 1)}) : ({boolean(v, k, d - 1)})']
    return P(o)


def expr(v, k, d):
    """An expression often equal to v."""
    if d <= 0:
        return v
    e = lambda: expr(v, k, d - 1)
    c = lambda: boolean(v, k, 2)
    o = [e, lambda: f'({c()} ? {e()} : {e()})', lambda: f'({c()} ? {e()} : {v})', lambda: f'({v} ?? {e()})', lambda: f'({v} || {e()})', lambda: f'({v} && {e()})', lambda: f'((q: any) => {expr("q", k, d - 1)})({e()})',
         lambda: f'[{e()}][0]', lambda: f'[{e()}, {v}][{P("01")}]', lambda: f'({{ w: {e()} }}).w', lambda: f'(({{ w = {e()} }}: any) => w)({{ w: {v} }})', lambda: f'[{e()}].find((q: any) => {boolean("q", k, 1)})',
         lambda: f'[{e()}, {e()}].filter((q: any) => {boolean("q", k, 1)})[0]', lambda: f'[{v}].map((q: any) => {expr("q", k, d - 1)})[0]', lambda: f'Object.values({{ w: {e()} }})[0]', lambda: f'(() => {{ if ({c()}) return {e()}; return {e()}; }})()',
         lambda: f'(() => {{ let w: any = {e()}; if ({c()}) w = {e()}; return w; }})()', lambda: f'(() => {{ try {{ if ({c()}) throw new Error("x"); return {e()}; }} catch {{ return {e()}; }} }})()',
         lambda: f'(() => {{ switch (true) {{ case {boolean(v, k, 1)} as boolean: return {e()}; default: return {e()}; }} }})()', lambda: f'(() => {{ for (const q of [{v}, {e()}]) {{ if ({boolean("q", k, 1)}) return q; }} return {e()}; }})()']
    if k == 'optstr':
        o += [lambda: f'{v}?.replace({P(STRS)}, {P(STRS)})', lambda: f'{v}?.trim()', lambda: f'{v}?.slice({P("01")})', lambda: f'({v} === undefined ? undefined : `${{{v}}}`)', lambda: f'{v}?.concat("")', lambda: f'{v}?.split({P(STRS)}).join({P(STRS)})',
              lambda: f'{v}?.toLowerCase()', lambda: f'{v}?.replace(/{P(["^a", "x", "@.*$"])}/{P(["", "g"])}, {P(STRS)})', lambda: f'({v} && {v} + {P(STRS)})', lambda: f'JSON.parse(JSON.stringify({v} ?? null)) ?? undefined', lambda: f'{v}?.toString()', lambda: f'({v} === undefined ? {v} : String({v}))',
              lambda: f'{v}?.split("").join("")', lambda: f'{v}?.substring(0)', lambda: f'{v}?.padEnd(1)', lambda: f'({v} && [...{v}].join(""))']
    if k == 'strarr':
        A = lambda x: f'(Array.isArray({v}) ? {x} : {v})'
        o += [lambda: A(f'{v}.filter((q) => {boolean("q", "str", 1)})'), lambda: A(f'{v}.map((q) => {expr("q", "optstr", d - 1)})'), lambda: A(f'[...{v}]'), lambda: A(f'{v}.slice({P(["", "0", "1", "0, 2"])})'), lambda: A(f'{v}.concat([])'),
              lambda: A(f'{v}.length === 1 ? {v}[0] : {v}'), lambda: A(f'[...{v}, ...[]]'), lambda: A(f'Array.from({v})'), lambda: A(f'{v}.flatMap((q) => {P(["[q]", "q ? [q] : []", "[q, q]", "q"])})'), lambda: A(f'{v}.reduce((w: string[], q) => {P(["[...w, q]", "w.concat(q)", "q ? [...w, q] : w", "[q, ...w]"])}, [])'),
              lambda: A(f'{v}.filter(Boolean)'), lambda: A(f'[...new Set({v})]'), lambda: A(f'{v}.filter((q, i) => {P(["i < 3", "i >= 0", "i % 2 === 0", "i !== 1"])})'), lambda: A(f'(() => {{ const w: string[] = []; for (const q of {v}) {{ if ({boolean("q", "str", 1)}) {P(["continue", "break"])}; w.push(q); }} return w; }})()'),
              lambda: A(f'(() => {{ const w: string[] = []; {v}.forEach((q, i) => {{ if ({P(["w.length < 2", "!w.includes(q)", "i >= 0", "q"])}) w.push(q); }}); return w; }})()'), lambda: f'({v} === undefined ? {v} : [{v}].flat())', lambda: A(f'(([h, ...t]) => {P(["[h, ...t]", "t", "[h]"])})({v})'),
              lambda: A(f'(() => {{ const w: string[] = []; let n = 0; for (const q of {v}) {{ n{P(["++", " += 1", " += 2"])}; if (n {P([">", "<"])} {P("0123")}) w.push(q); }} return w; }})()'), lambda: A(f'(() => {{ const w: string[] = []; for (let i = 0; i < {v}.length; i++) {P(["w.push({0}[i])", "w[i] = {0}[i]", "if (i) w.push({0}[i])"]).replace("{0}", v)}; return w; }})()'),
              lambda: A(f'(() => {{ const w = [...{v}]; {P(["w.reverse()", "w.sort()", "w.length = 1", "w.push(...[])", "w.shift()", "w.pop()", "w.splice(0, 0)"])}; return w; }})()')]
    if k == 'objarr':
        o += [lambda: f'{v}?.map((q: any) => ({P(["{ ...q }", "q", "{ name: q.name, value: q.value }", "{ value: q.value, name: q.name }", "({ name, value }: any) => ({ name, value })", "q.name ? q : { ...q, name: undefined }", "Object.assign({}, q)", "{ ...q, name: q.name || undefined }", "{ name: q.value, value: q.name }"])}))',
              lambda: f'{v}?.filter((q: any) => {boolean("q.name", "str", 1)})', lambda: f'({v} && [...{v}])', lambda: f'({v}?.length ? {v} : undefined)', lambda: f'{v}?.filter((q: any, i: number, w: any[]) => {P(["w.findIndex((z) => z.name === q.name) === i", "w.indexOf(q) === i", "i < w.length", "w[i] === q"])})',
              lambda: f'{v}?.slice()', lambda: f'({v} && JSON.parse(JSON.stringify({v})))', lambda: f'({v} && structuredClone({v}))', lambda: f'{v}?.concat()', lambda: f'{v}?.reduce((w: any[], q: any) => {P(["[...w, q]", "(w.push(q), w)", "w.some((z) => z.name === q.name) ? w : [...w, q]"])}, [])']
    if k == 'rec':
        o += [lambda: f'({v} && {{ ...{v} }})', lambda: f'({v} && Object.fromEntries(Object.entries({v}){P(["", ".filter(([, q]) => q !== undefined)", ".map(([w, q]) => [w, q])", ".filter(([w]) => w)"])}))', lambda: f'({v} && Object.assign({{}}, {v}))', lambda: f'({v} && {{ ...{v}, {P(["a", "name"])}: {P(["undefined", v + ".a as any"])} }})',
              lambda: f'({v} && Object.keys({v}).reduce((w: any, q) => ({{ ...w, [q]: ({v} as any)[q] }}), {{}}))', lambda: f'({v} && (({{ a, ...q }}: any) => ({P(["q", "{ a, ...q }", "a === undefined ? q : { ...q, a }"])}))({v}))', lambda: f'({v} && JSON.parse(JSON.stringify({v})))']
    if k == 'json':
        o += [lambda: f'({v} && typeof {v} === "object" && !Array.isArray({v}) ? {{ ...{v} }} : {v})', lambda: f'(Array.isArray({v}) ? [...{v}] : {v})', lambda: f'({v}?.data ?? {v})', lambda: f'structuredClone({v})', lambda: f'JSON.parse(JSON.stringify({v}))', lambda: f'(Array.isArray({v}) ? {v}.map((q: any) => {P(["q", "({ ...q })"])}) : {v})',
              lambda: f'({v} && typeof {v} === "object" ? Object.assign({P(["{}", v])}, {v}) : {v})', lambda: f'(Array.isArray({v}) && {v}.length === 1 ? {v}[0] : {v})', lambda: f'({v}?.{P(["error", "message", "data", "id"])} ? {e()} : {v})']
    if k in ('num', 'optnum'):
        o += [lambda: f'Math.min({v} as number, {P(NUMS)})', lambda: f'Math.max({v} as number, {P(NUMS)})', lambda: f'({v} as number) + {P(NUMS)}', lambda: f'Number({v})', lambda: f'+({v} as number)', lambda: f'({v} as number) * 1', lambda: f'Math.floor({v} as number)', lambda: f'Number.parseInt(String({v}), 10)']
    return P(o)()


EM = 'src/common/utils/parse-email-to-api-options.ts'
PG = 'src/common/utils/build-pagination-query.ts'
AU = 'src/common/utils/parse-automation-to-api-options.ts'
RC = 'src/emails/receiving/receiving.ts'
RX = 'src/resend.ts'
BA = 'src/batch/batch.ts'
CI = 'src/contacts/imports/contact-imports.ts'
CP = 'src/common/utils/parse-contact-properties-to-api-options.ts'


def field(f, old, v, k, ops, pre='', post=''):
    return (f, old, lambda: pre + expr(v, k, R.randint(1, 3)) + post, ops)


ES = ['emails.send']
SITES = [
    field(EM, 'to: email.to', 'email.to', 'strarr', ES, 'to: ', ' as any'), field(EM, 'cc: email.cc', 'email.cc', 'strarr', ES, 'cc: ', ' as any'),
    field(EM, 'subject: email.subject', 'email.subject', 'optstr', ES, 'subject: ', ' as any'), field(EM, 'text: email.text', 'email.text', 'optstr', ES, 'text: ', ' as any'),
    field(EM, 'tags: email.tags', 'email.tags', 'objarr', ES, 'tags: ', ' as any'), field(EM, 'headers: email.headers', 'email.headers', 'rec', ES, 'headers: ', ' as any'),
    field(EM, 'filename: attachment.filename', 'attachment.filename', 'optstr', ES, 'filename: ', ' as any'), field(EM, 'variables: email.template.variables', 'email.template.variables', 'rec', ES, 'variables: ', ' as any'),
    field(RX, 'error: parsedError,', 'parsedError', 'json', ['topics.get', 'post'], 'error: ', ','),
    field(RX, '        data,\n        error: null', 'data', 'json', ['topics.get', 'get'], '        data: ', ' as any,\n        error: null'),
    field(RX, '${this.baseUrl}${path}`, options', 'path', 'optstr', ['topics.get', 'get', 'events.get'], '${this.baseUrl}${', '}`, options'),
    (RX, '      if (!response.ok) {', lambda: f'      if ({P(["!response.ok", "response.ok === false", "response.status >= 400", "response.status < 200 || response.status > 299", "!response.ok && response.status !== 304", "Math.floor(response.status / 100) !== 2", "!(response.status >= 200 && response.status < 300)"])} {P(["&&", "||"])} {boolean("response.status", "num", 2)}) {{', ['topics.get', 'post']),
    field(PG, 'options.limit.toString()', 'options.limit', 'num', ['emails.list', 'logs.list'], 'String(', ')'),
    field(PG, "searchParams.set('after', options.after)", 'options.after', 'optstr', ['emails.list', 'contacts.list'], "searchParams.set('after', ", ' as any)'),
    (PG, 'if (options.limit !== undefined) {', lambda: f'if (options.limit !== undefined && ({boolean("options.limit", "optnum", 2)})) {{', ['emails.list']),
    (PG, "return searchParams.toString();", lambda: P(["return [...searchParams].map(([k, v]) => `${k}=${encodeURIComponent(v)}`).join('&');", "return searchParams.size ? searchParams.toString() : '';", "return new URLSearchParams([...searchParams.entries()].filter(([k]) => k !== 'x')).toString();", "return new URLSearchParams(Object.fromEntries(searchParams)).toString();",
        "searchParams.sort(); return searchParams.toString();", "searchParams.delete('before'); return searchParams.toString();", "if (searchParams.has('limit') && searchParams.has('after')) searchParams.set('limit', searchParams.get('limit') as string); return searchParams.toString();", "return searchParams.toString().replace(/%2C/g, ',');", "return `${searchParams}`;"]), ['emails.list', 'contacts.list']),
    (AU, 'steps: automation.steps.map(parseStepConfig)', lambda: f'steps: (automation.steps.map(parseStepConfig) as any[]){P(["", ".filter((q) => " + boolean("q.key", "str", 1) + ")", ".slice()", ".map((q) => ({ ...q }))", ".filter((q) => q.type)", ".concat([])", ".filter((q, i, w) => w.findIndex((z) => z.key === q.key) === i)", ".sort(() => 0)", ".flat()"])}', ['automations.create']),
    (AU, 'event_name: step.config.eventName }', lambda: f'event_name: {expr("step.config.eventName", "optstr", 2)} as any }}', ['automations.create']),
    (AU, 'filter_rule: step.config.filterRule', lambda: f'filter_rule: {expr("step.config.filterRule", "json", 2)} as any', ['automations.create']),
    (AU, 'from: connection.from,', lambda: f'from: {expr("connection.from", "optstr", 2)} as any,', ['automations.create', 'automations.update']),
    field(RC, 'subject: originalSubject,', 'originalSubject', 'optstr', ['emails.receiving.forward'], 'subject: ', ' as any,'),
    field(RC, 'text: parsed.text || undefined', 'parsed.text', 'optstr', ['emails.receiving.forward'], 'text: ', ' as any'),
    field(RC, 'attachments: attachments.length > 0 ? attachments : undefined', 'attachments', 'objarr', ['emails.receiving.forward'], 'attachments: attachments.length > 0 ? ', ' as any : undefined'),
    (BA, '    for (const email of payload) {\n', lambda: '    for (const email of payload as any) {\n' + P(['if (%s) continue;', 'if (%s) break;', 'if (%s) { emails.push(parseEmailToApiOptions(email)); continue; }', 'if (%s && emails.length) continue;', 'if (%s && !emails.includes(email)) continue;', 'if (emails.length > 3 && %s) break;', 'if (emails.some((q: any) => q.subject === email.subject) && %s) continue;']) % boolean('email.subject', 'optstr', 2) + '\n', ['batch.send']),
    (BA, "    const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(\n      '/emails/batch',\n      emails,", lambda: "    const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(\n      '/emails/batch',\n      " + expr('emails', 'objarr', R.randint(1, 2)) + ' as any,', ['batch.send']),
    (BA, "options?.batchValidation ?? 'strict'", lambda: expr('options?.batchValidation', 'optstr', 2) + " as any ?? 'strict'", ['batch.send']),
    (RX, "        headers.set(key, value);\n      }\n    }\n    if (options.idem", lambda: '        ' + P(['if (%s) ', 'if (!headers.has(key) || %s) ', 'if (!headers.has("authorization") || %s) ', 'if (headers.get(key) !== value && %s) ', 'if (%s) continue; ', 'if (%s) break; ']) % boolean(P(['key', 'value']), 'str', 2) + 'headers.set(key, value);\n      }\n    }\n    if (options.idem', ['post', 'topics.create', 'emails.send']),
    (RX, "      body: isFormData ? entity : JSON.stringify(entity),", lambda: f"      body: isFormData ? entity : JSON.stringify({expr('(entity as any)', 'json', 2)}),", ['post', 'domains.create', 'topics.create']),
    (RX, "      body: query === undefined ? undefined : JSON.stringify(query),", lambda: f"      body: query === undefined ? undefined : JSON.stringify({expr('(query as any)', 'json', 2)}),", ['delete', 'topics.remove']),
    (CI, "this.appendField(formData, 'segments', payload.segments ?? null);", lambda: f"this.appendField(formData, 'segments', ({expr('payload.segments', 'objarr', 2)} ?? null) as any);", ['contacts.imports.create']),
    (CI, 'first_name: columnMap.firstName,', lambda: f"first_name: {expr('columnMap.firstName', 'optstr', 2)} as any,", ['contacts.imports.create']),
    (CI, "    if (value === null) {", lambda: f"    if (value === null || ({boolean('(value as any)', 'json', 2)})) {{", ['contacts.imports.create']),
    ('src/contacts/contacts.ts', "const segmentId = options.segmentId ?? options.audienceId;", lambda: f"const segmentId = ({expr('options.segmentId', 'optstr', 2)}) ?? options.audienceId;", ['contacts.list']),
    ('src/contacts/contacts.ts', "        unsubscribed: payload.unsubscribed,\n        email: payload.email,\n        first_name: payload.firstName,\n        last_name: payload.lastName,\n        properties: payload.properties,\n        segments: ", lambda: f"        unsubscribed: payload.unsubscribed,\n        email: payload.email,\n        first_name: {expr('payload.firstName', 'optstr', 2)} as any,\n        last_name: payload.lastName,\n        properties: {expr('payload.properties', 'rec', 2)} as any,\n        segments: ", ['contacts.create']),
    ('src/domains/domains.ts', 'parseDomainToApiOptions(payload)', lambda: expr('parseDomainToApiOptions(payload)', 'rec', 2).replace('parseDomainToApiOptions(payload) && ', ''), ['domains.create']),
    ('src/contact-properties/contact-properties.ts', 'data: response.data.data.map((apiContactProperty) =>', None, None),
]


def main():
    n, out = int(sys.argv[1]), []
    texts = {}
    sites = []
    for f, old, mk, ops in SITES:
        if mk is None:
            continue
        t = texts.setdefault(f, open('/repo/' + f).read())
        if old not in t:
            print('site not found', f, old[:50])
            continue
        sites.append((f, old, mk, ops))
    while len(out) < n:
        f, old, mk, ops = P(sites)
        try:
            new = mk()
        except IndexError:
            continue
        if new == old or len(new) > 600:
            continue
        t = texts[f]
        i = t.index(old)
        u = len(t[:i].encode('utf-16-le')) // 2
        out.append({'file': f, 'start': u, 'end': u + len(old), 'text': new, 'ops': ops, 'kind': 'expr'})
    json.dump(out, open(sys.argv[3], 'w'))


main()
