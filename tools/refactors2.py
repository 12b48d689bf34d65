"""A second batch of behaviour-preserving edits (see refactors.py): less usual constructs."""
S = 'src/'
R2 = {}


def r(name, *edits):
    R2[name] = [(S + f, o, n) for f, o, n in edits]


REP = '''    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
'''
ENT = 'Object.fromEntries(response.headers.entries())'

r('x-hdr-generator', ('resend.ts', 'const defaultBaseUrl', '''function* headerEntries(headers?: HeadersInit): Generator<[string, string]> {
  if (headers) {
    yield* new Headers(headers).entries();
  }
}

const defaultBaseUrl'''), ('resend.ts', REP, '''    for (const [key, value] of headerEntries(options.headers)) {
      headers.set(key, value);
    }
'''))
r('x-hdr-static', ('resend.ts', REP, '    Resend.applyHeaders(headers, options.headers);\n'), ('resend.ts', '  private logError(', '''  private static applyHeaders(target: Headers, source?: HeadersInit): void {
    if (!source) {
      return;
    }
    new Headers(source).forEach((value, key) => {
      target.set(key, value);
    });
  }

  private logError('''))
r('x-hdr-private-hash', ('resend.ts', '    const headers = new Headers(this.headers);\n' + REP, '    const headers = this.#headersFor(options);\n'), ('resend.ts', '  private logError(', '''  #headersFor({ headers: extra }: { headers?: HeadersInit }): Headers {
    const merged = new Headers(this.headers);
    for (const entry of new Headers(extra ?? {})) {
      merged.set(...entry);
    }
    return merged;
  }

  private logError('''))
r('x-hdr-array-from', ('resend.ts', REP, '''    Array.from(new Headers(options.headers ?? [])).forEach(([key, value]) => {
      headers.set(key, value);
    });
'''))
r('x-hdr-keys', ('resend.ts', REP, '''    if (options.headers) {
      const extra = new Headers(options.headers);
      for (const name of extra.keys()) {
        headers.set(name, extra.get(name) as string);
      }
    }
'''))
r('x-hdr-reduce', ('resend.ts', '    const headers = new Headers(this.headers);\n' + REP, '''    const headers = [...new Headers(options.headers ?? {})].reduce((acc, [key, value]) => {
      acc.set(key, value);
      return acc;
    }, new Headers(this.headers));
'''))
r('x-request-common', ('resend.ts', '''    const requestOptions = {
      method: 'PUT',
      body: JSON.stringify(entity),
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);''', "    return this.send<T>('PUT', path, JSON.stringify(entity), options, headers);"), ('resend.ts', '''    const requestOptions = {
      method: 'PATCH',
      body: JSON.stringify(entity),
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);''', "    return this.send<T>('PATCH', path, JSON.stringify(entity), options, headers);"), ('resend.ts', '''    const requestOptions = {
      method: 'GET',
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);''', "    return this.send<T>('GET', path, undefined, options, headers);"), ('resend.ts', '  async fetchRequest<T>', '''  private send<T>(
    method: string,
    path: string,
    body: string | undefined,
    options: object,
    headers: Headers,
  ) {
    const init: Record<string, unknown> = { method };
    if (body !== undefined) {
      init.body = body;
    }
    return this.fetchRequest<T>(path, Object.assign(init, options, { headers }));
  }

  async fetchRequest<T>'''))
r('x-fail-closure', ('resend.ts', '''      const response = await fetch(`${this.baseUrl}${path}`, options);
''', '''      const response = await fetch(`${this.baseUrl}${path}`, options);
      const fail = (error: ErrorResponse) => {
        this.logError(error, path, response.status);
        return {
          data: null,
          error,
          headers: Object.fromEntries(response.headers.entries()),
        };
      };
'''), ('resend.ts', '''          this.logError(parsedError, path, response.status);

          return {
            data: null,
            error: parsedError,
            headers: Object.fromEntries(response.headers.entries()),
          };
''', '          return fail(parsedError);\n'), ('resend.ts', '''            this.logError(error, path, response.status);

            return {
              data: null,
              error,
              headers: Object.fromEntries(response.headers.entries()),
            };
''', '            return fail(error);\n'), ('resend.ts', '''            this.logError(errorWithMessage, path, response.status);

            return {
              data: null,
              error: errorWithMessage,
              headers: Object.fromEntries(response.headers.entries()),
            };
''', '            return fail(errorWithMessage);\n'))
r('x-error-class', ('resend.ts', '''          if (typeof parsedError !== 'object' || parsedError === null) {
            throw new SyntaxError('Error response body is not a JSON object');
          }
''', '''          if (!(parsedError instanceof Object)) {
            throw new SyntaxError('Error response body is not a JSON object');
          }
'''))
r('x-error-object-call', ('resend.ts', "if (typeof parsedError !== 'object' || parsedError === null) {", 'if (parsedError !== Object(parsedError)) {'))
r('x-status-const', ('resend.ts', '''      if (!response.ok) {
''', '''      const { ok, status } = response;
      if (ok === false) {
'''), ('resend.ts', '              statusCode: response.status,\n', '              statusCode: status,\n'))
r('x-status-range', ('resend.ts', '      if (!response.ok) {', '      if (response.status < 200 || response.status > 299) {'))
r('x-data-then-return', ('resend.ts', '''      const data = await response.json();
      return {
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      };
''', '''      return await response.json().then((data: T) => ({
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      }));
'''))
r('x-data-promise-all', ('resend.ts', '''      const data = await response.json();
''', '''      const [data] = await Promise.all([response.json()]);
'''))
r('x-log-early', ('resend.ts', '''    if (
      typeof process !== 'undefined' &&
      process.env &&
      process.env.NODE_ENV !== 'production'
    ) {
      console.error('[Resend API Error]:', {
        ...(status !== undefined && { status }),
        error,
        path,
      });
    }
''', '''    const env = typeof process === 'undefined' ? undefined : process.env;
    if (!env || env.NODE_ENV === 'production') return;

    const details: Record<string, unknown> = status === undefined ? {} : { status };
    details.error = error;
    details.path = path;
    console.error('[Resend API Error]:', details);
'''))
r('x-log-console-destructured', ('resend.ts', '''      console.error('[Resend API Error]:', {
        ...(status !== undefined && { status }),
        error,
        path,
      });
''', '''      const report = console.error.bind(console, '[Resend API Error]:');
      report(status !== undefined ? { status, error, path } : { error, path });
'''))
r('x-env-lookup-fn', ('resend.ts', '''function getDefaultBaseUrl(): string {
  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_BASE_URL || defaultBaseUrl
    : defaultBaseUrl;
}
''', '''function readEnv(name: string): string | undefined {
  if (typeof process === 'undefined' || !process.env) {
    return undefined;
  }
  return process.env[name];
}

function getDefaultBaseUrl(): string {
  const fromEnv = readEnv('RESEND_BASE_URL');
  return fromEnv ? fromEnv : defaultBaseUrl;
}
'''), ('resend.ts', '''  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_USER_AGENT || defaultUserAgent
    : defaultUserAgent;
''', '''  return readEnv('RESEND_USER_AGENT') || defaultUserAgent;
'''))
r('x-globalthis-process', ('resend.ts', '''  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_BASE_URL || defaultBaseUrl
    : defaultBaseUrl;
''', '''  return globalThis.process?.env?.RESEND_BASE_URL || defaultBaseUrl;
'''))
r('x-ctor-key-local', ('resend.ts', '''    if (!key) {
      if (typeof process !== 'undefined' && process.env) {
        this.key = process.env.RESEND_API_KEY;
      }

      if (!this.key) {
        throw new Error(
          'Missing API key. Pass it to the constructor `new Resend("re_123")`',
        );
      }
    }
''', '''    let apiKey = key;
    if (!apiKey && typeof process !== 'undefined' && process.env) {
      apiKey = process.env.RESEND_API_KEY;
    }
    if (!apiKey) {
      throw new Error(
        'Missing API key. Pass it to the constructor `new Resend("re_123")`',
      );
    }
    this.key = apiKey;
'''))
r('x-isform-instance', ('resend.ts', '''    const isFormData =
      typeof FormData !== 'undefined' && entity instanceof FormData;

    if (isFormData) {
      headers.delete('Content-Type');
    }
''', '''    let body: string | FormData | undefined;

    if (typeof FormData !== 'undefined' && entity instanceof FormData) {
      headers.delete('content-type');
      body = entity;
    } else {
      body = JSON.stringify(entity);
    }
'''), ('resend.ts', '''      body: isFormData ? entity : JSON.stringify(entity),
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);
  }

  async get<T>''', '''      body,
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);
  }

  async get<T>'''))
r('x-hdr-skip-delete', ('resend.ts', '''    const headers = new Headers(this.headers);
    const isFormData''', '''    const headers = new Headers();
    const isFormData'''), ('resend.ts', '''    if (isFormData) {
      headers.delete('Content-Type');
    }
''', '''    for (const [key, value] of this.headers.entries()) {
      if (!(isFormData && key === 'content-type')) {
        headers.set(key, value);
      }
    }
'''))
PF = 'common/utils/build-pagination-query.ts'
PB = '''  const searchParams = new URLSearchParams();

  if (options.limit !== undefined) {
    searchParams.set('limit', options.limit.toString());
  }

  if ('after' in options && options.after !== undefined) {
    searchParams.set('after', options.after);
  }

  if ('before' in options && options.before !== undefined) {
    searchParams.set('before', options.before);
  }

  return searchParams.toString();
'''
r('x-page-fromentries', (PF, PB, '''  const { limit, after, before } = options as Record<string, any>;
  const present = Object.entries({ limit, after, before }).filter(
    ([, value]) => value !== undefined,
  );

  return new URLSearchParams(
    Object.fromEntries(present.map(([key, value]) => [key, String(value)])),
  ).toString();
'''))
r('x-page-map', (PF, PB, '''  const params = new Map<string, string>();
  const { limit, after, before } = options as Record<string, any>;

  if (limit !== undefined) params.set('limit', `${limit}`);
  if (after !== undefined) params.set('after', after);
  if (before !== undefined) params.set('before', before);

  return new URLSearchParams([...params]).toString();
'''))
r('x-page-pairs-flat', (PF, PB, '''  const { limit, after, before } = options as Record<string, any>;
  const pair = (key: string, value: unknown): string[][] =>
    value === undefined ? [] : [[key, String(value)]];

  return new URLSearchParams([
    ...pair('limit', limit),
    ...pair('after', after),
    ...pair('before', before),
  ]).toString();
'''))
r('x-page-flatmap', (PF, PB, '''  const source = options as Record<string, any>;
  const pairs = ['limit', 'after', 'before'].flatMap((key) =>
    source[key] === undefined ? [] : [[key, String(source[key])]],
  );

  return new URLSearchParams(pairs).toString();
'''))
r('x-page-setter', (PF, PB, '''  const searchParams = new URLSearchParams();
  const add = (key: string, value?: { toString(): string }) => {
    if (value !== undefined) {
      searchParams.set(key, value.toString());
    }
  };

  add('limit', options.limit);
  add('after', (options as { after?: string }).after);
  add('before', (options as { before?: string }).before);

  return searchParams.toString();
'''))
r('x-page-const-keys', (PF, 'export function buildPaginationUrl', "const PAGINATION_KEYS = ['limit', 'after', 'before'] as const;\n\nexport function buildPaginationUrl"), (PF, PB, '''  const searchParams = new URLSearchParams();
  const values: Record<string, string | number | undefined> = { ...options };

  for (const key of PAGINATION_KEYS) {
    const value = values[key];
    if (value === undefined) {
      continue;
    }
    searchParams.append(key, value.toString());
  }

  return searchParams.toString();
'''))
r('x-page-url-array', (PF, '''  const queryString = buildPaginationQuery(options);

  return queryString ? `${base}?${queryString}` : base;
''', '''  return [base, buildPaginationQuery(options)].filter((part) => part !== '').join('?');
'''))
r('x-page-props-generator', ('common/utils/get-pagination-query-properties.ts', '''  return query.size > 0 ? `?${query.toString()}` : '';
''', '''  const text = query.toString();
  return text.length === 0 ? text : '?'.concat(text);
'''))
EF = 'common/utils/parse-email-to-api-options.ts'
EB = '''  return attachments?.map((attachment) => ({
    content: attachment.content,
    filename: attachment.filename,
    path: attachment.path,
    content_type: attachment.contentType,
    content_id: attachment.contentId,
  }));
'''
r('x-att-destructure', (EF, EB, '''  return attachments?.map(
    ({ contentType: content_type, contentId: content_id, content, filename, path }) => ({
      content,
      filename,
      path,
      content_type,
      content_id,
    }),
  );
'''))
r('x-att-named', (EF, EB, '''  const toApi = function (attachment: NonNullable<CreateEmailOptions['attachments']>[number]) {
    const { content, filename, path } = attachment;
    return {
      content,
      filename,
      path,
      content_type: attachment.contentType,
      content_id: attachment.contentId,
    };
  };
  if (!attachments) {
    return undefined;
  }
  return [...attachments].map(toApi);
'''))
r('x-att-generator', (EF, EB, '''  if (attachments === undefined) {
    return undefined;
  }
  function* convert(list: NonNullable<CreateEmailOptions['attachments']>) {
    for (const { content, filename, path, contentType, contentId } of list) {
      yield { content, filename, path, content_type: contentType, content_id: contentId };
    }
  }
  return [...convert(attachments)] as EmailApiAttachment[];
'''))
r('x-att-reduce', (EF, EB, '''  return attachments?.reduce<EmailApiAttachment[]>((list, attachment) => {
    list.push({
      content: attachment.content,
      filename: attachment.filename,
      path: attachment.path,
      content_type: attachment.contentType,
      content_id: attachment.contentId,
    });
    return list;
  }, []);
'''))
r('x-att-concat-reduce', (EF, EB, '''  return attachments?.reduce<EmailApiAttachment[]>(
    (list, { content, filename, path, contentType, contentId }) => [
      ...list,
      { content, filename, path, content_type: contentType, content_id: contentId },
    ],
    [],
  );
'''))
r('x-att-array-length', (EF, EB, '''  if (!attachments) {
    return attachments;
  }
  const result: EmailApiAttachment[] = new Array(attachments.length);
  for (let i = 0; i < attachments.length; i++) {
    const attachment = attachments[i];
    result[i] = {
      content: attachment.content,
      filename: attachment.filename,
      path: attachment.path,
      content_type: attachment.contentType,
      content_id: attachment.contentId,
    };
  }
  return result;
'''))
r('x-att-from-length', (EF, EB, '''  return (
    attachments &&
    Array.from({ length: attachments.length }, (_, index) => ({
      content: attachments[index].content,
      filename: attachments[index].filename,
      path: attachments[index].path,
      content_type: attachments[index].contentType,
      content_id: attachments[index].contentId,
    }))
  );
'''))
r('x-email-rest-keys', (EF, '''    template: email.template
      ? {
          id: email.template.id,
          variables: email.template.variables,
        }
      : undefined,
''', '''    ...(email.template && {
      template: (({ id, variables }) => ({ id, variables }))(email.template),
    }),
'''))
r('x-email-create-branches', ('emails/emails.ts', '''    const body: CreateEmailOptions = { ...payload };

    if (payload.react) {
      body.html = await render(payload.react);
    }
''', '''    const { react, ...fields } = payload as CreateEmailOptions & { react?: unknown };
    const body = (react
      ? { ...fields, html: await render(react as never) }
      : fields) as CreateEmailOptions;
'''))
r('x-email-create-tap', ('emails/emails.ts', '''    const body: CreateEmailOptions = { ...payload };

    if (payload.react) {
      body.html = await render(payload.react);
    }
''', '''    const rendered = payload.react ? { html: await render(payload.react) } : {};
    const body = { ...payload, ...rendered } as CreateEmailOptions;
'''))
r('x-email-send-inline', ('emails/emails.ts', '''    return this.create(payload, options);''', '''    const { create } = this;
    return create.call(this, payload, options);'''))
r('x-email-ids-template', ('emails/emails.ts', '''      `/emails/${payload.id}`,
''', '''      ['/emails', payload.id].join('/'),
'''), ('emails/emails.ts', '`/emails/${id}/cancel`', "'/emails/' + id + '/cancel'"))
MQ = '''  const params: Record<string, string | undefined> = {
    start_date: options.startDate,
    end_date: options.endDate,
    timezone: options.timezone,
    granularity: options.granularity,
    metrics: options.metrics?.join(','),
    dimensions: options.dimensions?.join(','),
    domain_id: options.domainId?.join(','),
    email_id: options.emailId?.join(','),
    broadcast_id: options.broadcastId?.join(','),
  };
'''
ML = '''  const searchParams = new URLSearchParams();
  for (const [key, value] of Object.entries(params)) {
    if (value !== undefined && value !== '') {
      searchParams.set(key, value);
    }
  }

  return searchParams.toString();
'''
r('x-metrics-snake-table', ('emails/emails.ts', MQ + '\n' + ML, '''  const names: [keyof GetEmailsMetricsOptions, string][] = [
    ['startDate', 'start_date'],
    ['endDate', 'end_date'],
    ['timezone', 'timezone'],
    ['granularity', 'granularity'],
    ['metrics', 'metrics'],
    ['dimensions', 'dimensions'],
    ['domainId', 'domain_id'],
    ['emailId', 'email_id'],
    ['broadcastId', 'broadcast_id'],
  ];
  const searchParams = new URLSearchParams();
  for (const [member, name] of names) {
    const value = options[member];
    const text = Array.isArray(value) ? value.join(',') : value;
    if (text) {
      searchParams.set(name, text);
    }
  }

  return searchParams.toString();
'''))
r('x-metrics-foreach', ('emails/emails.ts', ML, '''  const searchParams = new URLSearchParams();
  Object.keys(params).forEach((key) => {
    const value = params[key];
    if (value) searchParams.append(key, value);
  });

  return searchParams.toString();
'''))
r('x-metrics-for-in', ('emails/emails.ts', ML, '''  const searchParams = new URLSearchParams();
  for (const key in params) {
    const value = params[key];
    if (value === undefined || value.length === 0) continue;
    searchParams.set(key, value);
  }

  return searchParams.toString();
'''))
r('x-metrics-filter-entries', ('emails/emails.ts', ML, '''  const entries = Object.entries(params).filter(
    (entry): entry is [string, string] => Boolean(entry[1]),
  );

  return new URLSearchParams(entries).toString();
'''))
r('x-metrics-tostring', ('emails/emails.ts', MQ, '''  const list = (values?: readonly string[]) =>
    values === undefined ? undefined : values.toString();
  const params: Record<string, string | undefined> = {
    start_date: options.startDate,
    end_date: options.endDate,
    timezone: options.timezone,
    granularity: options.granularity,
    metrics: list(options.metrics),
    dimensions: list(options.dimensions),
    domain_id: list(options.domainId),
    email_id: list(options.emailId),
    broadcast_id: list(options.broadcastId),
  };
'''))
BL = '''    for (const email of payload) {
      if (email.react) {
        const html = await render(email.react);

        emails.push(parseEmailToApiOptions({ ...email, html }));
      } else {
        emails.push(parseEmailToApiOptions(email));
      }
    }
'''
r('x-batch-for-await', ('batch/batch.ts', BL, '''    async function* prepared(): AsyncGenerator<EmailApiOptions> {
      for (const email of payload) {
        const html = email.react ? await render(email.react) : email.html;
        yield parseEmailToApiOptions({ ...email, html } as typeof email);
      }
    }
    for await (const email of prepared()) {
      emails.push(email);
    }
'''))
r('x-batch-helper-fn', ('batch/batch.ts', 'export class Batch {', '''type BatchEmail = CreateBatchOptions[number];

async function withRenderedHtml(email: BatchEmail): Promise<BatchEmail> {
  if (!email.react) {
    return email;
  }
  return { ...email, html: await render(email.react) } as BatchEmail;
}

export class Batch {'''), ('batch/batch.ts', BL, '''    for (const email of payload) {
      emails.push(parseEmailToApiOptions(await withRenderedHtml(email)));
    }
'''))
r('x-batch-done-loop', ('batch/batch.ts', BL, '''    const iterator = payload[Symbol.iterator]();
    for (let step = iterator.next(); !step.done; step = iterator.next()) {
      const email = step.value;
      const html = email.react ? await render(email.react) : email.html;
      emails.push(parseEmailToApiOptions({ ...email, html } as typeof email));
    }
'''))
r('x-batch-two-pass', ('batch/batch.ts', BL, '''    const rendered: (string | undefined)[] = [];
    for (const email of payload) {
      rendered.push(email.react ? await render(email.react) : undefined);
    }
    payload.forEach((email, index) => {
      const html = rendered[index];
      emails.push(
        parseEmailToApiOptions(
          html === undefined ? email : ({ ...email, html } as typeof email),
        ),
      );
    });
'''))
r('x-batch-validation-default', ('batch/batch.ts', '''    const headers = new Headers(options?.headers);

    if (!headers.has('x-batch-validation')) {
      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
    }
''', '''    const { batchValidation = 'strict' } = options ?? {};
    const headers = new Headers({ 'x-batch-validation': batchValidation });

    for (const [name, value] of new Headers(options?.headers)) {
      headers.set(name, value);
    }
'''))
AF = 'common/utils/parse-automation-to-api-options.ts'
SWB = '''      return {
        key: step.key,
        type: step.type,
        config: {
          event_name: step.config.eventName,
          timeout: step.config.timeout,
          filter_rule: step.config.filterRule,
        },
      };
'''
r('x-auto-base', (AF, '''  switch (step.type) {
    case 'trigger':
      return {
        key: step.key,
        type: step.type,
        config: { event_name: step.config.eventName },
      };
''', '''  const base = { key: step.key, type: step.type };
  switch (step.type) {
    case 'trigger':
      return { ...base, config: { event_name: step.config.eventName } };
'''), (AF, SWB, '''      const { eventName, timeout, filterRule } = step.config;
      return {
        ...base,
        config: { event_name: eventName, timeout, filter_rule: filterRule },
      };
'''.replace('      const {', '      const {')) if False else (AF, SWB, '''      return {
        ...base,
        config: {
          event_name: step.config.eventName,
          timeout: step.config.timeout,
          filter_rule: step.config.filterRule,
        },
      };
'''))
r('x-auto-passthrough-set', (AF, '''    case 'delay':
      return { key: step.key, type: step.type, config: step.config };
''', ''), (AF, '''    case 'condition':
      return { key: step.key, type: step.type, config: step.config };
''', ''), (AF, '''    case 'contact_delete':
      return { key: step.key, type: step.type, config: step.config };
''', ''), (AF, 'export function parseStepConfig(', "const UNCHANGED_STEPS = new Set<string>(['delay', 'condition', 'contact_delete']);\n\nexport function parseStepConfig("), (AF, '  switch (step.type) {', '''  if (UNCHANGED_STEPS.has(step.type)) {
    return { key: step.key, type: step.type, config: step.config };
  }

  switch (step.type) {'''), (AF, '''        config: { segment_id: step.config.segmentId },
      };
  }
}''', '''        config: { segment_id: step.config.segmentId },
      };
  }
  return undefined as never;
}'''))
r('x-auto-if-chain', (AF, '''    case 'add_to_segment':
      return {
        key: step.key,
        type: step.type,
        config: { segment_id: step.config.segmentId },
      };
  }
''', '''  }
  if (step.type === 'add_to_segment') {
    const { key, type, config } = step;
    return { key, type, config: { segment_id: config.segmentId } };
  }
  return undefined as never;
'''))
r('x-auto-rename-map', (AF, '''        config: {
          first_name: step.config.firstName,
          last_name: step.config.lastName,
          unsubscribed: step.config.unsubscribed,
          properties: step.config.properties,
        },
''', '''        config: (({ firstName, lastName, unsubscribed, properties }) => ({
          first_name: firstName,
          last_name: lastName,
          unsubscribed,
          properties,
        }))(step.config),
'''))
r('x-auto-connection-pick', (AF, '''  return {
    from: connection.from,
    to: connection.to,
    type: connection.type,
  };
''', '''  const { from, to, type } = connection;
  const result: AutomationConnectionApiOptions = { from, to };
  if (type !== undefined) {
    result.type = type;
  }
  return result;
'''))
r('x-auto-update-loop', ('automations/automations.ts', '''    if (payload.name !== undefined) {
      apiPayload.name = payload.name;
    }
    if (payload.status !== undefined) {
      apiPayload.status = payload.status;
    }
''', '''    for (const key of ['name', 'status'] as const) {
      if (payload[key] !== undefined) {
        apiPayload[key] = payload[key];
      }
    }
'''))
r('x-auto-update-nullable', ('automations/automations.ts', '''    if (payload.steps !== undefined) {
      apiPayload.steps = payload.steps.map(parseStepConfig);
    }
    if (payload.connections !== undefined) {
      apiPayload.connections = payload.connections.map(parseConnection);
    }
''', '''    Object.assign(apiPayload, {
      steps: payload.steps?.map((step) => parseStepConfig(step)),
      connections: payload.connections?.map((connection) =>
        parseConnection(connection),
      ),
    });
'''))
r('x-auto-list-usp', ('automations/automations.ts', '''    const params = [queryString];

    if (options.status) {
      params.push(`status=${encodeURIComponent(options.status)}`);
    }

    const qs = params.filter(Boolean).join('&');
''', '''    let qs = queryString;

    if (options.status) {
      const status = `status=${encodeURIComponent(options.status)}`;
      qs = qs ? `${qs}&${status}` : status;
    }

'''))
r('x-runs-flat', ('automation-runs/automation-runs.ts', '''      const statusValue = Array.isArray(options.status)
        ? options.status.join(',')
        : options.status;
''', '''      const statusValue = [options.status].flat().join(',');
'''))
r('x-runs-tostring', ('automation-runs/automation-runs.ts', '''      const statusValue = Array.isArray(options.status)
        ? options.status.join(',')
        : options.status;
''', '''      const statusValue = options.status.toString();
'''))
CI = '''encodeContactIdentifier(options?.email ? options?.email : options?.id)'''
r('x-contacts-path-helper', ('contacts/contacts.ts', '''    if (!options.audienceId) {
      return this.resend.get<GetContactResponseSuccess>(
        `/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
      );
    }

    return this.resend.get<GetContactResponseSuccess>(
      `/audiences/${options.audienceId}/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
    );
''', '''    return this.resend.get<GetContactResponseSuccess>(contactPath(options));
'''), ('contacts/contacts.ts', '''    if (!payload.audienceId) {
      return this.resend.delete<RemoveContactsResponseSuccess>(
        `/contacts/${encodeContactIdentifier(payload?.email ? payload?.email : payload?.id)}`,
      );
    }

    return this.resend.delete<RemoveContactsResponseSuccess>(
      `/audiences/${payload.audienceId}/contacts/${encodeContactIdentifier(payload?.email ? payload?.email : payload?.id)}`,
    );
''', '''    return this.resend.delete<RemoveContactsResponseSuccess>(contactPath(payload));
'''), ('contacts/contacts.ts', 'export class Contacts {', '''function contactPath(target: {
  id?: string | null;
  email?: string | null;
  audienceId?: string;
}): string {
  const identifier = encodeContactIdentifier((target.email || target.id) as string);
  const prefix = target.audienceId ? `/audiences/${target.audienceId}` : '';
  return `${prefix}/contacts/${identifier}`;
}

export class Contacts {'''))
MISS = '''      return {
        data: null,
        headers: null,
        error: {
          message: 'Missing `id` or `email` field.',
          statusCode: null,
          name: 'missing_required_field',
        },
      };
'''
r('x-contacts-missing-fn', ('contacts/contacts.ts', MISS, '      return missingIdentifier();\n'), ('contacts/contacts.ts', 'export class Contacts {', '''const missingIdentifier = (): {
  data: null;
  headers: null;
  error: { message: string; statusCode: null; name: 'missing_required_field' };
} => ({
  data: null,
  headers: null,
  error: {
    message: 'Missing `id` or `email` field.',
    statusCode: null,
    name: 'missing_required_field',
  },
});

export class Contacts {'''))
r('x-contacts-some', ('contacts/contacts.ts', '''    if (!options.id && !options.email) {''', '''    if (![options.id, options.email].some(Boolean)) {'''))
r('x-contacts-normalise', ('contacts/contacts.ts', '''    if (typeof options === 'string') {
      return this.resend.get<GetContactResponseSuccess>(
        `/contacts/${encodeContactIdentifier(options)}`,
      );
    }

    if (!options.id && !options.email) {''', '''    const byId = typeof options === 'string';
    if (byId) {
      const path = '/contacts/'.concat(encodeContactIdentifier(options as string));
      return this.resend.get<GetContactResponseSuccess>(path);
    }

    if (!(options.id || options.email)) {'''))
r('x-contacts-create-fields', ('contacts/contacts.ts', '''          unsubscribed: payload.unsubscribed,
          email: payload.email,
          first_name: payload.firstName,
          last_name: payload.lastName,
          properties: payload.properties,
''', '''          ...contactFields(payload),
          email: payload.email,
'''), ('contacts/contacts.ts', '''          unsubscribed: options.unsubscribed,
          first_name: options.firstName,
          last_name: options.lastName,
          properties: options.properties,
''', '''          ...contactFields(options),
'''), ('contacts/contacts.ts', 'export class Contacts {', '''function contactFields({
  unsubscribed,
  firstName,
  lastName,
  properties,
}: Pick<UpdateContactOptions, 'unsubscribed' | 'firstName' | 'lastName' | 'properties'>) {
  return { unsubscribed, first_name: firstName, last_name: lastName, properties };
}

export class Contacts {'''))
r('x-contacts-list-nested', ('contacts/contacts.ts', '''    const segmentId = options.segmentId ?? options.audienceId;
    if (!segmentId) {
      const url = buildPaginationUrl('/contacts', options);
      const data = await this.resend.get<ListContactsResponseSuccess>(url);
      return data;
    }

    const url = buildPaginationUrl(`/segments/${segmentId}/contacts`, options);
''', '''    const { segmentId = options.audienceId } = options;
    const scope = segmentId ? `/segments/${segmentId}` : '';
    const url = buildPaginationUrl(`${scope}/contacts`, options);
'''))
IM = 'contacts/imports/contact-imports.ts'
r('x-import-table', (IM, '''    this.appendField(formData, 'on_conflict', payload.onConflict ?? null);
    this.appendField(formData, 'segments', payload.segments ?? null);
    this.appendField(formData, 'topics', payload.topics ?? null);
''', '''    const fields = {
      on_conflict: payload.onConflict,
      segments: payload.segments,
      topics: payload.topics,
    };
    for (const [name, value] of Object.entries(fields)) {
      this.appendField(formData, name, value ?? null);
    }
'''))
r('x-import-optional-map', (IM, '''    if (columnMap === null) {
      return null;
    }

    return {
      email: columnMap.email,
      first_name: columnMap.firstName,
      last_name: columnMap.lastName,
      unsubscribed: columnMap.unsubscribed,
      properties: columnMap.properties,
    };
''', '''    if (columnMap !== null) {
      const { firstName: first_name, lastName: last_name, ...rest } = columnMap;
      return {
        email: rest.email,
        first_name,
        last_name,
        unsubscribed: rest.unsubscribed,
        properties: rest.properties,
      };
    }
    return null;
'''))
r('x-import-switch', (IM, '''    if (value === null) {
      return;
    }

    formData.append(
      name,
      typeof value === 'string' ? value : JSON.stringify(value),
    );
''', '''    switch (typeof value) {
      case 'string':
        formData.append(name, value);
        break;
      default:
        if (value !== null) {
          formData.append(name, JSON.stringify(value));
        }
    }
'''))
RV = 'emails/receiving/receiving.ts'
r('x-fwd-result', (RV, '''      if (rawResponse.ok) {
        return { content: await rawResponse.arrayBuffer(), error: null };
      }

      statusCode = rawResponse.status;
''', '''      if (!rawResponse.ok) {
        statusCode = rawResponse.status;
        throw new Error('download failed');
      }

      return { content: await rawResponse.arrayBuffer(), error: null };
'''))
r('x-fwd-then-chain', (RV, '''    let statusCode: number | null = null;

    try {
      const rawResponse = await fetch(url);

      if (rawResponse.ok) {
        return { content: await rawResponse.arrayBuffer(), error: null };
      }

      statusCode = rawResponse.status;
    } catch {
      // The download could not be completed: reported below, like any failure.
    }

    return {
      content: null,
      error: {
        name: 'application_error',
        message: 'Failed to download raw email content',
        statusCode,
      },
    };
''', '''    const failure = (statusCode: number | null) => ({
      content: null,
      error: {
        name: 'application_error' as const,
        message: 'Failed to download raw email content',
        statusCode,
      },
    });

    return fetch(url)
      .then(async (rawResponse) =>
        rawResponse.ok
          ? { content: await rawResponse.arrayBuffer(), error: null }
          : failure(rawResponse.status),
      )
      .catch(() => failure(null));
'''))
r('x-fwd-finally', (RV, '''      parsed = await PostalMime.parse(raw.content, {
        attachmentEncoding: 'base64',
      });
''', '''      const parser = PostalMime.parse(raw.content, {
        attachmentEncoding: 'base64',
      });
      parsed = await parser;
'''))
r('x-fwd-att-for', (RV, '''    const attachments = parsed.attachments.map((attachment) => {
      const contentId = attachment.contentId
        ? attachment.contentId.replace(/^<|>$/g, '')
        : undefined;

      return {
        filename: attachment.filename,
        content: attachment.content.toString(),
        content_type: attachment.mimeType,
        content_id: contentId || undefined,
      };
    });
''', '''    const attachments: Record<string, unknown>[] = [];
    for (const { filename, content, mimeType, contentId } of parsed.attachments) {
      attachments.push({
        filename,
        content: content.toString(),
        content_type: mimeType,
        content_id: contentId?.replace(/^<|>$/g, '') || undefined,
      });
    }
'''))
r('x-fwd-cid-two-steps', (RV, '''        ? attachment.contentId.replace(/^<|>$/g, '')
        : undefined;
''', '''        ? attachment.contentId.replace(/^</, '').replace(/>$/, '')
        : undefined;
'''))
r('x-fwd-guard-shared', (RV, '''    if (!email.raw?.download_url) {
      return {
        data: null,
        error: {
          name: 'validation_error',
          message: 'Raw email content is not available for this email',
          statusCode: 400,
        },
        headers: null,
      };
    }

    const raw = await this.downloadRaw(email.raw.download_url);

    if (raw.error) {
      return { data: null, error: raw.error, headers: null };
    }
''', '''    const raw = await this.loadRaw(email);

    if (raw.error) {
      return { data: null, error: raw.error, headers: null };
    }
'''), (RV, '  private async downloadRaw(', '''  private async loadRaw(email: GetReceivingEmailResponseSuccess) {
    const url = email.raw?.download_url;
    if (url) {
      return this.downloadRaw(url);
    }
    return {
      content: null,
      error: {
        name: 'validation_error' as const,
        message: 'Raw email content is not available for this email',
        statusCode: 400,
      },
    };
  }

  private async downloadRaw('''))
r('x-fwd-options-spread', (RV, '''        text: 'text' in options ? options.text : undefined,
        html: 'html' in options ? options.html : undefined,
''', '''        text: (options as { text?: string }).text,
        html: (options as { html?: string }).html,
'''))
r('x-fwd-subject-const', (RV, '''    const forwardSubject = originalSubject.startsWith('Fwd:')
      ? originalSubject
      : `Fwd: ${originalSubject}`;
''', '''    const PREFIX = 'Fwd:';
    let forwardSubject = originalSubject;
    if (!forwardSubject.startsWith(PREFIX)) {
      forwardSubject = [PREFIX, forwardSubject].join(' ');
    }
'''))
r('x-fwd-subject-regex', (RV, '''    const forwardSubject = originalSubject.startsWith('Fwd:')
      ? originalSubject''', '''    const forwardSubject = /^Fwd:/.test(originalSubject)
      ? originalSubject'''))
r('x-verify-headers-fn', ('webhooks/webhooks.ts', '''    const webhook = new Webhook(payload.webhookSecret);
    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;
''', '''    const signed: Record<string, string> = {};
    for (const part of ['id', 'timestamp', 'signature'] as const) {
      signed[`webhook-${part}`] = payload.headers[part];
    }
    return new Webhook(payload.webhookSecret).verify(
      payload.payload,
      signed,
    ) as WebhookEventPayload;
'''))
r('x-supp-guard', ('suppressions/suppressions.ts', '''    if (!idOrEmail) {
      return missingIdentifierError();
    }

    return this.resend.get''', '''    if (idOrEmail === undefined || idOrEmail === null || idOrEmail.length === 0) {
      return missingIdentifierError();
    }

    return this.resend.get'''))
r('x-supp-path', ('suppressions/suppressions.ts', '`/suppressions/${encodeURIComponent(idOrEmail)}`', 'suppressionPath(idOrEmail)'), ('suppressions/suppressions.ts', 'export class Suppressions {', '''function suppressionPath(identifier: string) {
  return `/suppressions/${encodeURIComponent(identifier)}`;
}

export class Suppressions {'''))
r('x-bcast-let', ('broadcasts/broadcasts.ts', '''    const html = payload.react ? await render(payload.react) : payload.html;
''', '''    const { react } = payload as { react?: React.ReactNode };
    let { html } = payload as { html?: string };
    if (react) {
      html = await render(react);
    }
'''))
r('x-bcast-recipients-set', ('broadcasts/broadcasts.ts', '''  if (email !== undefined) {
    searchParams.set('email', email);
  }

  if (bounceType !== undefined) {
    searchParams.set('bounce_type', bounceType);
  }
''', '''  for (const [name, value] of [
    ['email', email],
    ['bounce_type', bounceType],
  ] as const) {
    if (value !== undefined) searchParams.set(name, value);
  }
'''))
r('x-tpl-async-lambda', ('templates/templates.ts', '''    const createPromise = this.performCreate(payload);
    return new ChainableTemplateResult(createPromise, this.publish.bind(this));
''', '''    return new ChainableTemplateResult(this.performCreate(payload), async (id) =>
      this.publish(id),
    );
'''))
r('x-tpl-chain-async', ('templates/chainable-template-result.ts', '''    const { data, error, headers } = await this.promise;

    if (error) {
      return {
        data: null,
        headers,
        error,
      };
    }
    return this.publishFn(data.id);
''', '''    const created = await this.promise;

    if (created.error === null) {
      return this.publishFn(created.data.id);
    }
    const { error, headers } = created;
    return { data: null, error, headers };
'''))
r('x-tpl-then-delegate', ('templates/chainable-template-result.ts', 'return this.promise.then(onfulfilled, onrejected);', 'const { promise } = this;\n    return promise.then(onfulfilled, onrejected);'))
r('x-render-promise', ('render.ts', '''  let render: typeof import('@react-email/render').render;
  try {
    ({ render } = await import('@react-email/render'));
  } catch {
    throw new Error(
      'Failed to render React component. Make sure to install `@react-email/render` or `@react-email/components`.',
    );
  }

  return render(node);
''', '''  const renderer = await import('@react-email/render').catch(() => {
    throw new Error(
      'Failed to render React component. Make sure to install `@react-email/render` or `@react-email/components`.',
    );
  });

  return renderer.render(node);
'''))
