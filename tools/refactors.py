"""Behaviour-preserving edits of /repo/src used to test that the checks stay quiet
(not read by any check). Each: name -> [(file, old, new)]; old None = append."""
S = 'src/'
R = {}


def r(name, *edits):
    R[name] = [(S + f, o, n) for f, o, n in edits]


LOOP = '''    for (const email of payload) {
      if (email.react) {
        const html = await render(email.react);

        emails.push(parseEmailToApiOptions({ ...email, html }));
      } else {
        emails.push(parseEmailToApiOptions(email));
      }
    }
'''
DECL = '    const emails: EmailApiOptions[] = [];\n\n'
r('batch-index-loop', ('batch/batch.ts', LOOP, '''    for (let i = 0; i < payload.length; i++) {
      const email = payload[i];
      if (email.react) {
        const html = await render(email.react);
        emails.push(parseEmailToApiOptions({ ...email, html }));
        continue;
      }
      emails.push(parseEmailToApiOptions(email));
    }
'''))
r('batch-while-loop', ('batch/batch.ts', LOOP, '''    let i = 0;
    while (i < payload.length) {
      const email = payload[i];
      i += 1;
      const html = email.react ? await render(email.react) : email.html;
      emails.push(parseEmailToApiOptions({ ...email, html }));
    }
'''))
r('batch-entries-loop', ('batch/batch.ts', LOOP, '''    for (const [index, email] of payload.entries()) {
      emails[index] = email.react
        ? parseEmailToApiOptions({ ...email, html: await render(email.react) })
        : parseEmailToApiOptions(email);
    }
'''))
r('batch-promise-all', ('batch/batch.ts', DECL + LOOP, '''    const emails: EmailApiOptions[] = await Promise.all(
      payload.map(async (email) => {
        if (!email.react) {
          return parseEmailToApiOptions(email);
        }
        const html = await render(email.react);
        return parseEmailToApiOptions({ ...email, html });
      }),
    );
'''))
r('batch-helper-method', ('batch/batch.ts', DECL + LOOP, '''    const emails: EmailApiOptions[] = [];
    for (const email of payload) {
      emails.push(await this.toApiOptions(email));
    }
'''), ('batch/batch.ts', '  async send<Options', '''  private async toApiOptions(
    email: CreateBatchOptions[number],
  ): Promise<EmailApiOptions> {
    const body = { ...email } as any;
    if (email.react) {
      body.html = await render(email.react);
    }
    return parseEmailToApiOptions(body);
  }

  async send<Options'''))
r('batch-reduce-chain', ('batch/batch.ts', DECL + LOOP, '''    const emails = await payload.reduce(async (acc, email) => {
      const list = await acc;
      const html = email.react ? await render(email.react) : email.html;
      list.push(parseEmailToApiOptions({ ...email, html }));
      return list;
    }, Promise.resolve([] as EmailApiOptions[]));
'''))
r('batch-concat', ('batch/batch.ts', DECL + LOOP, '''    let emails: EmailApiOptions[] = [];

    for (const email of payload) {
      const source = email.react
        ? { ...email, html: await render(email.react) }
        : email;
      emails = [...emails, parseEmailToApiOptions(source)];
    }
'''))
r('batch-headers-get', ('batch/batch.ts', '''    if (!headers.has('x-batch-validation')) {
      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
    }
''', '''    headers.set(
      'x-batch-validation',
      headers.get('x-batch-validation') ?? options?.batchValidation ?? 'strict',
    );
'''))
r('batch-no-await-data', ('batch/batch.ts', '    const data = await this.resend.post<', '    return this.resend.post<'), ('batch/batch.ts', '''    );

    return data;
''', '''    );
'''))
r('batch-destructure-options', ('batch/batch.ts', '''    const headers = new Headers(options?.headers);

    if (!headers.has('x-batch-validation')) {
      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
    }
''', '''    const { headers: custom, batchValidation = 'strict' } =
      options ?? ({} as CreateBatchRequestOptions);
    const headers = new Headers(custom);

    if (headers.get('x-batch-validation') === null) {
      headers.append('x-batch-validation', batchValidation);
    }
'''))

# resend.ts
HDR = '''    const headers = new Headers(this.headers);
    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
'''
POSTH = '''    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
    if (options.idempotencyKey) {'''
r('resend-merge-helper', ('resend.ts', HDR, '    const headers = this.mergeHeaders(options.headers);\n'),
  ('resend.ts', POSTH, '''    this.applyHeaders(headers, options.headers);
    if (options.idempotencyKey) {'''),
  ('resend.ts', '  async fetchRequest<T>', '''  private applyHeaders(target: Headers, extra?: HeadersInit): void {
    if (!extra) {
      return;
    }
    for (const [key, value] of new Headers(extra)) {
      target.set(key, value);
    }
  }

  private mergeHeaders(extra?: HeadersInit): Headers {
    const merged = new Headers(this.headers);
    this.applyHeaders(merged, extra);
    return merged;
  }

  async fetchRequest<T>'''))
r('resend-headers-foreach', ('resend.ts', POSTH, '''    if (options.headers) {
      new Headers(options.headers).forEach((value, key) => {
        headers.set(key, value);
      });
    }
    if (options.idempotencyKey) {'''), ('resend.ts', HDR, '''    const headers = new Headers(this.headers);
    new Headers(options.headers ?? {}).forEach((value, key) => headers.set(key, value));
'''))
r('resend-headers-of-pairs', ('resend.ts', HDR, '''    const headers = new Headers([
      ...this.headers.entries(),
    ]);
    for (const [key, value] of new Headers(options.headers ?? undefined)) {
      headers.set(key, value);
    }
'''))
r('resend-headers-object-merge', ('resend.ts', HDR, '''    const headers = new Headers({
      ...Object.fromEntries(this.headers),
      ...Object.fromEntries(new Headers(options.headers)),
    });
'''))
r('resend-single-send', ('resend.ts', HDR + '''    const requestOptions = {
      method: 'GET',
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);
''', "    return this.request<T>('GET', path, undefined, options);\n"),
  ('resend.ts', HDR + '''    const requestOptions = {
      method: 'PUT',
      body: JSON.stringify(entity),
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);
''', "    return this.request<T>('PUT', path, JSON.stringify(entity), options);\n"),
  ('resend.ts', HDR + '''    const requestOptions = {
      method: 'PATCH',
      body: JSON.stringify(entity),
      ...options,
      headers,
    };

    return this.fetchRequest<T>(path, requestOptions);
''', "    return this.request<T>('PATCH', path, JSON.stringify(entity), options);\n"),
  ('resend.ts', '  async fetchRequest<T>', '''  private async request<T>(
    method: string,
    path: string,
    body: string | undefined,
    options: { headers?: HeadersInit },
  ) {
    const headers = new Headers(this.headers);
    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
    return this.fetchRequest<T>(
      path,
      body === undefined
        ? { method, ...options, headers }
        : { method, body, ...options, headers },
    );
  }

  async fetchRequest<T>'''))
r('resend-entries-helper', ('resend.ts', 'const defaultBaseUrl', '''const headersToObject = (response: { headers: Headers }) => {
  const result: Record<string, string> = {};
  response.headers.forEach((value, key) => {
    result[key] = value;
  });
  return result;
};

const defaultBaseUrl'''), ('resend.ts', 'Object.fromEntries(response.headers.entries())', 'headersToObject(response)'))
r('resend-entries-loop', ('resend.ts', 'const defaultBaseUrl', '''function headersToObject(headers: Headers): Record<string, string> {
  const result: Record<string, string> = {};
  for (const [key, value] of headers.entries()) {
    result[key] = value;
  }
  return result;
}

const defaultBaseUrl'''), ('resend.ts', 'Object.fromEntries(response.headers.entries())', 'headersToObject(response.headers)'))
r('resend-entries-plain', ('resend.ts', 'Object.fromEntries(response.headers.entries())', 'Object.fromEntries(response.headers)'))
ERR = '''        try {
          const rawError = await response.text();'''
FR = '''      if (!response.ok) {
        try {
          const rawError = await response.text();
          const parsedError = JSON.parse(rawError);

          if (typeof parsedError !== 'object' || parsedError === null) {
            throw new SyntaxError('Error response body is not a JSON object');
          }

          this.logError(parsedError, path, response.status);

          return {
            data: null,
            error: parsedError,
            headers: Object.fromEntries(response.headers.entries()),
          };
        } catch (err) {
          if (err instanceof SyntaxError) {
            const error: ErrorResponse = {
              name: 'application_error',
              statusCode: response.status,
              message:
                'Internal server error. We are unable to process your request right now, please try again later.',
            };

            this.logError(error, path, response.status);

            return {
              data: null,
              error,
              headers: Object.fromEntries(response.headers.entries()),
            };
          }

          const error: ErrorResponse = {
            message: response.statusText,
            statusCode: response.status,
            name: 'application_error',
          };

          if (err instanceof Error) {
            const errorWithMessage = { ...error, message: err.message };

            this.logError(errorWithMessage, path, response.status);

            return {
              data: null,
              error: errorWithMessage,
              headers: Object.fromEntries(response.headers.entries()),
            };
          }

          this.logError(error, path, response.status);

          return {
            data: null,
            error,
            headers: Object.fromEntries(response.headers.entries()),
          };
        }
      }
'''
r('resend-error-extracted', ('resend.ts', FR, '''      if (!response.ok) {
        const error = await this.readError(response);
        this.logError(error, path, response.status);
        return {
          data: null,
          error,
          headers: Object.fromEntries(response.headers.entries()),
        };
      }
'''), ('resend.ts', '  async fetchRequest<T>', '''  private async readError(response: globalThis.Response): Promise<ErrorResponse> {
    const status = response.status;
    try {
      const parsed = JSON.parse(await response.text());
      if (parsed === null || typeof parsed !== 'object') {
        throw new SyntaxError('Error response body is not a JSON object');
      }
      return parsed;
    } catch (err) {
      if (err instanceof SyntaxError) {
        return {
          name: 'application_error',
          statusCode: status,
          message:
            'Internal server error. We are unable to process your request right now, please try again later.',
        };
      }
      return {
        message: err instanceof Error ? err.message : response.statusText,
        statusCode: status,
        name: 'application_error',
      };
    }
  }

  async fetchRequest<T>'''))
r('resend-error-flags', ('resend.ts', FR, '''      if (!response.ok) {
        let error: ErrorResponse | undefined;
        let text: string | undefined;
        try {
          text = await response.text();
        } catch (err) {
          error = {
            message: err instanceof Error ? err.message : response.statusText,
            statusCode: response.status,
            name: 'application_error',
          };
          if (err instanceof SyntaxError) {
            error.message =
              'Internal server error. We are unable to process your request right now, please try again later.';
          }
        }

        if (text !== undefined) {
          let parsed: unknown = null;
          try {
            parsed = JSON.parse(text);
          } catch {
            parsed = null;
          }
          error =
            typeof parsed === 'object' && parsed !== null
              ? (parsed as ErrorResponse)
              : {
                  name: 'application_error',
                  statusCode: response.status,
                  message:
                    'Internal server error. We are unable to process your request right now, please try again later.',
                };
        }

        this.logError(error as ErrorResponse, path, response.status);

        return {
          data: null,
          error: error as ErrorResponse,
          headers: Object.fromEntries(response.headers.entries()),
        };
      }
'''))
r('resend-split-deliver', ('resend.ts', '''    } catch {
      const error: ErrorResponse = {
        name: 'application_error',
        statusCode: null,
        message: 'Unable to fetch data. The request could not be resolved.',
      };

      this.logError(error, path);

      return {
        data: null,
        error,
        headers: null,
      };
    }
''', '''    } catch {
      return this.unreachable<T>(path);
    }
'''), ('resend.ts', '  async fetchRequest<T>', '''  private unreachable<T>(path: string): Response<T> {
    const error: ErrorResponse = {
      name: 'application_error',
      statusCode: null,
      message: 'Unable to fetch data. The request could not be resolved.',
    };
    this.logError(error, path);
    return { data: null, error, headers: null };
  }

  async fetchRequest<T>'''))
r('resend-then', ('resend.ts', '''      const data = await response.json();
      return {
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      };
''', '''      return await response.json().then((data: any) => ({
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      }));
'''))
r('resend-json-parse-text', ('resend.ts', 'const data = await response.json();', 'const data = JSON.parse(await response.text());'))
r('resend-fetch-then', ('resend.ts', '''      const response = await fetch(`${this.baseUrl}${path}`, options);
''', '''      const url = [this.baseUrl, path].join('');
      const response = await fetch(url, { ...options });
'''))
r('resend-url-concat', ('resend.ts', 'fetch(`${this.baseUrl}${path}`, options)', 'fetch(this.baseUrl.concat(path), options)'))
r('resend-log-branches', ('resend.ts', '''    if (
      typeof process !== 'undefined' &&
      process.env &&
      process.env.NODE_ENV !== 'production'
    ) {
      console.error('[Resend API Error]:', {
        ...(status !== undefined && { status }),
        error,
        path,
      });
    }
''', '''    if (typeof process === 'undefined' || !process.env) {
      return;
    }
    if (process.env.NODE_ENV === 'production') return;
    const details: Record<string, unknown> = { error, path };
    if (status !== undefined) {
      details.status = status;
    }
    console.error('[Resend API Error]:', details);
'''))
r('resend-env-helper', ('resend.ts', '''function getDefaultBaseUrl(): string {
  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_BASE_URL || defaultBaseUrl
    : defaultBaseUrl;
}

function getDefaultUserAgent(): string {
  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_USER_AGENT || defaultUserAgent
    : defaultUserAgent;
}
''', '''function readEnv(name: string): string | undefined {
  if (typeof process === 'undefined' || !process.env) {
    return undefined;
  }
  return process.env[name];
}

const getDefaultBaseUrl = (): string => readEnv('RESEND_BASE_URL') || defaultBaseUrl;
const getDefaultUserAgent = (): string => readEnv('RESEND_USER_AGENT') || defaultUserAgent;
'''), ('resend.ts', '''      if (typeof process !== 'undefined' && process.env) {
        this.key = process.env.RESEND_API_KEY;
      }
''', '''      this.key = readEnv('RESEND_API_KEY');
'''))
r('resend-ctor-default-param', ('resend.ts', '    options?: ResendOptions,\n', '    options: ResendOptions = {},\n'), ('resend.ts', '''    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();
    this.userAgent = options?.userAgent ?? getDefaultUserAgent();

    this.headers = new Headers({
      Authorization: `Bearer ${this.key}`,
      'User-Agent': this.userAgent,
      'Content-Type': 'application/json',
    });
''', '''    const { baseUrl, userAgent } = options ?? {};
    this.baseUrl = baseUrl ?? getDefaultBaseUrl();
    this.userAgent = userAgent ?? getDefaultUserAgent();

    const headers = new Headers();
    headers.set('Authorization', `Bearer ${this.key}`);
    headers.set('User-Agent', this.userAgent);
    headers.append('Content-Type', 'application/json');
    this.headers = headers;
'''))
r('resend-lazy-headers', ('resend.ts', '''    this.headers = new Headers({
      Authorization: `Bearer ${this.key}`,
      'User-Agent': this.userAgent,
      'Content-Type': 'application/json',
    });
''', '''    this.headers = Resend.defaultHeaders(String(this.key), this.userAgent);
'''), ('resend.ts', '  private logError', '''  private static defaultHeaders(key: string, userAgent: string): Headers {
    const pairs: [string, string][] = [
      ['authorization', 'Bearer ' + key],
      ['user-agent', userAgent],
      ['content-type', 'application/json'],
    ];
    return new Headers(pairs);
  }

  private logError'''))
r('resend-post-body-if', ('resend.ts', '''    const requestOptions = {
      method: 'POST',
      body: isFormData ? entity : JSON.stringify(entity),
      ...options,
      headers,
    };
''', '''    let body: unknown = entity;
    if (!isFormData) {
      body = JSON.stringify(entity);
    }
    const requestOptions: Record<string, unknown> = Object.assign(
      { method: 'POST', body },
      options,
    );
    requestOptions.headers = headers;
'''))
r('resend-delete-conditional-spread', ('resend.ts', '''      method: 'DELETE',
      body: query === undefined ? undefined : JSON.stringify(query),
      ...options,''', '''      method: 'DELETE',
      ...(query === undefined ? {} : { body: JSON.stringify(query) }),
      ...options,'''))

# pagination
PB = '''  const searchParams = new URLSearchParams();

  if (options.limit !== undefined) {
    searchParams.set('limit', options.limit.toString());
  }

  if ('after' in options && options.after !== undefined) {
    searchParams.set('after', options.after);
  }

  if ('before' in options && options.before !== undefined) {
    searchParams.set('before', options.before);
  }

  return searchParams.toString();
'''
PF = 'common/utils/build-pagination-query.ts'
r('pagination-entries', (PF, PB, '''  const { limit, after, before } = options as Record<string, any>;
  const searchParams = new URLSearchParams();

  for (const [key, value] of Object.entries({ limit, after, before })) {
    if (value !== undefined) {
      searchParams.append(key, String(value));
    }
  }

  return searchParams.toString();
'''))
r('pagination-keys-list', (PF, PB, '''  const searchParams = new URLSearchParams();
  const source = options as Record<string, string | number | undefined>;

  for (const key of ['limit', 'after', 'before'] as const) {
    const value = source[key];
    if (value === undefined) continue;
    searchParams.set(key, `${value}`);
  }

  return searchParams.toString();
'''))
r('pagination-manual', (PF, PB, '''  const parts: string[] = [];
  const { limit, after, before } = options as Record<string, any>;

  if (limit !== undefined) {
    parts.push(`limit=${encodeURIComponent(String(limit))}`);
  }
  if (after !== undefined) {
    parts.push(`after=${encodeURIComponent(after)}`);
  }
  if (before !== undefined) {
    parts.push(`before=${encodeURIComponent(before)}`);
  }

  return parts.join('&');
'''))
r('pagination-filter-map', (PF, PB, '''  const { limit, after, before } = options as Record<string, any>;
  const pairs: [string, any][] = [
    ['limit', limit],
    ['after', after],
    ['before', before],
  ];

  return new URLSearchParams(
    pairs
      .filter(([, value]) => value !== undefined)
      .map(([key, value]): [string, string] => [key, String(value)]),
  ).toString();
'''))
r('pagination-record', (PF, PB, '''  const { limit, after, before } = options as Record<string, any>;
  const params: Record<string, string> = {
    ...(limit !== undefined && { limit: limit.toString() }),
    ...(after !== undefined && { after }),
    ...(before !== undefined && { before }),
  };

  return new URLSearchParams(params).toString();
'''))
r('pagination-reverse-order', (PF, PB, '''  const query = new URLSearchParams();
  const setIfDefined = (key: string, value: string | undefined) => {
    if (value !== undefined) {
      query.set(key, value);
    }
  };

  setIfDefined('before', 'before' in options ? options.before : undefined);
  setIfDefined('after', 'after' in options ? options.after : undefined);
  setIfDefined('limit', options.limit?.toString());

  return query.toString();
'''))
r('pagination-url-if', (PF, '''  const queryString = buildPaginationQuery(options);

  return queryString ? `${base}?${queryString}` : base;
''', '''  const queryString = buildPaginationQuery(options);
  if (queryString.length === 0) {
    return base;
  }
  return base + '?' + queryString;
'''))
r('pagination-props-manual', ('common/utils/get-pagination-query-properties.ts', '''  return query.size > 0 ? `?${query.toString()}` : '';
''', '''  const text = query.toString();
  return text === '' ? text : `?${text}`;
'''))
r('pagination-props-array', ('common/utils/get-pagination-query-properties.ts', '''  if (options.before != null) query.set('before', options.before);
  if (options.after != null) query.set('after', options.after);
  if (options.limit != null) {
    query.set('limit', options.limit.toString());
  }
''', '''  for (const key of ['before', 'after', 'limit'] as const) {
    const value = (options as any)[key];
    if (value != null) {
      query.set(key, value.toString());
    }
  }
'''))

# emails
r('email-destructure', ('common/utils/parse-email-to-api-options.ts', '''  return {
    attachments: parseAttachments(email.attachments),
    bcc: email.bcc,
    cc: email.cc,
    from: email.from,
    headers: email.headers,
    html: email.html,
    reply_to: email.replyTo,
    scheduled_at: email.scheduledAt,
    subject: email.subject,
    tags: email.tags,
    text: email.text,
    to: email.to,
    template: email.template
      ? {
          id: email.template.id,
          variables: email.template.variables,
        }
      : undefined,
    topic_id: email.topicId,
  };
''', '''  const {
    replyTo: reply_to,
    scheduledAt: scheduled_at,
    topicId: topic_id,
    template,
    attachments,
    bcc,
    cc,
    from,
    headers,
    html,
    subject,
    tags,
    text,
    to,
  } = email;
  const result: any = {
    attachments: parseAttachments(attachments),
    bcc,
    cc,
    from,
    headers,
    html,
    reply_to,
    scheduled_at,
    subject,
    tags,
    text,
    to,
    topic_id,
  };
  if (template) {
    const { id, variables } = template;
    result.template = { id, variables };
  }
  return result;
'''))
r('email-attachments-loop', ('common/utils/parse-email-to-api-options.ts', '''  return attachments?.map((attachment) => ({
    content: attachment.content,
    filename: attachment.filename,
    path: attachment.path,
    content_type: attachment.contentType,
    content_id: attachment.contentId,
  }));
''', '''  if (!attachments) {
    return undefined;
  }
  const result: EmailApiAttachment[] = [];
  for (const { content, filename, path, contentType, contentId } of attachments) {
    result.push({
      content,
      filename,
      path,
      content_type: contentType,
      content_id: contentId,
    });
  }
  return result;
'''))
r('email-attachments-from', ('common/utils/parse-email-to-api-options.ts', '  return attachments?.map((attachment) => ({', '  return attachments && Array.from(attachments, (attachment) => ({'))
r('email-attachments-foreach', ('common/utils/parse-email-to-api-options.ts', '''  return attachments?.map((attachment) => ({
    content: attachment.content,
    filename: attachment.filename,
    path: attachment.path,
    content_type: attachment.contentType,
    content_id: attachment.contentId,
  }));
''', '''  const result: EmailApiAttachment[] | undefined = attachments ? [] : undefined;
  attachments?.forEach((attachment) => {
    const { contentType, contentId, ...rest } = attachment;
    result?.push({
      content: rest.content,
      filename: rest.filename,
      path: rest.path,
      content_type: contentType,
      content_id: contentId,
    });
  });
  return result;
'''))
r('email-create-helper', ('emails/emails.ts', '''    const body: CreateEmailOptions = { ...payload };

    if (payload.react) {
      body.html = await render(payload.react);
    }

    const data = await this.resend.post<CreateEmailResponseSuccess>(
      '/emails',
      parseEmailToApiOptions(body),
      options,
    );

    return data;
''', '''    const html = payload.react ? await render(payload.react) : payload.html;
    const apiOptions = parseEmailToApiOptions(payload);
    apiOptions.html = html;

    return await this.resend.post<CreateEmailResponseSuccess>(
      '/emails',
      apiOptions,
      options,
    );
'''))
r('metrics-chained', ('emails/emails.ts', '''  const params: Record<string, string | undefined> = {
    start_date: options.startDate,
    end_date: options.endDate,
    timezone: options.timezone,
    granularity: options.granularity,
    metrics: options.metrics?.join(','),
    dimensions: options.dimensions?.join(','),
    domain_id: options.domainId?.join(','),
    email_id: options.emailId?.join(','),
    broadcast_id: options.broadcastId?.join(','),
  };

  const searchParams = new URLSearchParams();
  for (const [key, value] of Object.entries(params)) {
    if (value !== undefined && value !== '') {
      searchParams.set(key, value);
    }
  }

  return searchParams.toString();
''', '''  const searchParams = new URLSearchParams();
  const add = (key: string, value: string | string[] | undefined) => {
    const text = Array.isArray(value) ? value.join(',') : value;
    if (text) {
      searchParams.set(key, text);
    }
  };

  add('start_date', options.startDate);
  add('end_date', options.endDate);
  add('timezone', options.timezone);
  add('granularity', options.granularity);
  add('metrics', options.metrics);
  add('dimensions', options.dimensions);
  add('domain_id', options.domainId);
  add('email_id', options.emailId);
  add('broadcast_id', options.broadcastId);

  return searchParams.toString();
'''))
r('metrics-table', ('emails/emails.ts', '''  const searchParams = new URLSearchParams();
  for (const [key, value] of Object.entries(params)) {
    if (value !== undefined && value !== '') {
      searchParams.set(key, value);
    }
  }

  return searchParams.toString();
''', '''  return new URLSearchParams(
    Object.fromEntries(
      Object.entries(params).filter(([, value]) => Boolean(value)),
    ) as Record<string, string>,
  ).toString();
'''))
r('metrics-keys-map', ('emails/emails.ts', '''  const searchParams = new URLSearchParams();
  for (const [key, value] of Object.entries(params)) {
    if (value !== undefined && value !== '') {
      searchParams.set(key, value);
    }
  }

  return searchParams.toString();
''', '''  return Object.keys(params)
    .filter((key) => params[key] !== undefined && params[key] !== '')
    .map((key) => `${key}=${encodeURIComponent(params[key] as string)}`)
    .join('&');
'''))
# broadcasts
r('broadcast-shared-mapper', ('broadcasts/broadcasts.ts', '''      {
        name: payload.name,
        segment_id: payload.segmentId,
        audience_id: payload.audienceId,
        preview_text: payload.previewText,
        from: payload.from,
        html,
        reply_to: payload.replyTo,
        subject: payload.subject,
        text: payload.text,
        topic_id: payload.topicId,
        send: payload.send,
        scheduled_at: payload.scheduledAt,
      },
''', '''      {
        ...toApiOptions(payload, html),
        send: payload.send,
        scheduled_at: payload.scheduledAt,
      },
'''), ('broadcasts/broadcasts.ts', '''      {
        name: payload.name,
        segment_id: payload.segmentId,
        audience_id: payload.audienceId,
        from: payload.from,
        html,
        text: payload.text,
        subject: payload.subject,
        reply_to: payload.replyTo,
        preview_text: payload.previewText,
        topic_id: payload.topicId,
      },
''', '''      toApiOptions(payload, html),
'''), ('broadcasts/broadcasts.ts', 'function buildRecipientsQuery', '''function toApiOptions(
  payload: CreateBroadcastOptions | UpdateBroadcastOptions,
  html: string | undefined,
) {
  return {
    name: payload.name,
    segment_id: payload.segmentId,
    audience_id: payload.audienceId,
    preview_text: payload.previewText,
    from: payload.from,
    html,
    reply_to: payload.replyTo,
    subject: payload.subject,
    text: payload.text,
    topic_id: payload.topicId,
  };
}

function buildRecipientsQuery'''))
r('broadcast-let-html', ('broadcasts/broadcasts.ts', '''    const html = payload.react ? await render(payload.react) : payload.html;
''', '''    let html = payload.html;
    if (payload.react) {
      html = await render(payload.react);
    }
'''))
r('broadcast-recipients-inline', ('broadcasts/broadcasts.ts', '''  const { type, email, bounceType, ...pagination } = options;
  const searchParams = new URLSearchParams(buildPaginationQuery(pagination));

  searchParams.set('type', type);

  if (email !== undefined) {
    searchParams.set('email', email);
  }

  if (bounceType !== undefined) {
    searchParams.set('bounce_type', bounceType);
  }

  return searchParams.toString();
''', '''  const searchParams = new URLSearchParams({ type: options.type });

  if (options.email !== undefined) {
    searchParams.append('email', options.email);
  }

  if (options.bounceType !== undefined) {
    searchParams.append('bounce_type', options.bounceType);
  }

  const pagination = buildPaginationQuery(options);
  return pagination ? `${searchParams}&${pagination}` : `${searchParams}`;
'''))
# contacts
CID = '''encodeContactIdentifier(options?.email ? options?.email : options?.id)'''
r('contacts-identifier-or', ('contacts/contacts.ts', CID, 'encodeContactIdentifier(options.email || options.id)'), ('contacts/contacts.ts', 'encodeContactIdentifier(payload?.email ? payload?.email : payload?.id)', 'encodeContactIdentifier(payload.email || payload.id)'))
r('contacts-get-path-var', ('contacts/contacts.ts', '''    if (!options.audienceId) {
      return this.resend.get<GetContactResponseSuccess>(
        `/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
      );
    }

    return this.resend.get<GetContactResponseSuccess>(
      `/audiences/${options.audienceId}/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
    );
''', '''    const identifier = encodeContactIdentifier(options.email ? options.email : options.id);
    const prefix = options.audienceId ? `/audiences/${options.audienceId}` : '';

    return this.resend.get<GetContactResponseSuccess>(
      `${prefix}/contacts/${identifier}`,
    );
'''))
r('contacts-create-merged', ('contacts/contacts.ts', '''      const data = await this.resend.post<CreateContactResponseSuccess>(
        `/audiences/${payload.audienceId}/contacts`,
        {
          unsubscribed: payload.unsubscribed,
          email: payload.email,
          first_name: payload.firstName,
          last_name: payload.lastName,
          properties: payload.properties,
        },
        options,
      );
      return data;
    }
''', '''    }
    const base = {
      unsubscribed: payload.unsubscribed,
      email: payload.email,
      first_name: payload.firstName,
      last_name: payload.lastName,
      properties: payload.properties,
    };
    if ('audienceId' in payload && payload.audienceId !== undefined) {
      return this.resend.post<CreateContactResponseSuccess>(
        `/audiences/${payload.audienceId}/contacts`,
        base,
        options,
      );
    }
'''), ('contacts/contacts.ts', '''      '/contacts',
      {
        unsubscribed: payload.unsubscribed,
        email: payload.email,
        first_name: payload.firstName,
        last_name: payload.lastName,
        properties: payload.properties,
        segments: 'segments' in payload''', '''      '/contacts',
      {
        ...base,
        segments: 'segments' in payload'''))
r('contacts-list-ternary', ('contacts/contacts.ts', '''    if (!segmentId) {
      const url = buildPaginationUrl('/contacts', options);
      const data = await this.resend.get<ListContactsResponseSuccess>(url);
      return data;
    }

    const url = buildPaginationUrl(`/segments/${segmentId}/contacts`, options);
    const data = await this.resend.get<ListContactsResponseSuccess>(url);
    return data;
''', '''    const base = segmentId ? `/segments/${segmentId}/contacts` : '/contacts';
    return this.resend.get<ListContactsResponseSuccess>(
      buildPaginationUrl(base, options),
    );
'''))
r('contacts-missing-const', ('contacts/topics/contact-topics.ts', '''      return {
        data: null,
        headers: null,
        error: {
          message: 'Missing `id` or `email` field.',
          statusCode: null,
          name: 'missing_required_field',
        },
      };
''', '''      return missingIdentifier();
'''), ('contacts/topics/contact-topics.ts', 'export class ContactTopics', '''function missingIdentifier() {
  return {
    data: null,
    headers: null,
    error: {
      message: 'Missing `id` or `email` field.',
      statusCode: null,
      name: 'missing_required_field' as const,
    },
  };
}

export class ContactTopics'''))
r('contacts-segments-demorgan', ('contacts/segments/contact-segments.ts', '''    if (!options.contactId && !options.email) {''', '''    if (!(options.contactId || options.email)) {'''), ('contacts/segments/contact-segments.ts', 'const identifier = options.email ? options.email : options.contactId;', 'const { contactId, email } = options;\n    const identifier = email || contactId;'))
r('encode-at-split', ('common/utils/encode-contact-identifier.ts', '''  return encodeURIComponent(`${identifier}`).replace(/%40/g, '@');
''', '''  return `${identifier}`.split('@').map(encodeURIComponent).join('@');
'''))
r('encode-replaceall', ('common/utils/encode-contact-identifier.ts', '''.replace(/%40/g, '@')''', '''.replaceAll('%40', '@')'''))
r('encode-plain', ('common/utils/encode-contact-identifier.ts', '''encodeURIComponent(`${identifier}`).replace(/%40/g, '@')''', '''encodeURIComponent(String(identifier))'''))
r('encode-splitjoin', ('common/utils/encode-contact-identifier.ts', '''encodeURIComponent(`${identifier}`).replace(/%40/g, '@')''', '''encodeURIComponent(`${identifier}`).split('%40').join('@')'''))
# contact properties
r('props-list-early', ('contact-properties/contact-properties.ts', '''    if (response.data) {
      return {
        data: {
          ...response.data,
          data: response.data.data.map((apiContactProperty) =>
            parseContactPropertyFromApi(apiContactProperty),
          ),
        },
        headers: response.headers,
        error: null,
      };
    }

    return response;
''', '''    if (!response.data) {
      return response;
    }

    const data = [];
    for (const item of response.data.data) {
      data.push(parseContactPropertyFromApi(item));
    }

    return {
      ...response,
      data: { ...response.data, data },
    } as any;
'''))
r('props-list-pointfree', ('contact-properties/contact-properties.ts', '''response.data.data.map((apiContactProperty) =>
            parseContactPropertyFromApi(apiContactProperty),
          )''', '''response.data.data.map(parseContactPropertyFromApi)'''))
r('props-from-api-destructure', ('common/utils/parse-contact-properties-to-api-options.ts', '''  return {
    id: contactProperty.id,
    key: contactProperty.key,
    createdAt: contactProperty.created_at,
    type: contactProperty.type,
    fallbackValue: contactProperty.fallback_value,
  } as ContactProperty;
''', '''  const { id, key, created_at: createdAt, type, fallback_value: fallbackValue } = contactProperty;
  return { id, key, createdAt, type, fallbackValue } as ContactProperty;
'''))
r('props-missing-guard', ('contact-properties/contact-properties.ts', '''    if (!id) {
      return {
        data: null,
        headers: null,
        error: {
          message: 'Missing `id` field.',
          statusCode: null,
          name: 'missing_required_field',
        },
      };
    }
''', '''    const missing = this.requireId(id);
    if (missing) {
      return missing;
    }
'''), ('contact-properties/contact-properties.ts', '''  async list(
''', '''  private requireId(id: string) {
    return id
      ? undefined
      : {
          data: null,
          headers: null,
          error: {
            message: 'Missing `id` field.',
            statusCode: null,
            name: 'missing_required_field' as const,
          },
        };
  }

  async list(
'''))
# automations
SW = 'common/utils/parse-automation-to-api-options.ts'
r('automation-config-helper', (SW, '''  switch (step.type) {
    case 'trigger':
      return {
        key: step.key,
        type: step.type,
        config: { event_name: step.config.eventName },
      };
    case 'delay':
      return { key: step.key, type: step.type, config: step.config };
    case 'send_email':
      return {
        key: step.key,
        type: step.type,
        config: {
          template: step.config.template,
          subject: step.config.subject,
          from: step.config.from,
          reply_to: step.config.replyTo,
        },
      };
    case 'wait_for_event':
      return {
        key: step.key,
        type: step.type,
        config: {
          event_name: step.config.eventName,
          timeout: step.config.timeout,
          filter_rule: step.config.filterRule,
        },
      };
    case 'condition':
      return { key: step.key, type: step.type, config: step.config };
    case 'contact_update':
      return {
        key: step.key,
        type: step.type,
        config: {
          first_name: step.config.firstName,
          last_name: step.config.lastName,
          unsubscribed: step.config.unsubscribed,
          properties: step.config.properties,
        },
      };
    case 'contact_delete':
      return { key: step.key, type: step.type, config: step.config };
    case 'add_to_segment':
      return {
        key: step.key,
        type: step.type,
        config: { segment_id: step.config.segmentId },
      };
  }
}
''', '''  const { key, type } = step;
  return { key, type, config: parseConfig(step) };
}

function parseConfig(step: AutomationStep): unknown {
  if (step.type === 'trigger') {
    return { event_name: step.config.eventName };
  }
  if (step.type === 'send_email') {
    const { template, subject, from, replyTo } = step.config;
    return { template, subject, from, reply_to: replyTo };
  }
  if (step.type === 'wait_for_event') {
    const { eventName, timeout, filterRule } = step.config;
    return { event_name: eventName, timeout, filter_rule: filterRule };
  }
  if (step.type === 'contact_update') {
    const { firstName, lastName, ...rest } = step.config;
    return {
      first_name: firstName,
      last_name: lastName,
      unsubscribed: rest.unsubscribed,
      properties: rest.properties,
    };
  }
  if (step.type === 'add_to_segment') {
    return { segment_id: step.config.segmentId };
  }
  return step.config;
}
'''))
r('automation-fallthrough', (SW, '''    case 'delay':
      return { key: step.key, type: step.type, config: step.config };
''', '''    case 'delay':
    case 'condition':
    case 'contact_delete':
      return { key: step.key, type: step.type, config: step.config };
'''), (SW, '''    case 'condition':
      return { key: step.key, type: step.type, config: step.config };
    case 'contact_update':''', '''    case 'contact_update':'''), (SW, '''    case 'contact_delete':
      return { key: step.key, type: step.type, config: step.config };
    case 'add_to_segment':''', '''    case 'add_to_segment':'''))
r('automation-map-lambda', (SW, 'automation.steps.map(parseStepConfig)', 'automation.steps.map((step) => parseStepConfig(step))'), (SW, 'automation.connections.map(parseConnection)', 'automation.connections.map(({ from, to, type }) => ({ from, to, type }))'))
r('automation-lookup-table', (SW, '''  switch (step.type) {
    case 'trigger':
      return {
        key: step.key,
        type: step.type,
        config: { event_name: step.config.eventName },
      };
''', '''  const passthrough: Record<string, boolean> = {
    delay: true,
    condition: true,
    contact_delete: true,
  };
  if (passthrough[step.type]) {
    return { key: step.key, type: step.type, config: step.config };
  }
  switch (step.type as string) {
    case 'trigger':
      return {
        key: step.key,
        type: step.type,
        config: { event_name: (step as any).config.eventName },
      };
'''), (SW, '): AutomationStepApiOptions {\n', '): AutomationStepApiOptions | any {\n'))
r('automation-update-spread', ('automations/automations.ts', '''    const apiPayload: Record<string, unknown> = {};

    if (payload.name !== undefined) {
      apiPayload.name = payload.name;
    }
    if (payload.status !== undefined) {
      apiPayload.status = payload.status;
    }
    if (payload.steps !== undefined) {
      apiPayload.steps = payload.steps.map(parseStepConfig);
    }
    if (payload.connections !== undefined) {
      apiPayload.connections = payload.connections.map(parseConnection);
    }
''', '''    const { name, status, steps, connections } = payload;
    const apiPayload = {
      name,
      status,
      steps: steps?.map(parseStepConfig),
      connections: connections?.map(parseConnection),
    };
'''))
r('automation-list-params', ('automations/automations.ts', '''    const queryString = buildPaginationQuery(options);
    const params = [queryString];

    if (options.status) {
      params.push(`status=${encodeURIComponent(options.status)}`);
    }

    const qs = params.filter(Boolean).join('&');
    const url = qs ? `/automations?${qs}` : '/automations';
''', '''    const params = new URLSearchParams(buildPaginationQuery(options));

    if (options.status) {
      params.set('status', options.status);
    }

    const qs = params.toString();
    const url = qs.length > 0 ? `/automations?${qs}` : '/automations';
'''))
r('automation-runs-concat', ('automation-runs/automation-runs.ts', '''      const statusValue = Array.isArray(options.status)
        ? options.status.join(',')
        : options.status;
      searchParams.set('status', statusValue);
''', '''      const values = ([] as string[]).concat(options.status);
      searchParams.set('status', values.join(','));
'''))
# imports
r('imports-inline', ('contacts/imports/contact-imports.ts', '''    this.appendField(
      formData,
      'column_map',
      this.buildColumnMap(payload.columnMap ?? null),
    );
    this.appendField(formData, 'on_conflict', payload.onConflict ?? null);
    this.appendField(formData, 'segments', payload.segments ?? null);
    this.appendField(formData, 'topics', payload.topics ?? null);
''', '''    const fields: Record<string, ContactImportFormFieldValue> = {
      column_map: this.buildColumnMap(payload.columnMap ?? null),
      on_conflict: payload.onConflict ?? null,
      segments: payload.segments ?? null,
      topics: payload.topics ?? null,
    };

    for (const [name, value] of Object.entries(fields)) {
      this.appendField(formData, name, value);
    }
'''))
r('imports-set', ('contacts/imports/contact-imports.ts', "formData.append('file', payload.file)", "formData.set('file', payload.file)"), ('contacts/imports/contact-imports.ts', '''    formData.append(
      name,
      typeof value === 'string' ? value : JSON.stringify(value),
    );
''', '''    const text = typeof value === 'object' ? JSON.stringify(value) : value;
    formData.append(name, text);
'''))
# topics etc.
r('topics-create-explicit', ('topics/topics.ts', '''    const { defaultSubscription, ...body } = payload;

    const data = await this.resend.post<CreateTopicResponseSuccess>('/topics', {
      ...body,
      default_subscription: defaultSubscription,
    });
''', '''    const body: Record<string, unknown> = { ...payload };
    body.default_subscription = payload.defaultSubscription;
    delete body.defaultSubscription;

    const data = await this.resend.post<CreateTopicResponseSuccess>('/topics', body);
'''))
r('suppressions-switch-helper', ('suppressions/suppressions.ts', '''    if (!idOrEmail) {
      return missingIdentifierError();
    }

    return this.resend.get<''', '''    const path = this.pathOf(idOrEmail);
    if (path === null) {
      return missingIdentifierError();
    }

    return this.resend.get<'''), ('suppressions/suppressions.ts', '''      `/suppressions/${encodeURIComponent(idOrEmail)}`,
    );
  }

  async remove''', '''      path,
    );
  }

  private pathOf(idOrEmail: string): string | null {
    return idOrEmail ? `/suppressions/${encodeURIComponent(idOrEmail)}` : null;
  }

  async remove'''))
r('suppressions-filter', ('suppressions/suppressions.ts', '''  const searchParams = new URLSearchParams(buildPaginationQuery(pagination));

  if (origin) {
    searchParams.set('origin', origin);
  }

  return searchParams.toString();
''', '''  return [
    buildPaginationQuery(pagination),
    origin ? new URLSearchParams({ origin }).toString() : '',
  ]
    .filter((part) => part !== '')
    .join('&');
'''))
# templates
r('templates-then', ('templates/templates.ts', '''    const body: CreateTemplateOptions = { ...payload };

    if (payload.react) {
      body.html = await render(payload.react);
    }

    return this.resend.post''', '''    const body: CreateTemplateOptions = payload.react
      ? { ...payload, html: await render(payload.react) }
      : payload;

    return this.resend.post'''))
r('templates-arrow-publish', ('templates/templates.ts', 'this.publish.bind(this)', '(id) => this.publish(id)'))
r('templates-chain-then', ('templates/chainable-template-result.ts', '''    const { data, error, headers } = await this.promise;

    if (error) {
      return {
        data: null,
        headers,
        error,
      };
    }
    return this.publishFn(data.id);
''', '''    const result = await this;

    if (result.error !== null) {
      return { data: null, error: result.error, headers: result.headers };
    }
    const { id } = result.data as { id: string };
    return await this.publishFn(id);
'''))
r('templates-chain-promise-then', ('templates/chainable-template-result.ts', '''    const { data, error, headers } = await this.promise;

    if (error) {
      return {
        data: null,
        headers,
        error,
      };
    }
    return this.publishFn(data.id);
''', '''    return this.promise.then(({ data, error, headers }) =>
      error
        ? { data: null, headers, error }
        : this.publishFn((data as { id: string }).id),
    );
'''))
r('templates-variables-loop', ('common/utils/parse-template-to-api-options.ts', '''  return variables?.map((variable) => ({
    key: variable.key,
    type: variable.type,
    fallback_value: variable.fallbackValue,
  }));
''', '''  if (variables === undefined || variables === null) {
    return undefined;
  }
  const parsed: TemplateVariableApiOptions[] = [];
  for (const { key, type, fallbackValue } of variables) {
    parsed.push({ key, type, fallback_value: fallbackValue });
  }
  return parsed;
'''))
# webhooks
r('webhook-verify-destructure', ('webhooks/webhooks.ts', '''    const webhook = new Webhook(payload.webhookSecret);
    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;
''', '''    const {
      webhookSecret,
      payload: body,
      headers: { id, timestamp, signature },
    } = payload;
    const headers: Record<string, string> = {};
    headers['webhook-id'] = id;
    headers['webhook-timestamp'] = timestamp;
    headers['webhook-signature'] = signature;
    const event = new Webhook(webhookSecret).verify(body, headers);
    return event as WebhookEventPayload;
'''))
# receiving
r('receiving-subject-helper', ('emails/receiving/receiving.ts', '''    const forwardSubject = originalSubject.startsWith('Fwd:')
      ? originalSubject
      : `Fwd: ${originalSubject}`;
''', '''    let forwardSubject = originalSubject;
    if (!/^Fwd:/.test(originalSubject)) {
      forwardSubject = `Fwd: ${originalSubject}`;
    }
'''))
r('receiving-subject-slice', ('emails/receiving/receiving.ts', '''originalSubject.startsWith('Fwd:')''', '''originalSubject.slice(0, 4) === 'Fwd:\''''))
r('receiving-subject-indexof', ('emails/receiving/receiving.ts', '''originalSubject.startsWith('Fwd:')''', '''originalSubject.indexOf('Fwd:') === 0'''))
r('receiving-download-helper', ('emails/receiving/receiving.ts', '''    let statusCode: number | null = null;

    try {
      const rawResponse = await fetch(url);

      if (rawResponse.ok) {
        return { content: await rawResponse.arrayBuffer(), error: null };
      }

      statusCode = rawResponse.status;
    } catch {
      // The download could not be completed: reported below, like any failure.
    }

    return {
      content: null,
      error: {
        name: 'application_error',
        message: 'Failed to download raw email content',
        statusCode,
      },
    };
''', '''    const failure = (statusCode: number | null) => ({
      content: null,
      error: {
        name: 'application_error' as const,
        message: 'Failed to download raw email content',
        statusCode,
      },
    });
    try {
      const rawResponse = await fetch(url);
      if (!rawResponse.ok) {
        return failure(rawResponse.status);
      }
      const content = await rawResponse.arrayBuffer();
      return { content, error: null };
    } catch {
      return failure(null);
    }
'''))
r('receiving-attachments-push', ('emails/receiving/receiving.ts', '''    const attachments = parsed.attachments.map((attachment) => {
      const contentId = attachment.contentId
        ? attachment.contentId.replace(/^<|>$/g, '')
        : undefined;

      return {
        filename: attachment.filename,
        content: attachment.content.toString(),
        content_type: attachment.mimeType,
        content_id: contentId || undefined,
      };
    });
''', '''    const attachments = [];
    for (const { filename, content, mimeType, contentId } of parsed.attachments) {
      const cleaned = contentId?.replace(/^<|>$/g, '');
      attachments.push({
        filename,
        content: content.toString(),
        content_type: mimeType,
        content_id: cleaned ? cleaned : undefined,
      });
    }
'''), ('emails/receiving/receiving.ts', 'attachments: attachments.length > 0 ? attachments : undefined,', 'attachments: attachments.length ? attachments : undefined,'))
r('receiving-merged-flow', ('emails/receiving/receiving.ts', '''    const emailResponse = await this.get(emailId);

    if (emailResponse.error) {
      return {
        data: null,
        error: emailResponse.error,
        headers: emailResponse.headers,
      };
    }

    const email = emailResponse.data;
''', '''    const { data: email, error, headers } = await this.get(emailId);

    if (error) {
      return { data: null, error, headers };
    }
'''))
r('receiving-get-helper', ('emails/receiving/receiving.ts', '''    const searchParams = new URLSearchParams();

    if (options.html_format !== undefined) {
      searchParams.set('html_format', options.html_format);
    }

    const queryString = searchParams.toString();
    const path = queryString
      ? `/emails/receiving/${id}?${queryString}`
      : `/emails/receiving/${id}`;

    const data''', '''    let path = `/emails/receiving/${id}`;

    if (options.html_format !== undefined) {
      path += `?html_format=${encodeURIComponent(options.html_format)}`;
    }

    const data'''))
r('receiving-uint8', ('emails/receiving/receiving.ts', '''Buffer.from(raw.content).toString('base64')''', '''Buffer.from(new Uint8Array(raw.content)).toString('base64')'''))
r('render-then', ('render.ts', '''  let render: typeof import('@react-email/render').render;
  try {
    ({ render } = await import('@react-email/render'));
  } catch {
    throw new Error(
      'Failed to render React component. Make sure to install `@react-email/render` or `@react-email/components`.',
    );
  }

  return render(node);
''', '''  const module = await import('@react-email/render').catch(() => {
    throw new Error(
      'Failed to render React component. Make sure to install `@react-email/render` or `@react-email/components`.',
    );
  });

  return module.render(node);
'''))
r('domains-pick', ('common/utils/parse-domain-to-api-options.ts', '''  return {
    name: domain.name,
    region: domain.region,
    custom_return_path: domain.customReturnPath,
    capabilities: domain.capabilities,
    open_tracking: domain.openTracking,
    click_tracking: domain.clickTracking,
    tls: domain.tls,
    tracking_subdomain: domain.trackingSubdomain,
  };
''', '''  const api = {} as DomainApiOptions;
  api.name = domain.name;
  api.region = domain.region;
  api.custom_return_path = domain.customReturnPath;
  api.capabilities = domain.capabilities;
  api.open_tracking = domain.openTracking;
  api.click_tracking = domain.clickTracking;
  api.tls = domain.tls;
  api.tracking_subdomain = domain.trackingSubdomain;
  return api;
'''))
r('events-send-pick', (SW, '''  return {
    event: event.event,
    contact_id: event.contactId,
    email: event.email,
    payload: event.payload,
  };
''', '''  const { contactId, event: name, email, payload } = event;
  return Object.assign({ event: name, email, payload }, { contact_id: contactId });
'''))
r('do-nothing-statements', ('resend.ts', '    try {\n      const response = await fetch', '    void 0;\n    try {\n      const response = await fetch'),
  ('batch/batch.ts', '    const headers = new Headers(options?.headers);', "    const unused = typeof payload;\n    void unused;\n    const headers = new Headers(options?.headers);"),
  (PF, '  const searchParams = new URLSearchParams();', '  if (false) {\n    throw new Error();\n  }\n  const searchParams = new URLSearchParams();'),
  ('emails/emails.ts', 'const html', 'const html') if False else ('topics/topics.ts', '    const { defaultSubscription', '    [].length;\n    const { defaultSubscription'))
