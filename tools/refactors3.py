"""A third batch of behaviour-preserving edits (see refactors.py): everyday clean-ups of the kind a reviewer asks for."""
S = 'src/'
R3 = {}


def r(name, *edits):
    R3[name] = [(S + f, o, n) for f, o, n in edits]


RX = 'resend.ts'
REP = '''    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
'''
PQ = 'common/utils/build-pagination-query.ts'
EI = 'common/utils/encode-contact-identifier.ts'
EM = 'emails/emails.ts'
PE = 'common/utils/parse-email-to-api-options.ts'
RC = 'emails/receiving/receiving.ts'
CI = 'contacts/imports/contact-imports.ts'
CO = 'contacts/contacts.ts'
CT = 'contacts/topics/contact-topics.ts'
CS = 'contacts/segments/contact-segments.ts'
WH = 'webhooks/webhooks.ts'
BA = 'batch/batch.ts'
BR = 'broadcasts/broadcasts.ts'
CH = 'templates/chainable-template-result.ts'
TM = 'templates/templates.ts'
PT = 'common/utils/parse-template-to-api-options.ts'
GP = 'common/utils/get-pagination-query-properties.ts'
PA = 'common/utils/parse-automation-to-api-options.ts'
AU = 'automations/automations.ts'
AR = 'automation-runs/automation-runs.ts'
CP = 'contact-properties/contact-properties.ts'
SU = 'suppressions/suppressions.ts'
TO = 'topics/topics.ts'

r('y-hdr-if-outside', (RX, REP, '''    const extra = options.headers ? new Headers(options.headers) : undefined;
    if (extra) {
      for (const [name, value] of extra) {
        headers.set(name, value);
      }
    }
'''))
r('y-hdr-while', (RX, REP, '''    if (options.headers) {
      const pairs = [...new Headers(options.headers).entries()];
      for (let i = 0; i < pairs.length; i++) {
        const [key, value] = pairs[i];
        headers.set(key, value);
      }
    }
'''))
r('y-hdr-guard-continue', (RX, REP, '''    for (const [key, value] of new Headers(options.headers ?? undefined).entries()) {
      headers.set(key, value);
    }
'''))
r('y-hdr-module-helper', (RX, 'const defaultBaseUrl', '''function mergeHeaders(base: Headers, overrides?: HeadersInit | null): Headers {
  const merged = new Headers(base);
  if (!overrides) {
    return merged;
  }
  for (const [key, value] of new Headers(overrides).entries()) {
    merged.set(key, value);
  }
  return merged;
}

const defaultBaseUrl'''), (RX, "    const headers = new Headers(this.headers);\n" + REP, '    const headers = mergeHeaders(this.headers, options.headers as HeadersInit);\n'))
r('y-idem-inline', (RX, '''    if (options.idempotencyKey) {
      headers.set('Idempotency-Key', options.idempotencyKey);
    }
    const requestOptions = {''', '''    const { idempotencyKey } = options;
    if (idempotencyKey) {
      headers.set('Idempotency-Key', idempotencyKey);
    }

    const requestOptions = {'''))
r('y-form-late', (RX, '''    const isFormData =
      typeof FormData !== 'undefined' && entity instanceof FormData;

    if (isFormData) {
      headers.delete('Content-Type');
    }
''', '''    let isFormData = false;
    if (typeof FormData !== 'undefined') {
      isFormData = entity instanceof FormData;
    }

    if (isFormData) {
      headers.delete('Content-Type');
    }
'''))
r('y-form-body', (RX, '''      body: isFormData ? entity : JSON.stringify(entity),
''', '''      body: !isFormData ? JSON.stringify(entity) : entity,
'''))
r('y-delete-body-let', (RX, '''      body: query === undefined ? undefined : JSON.stringify(query),
''', '''      body: query !== undefined ? JSON.stringify(query) : undefined,
'''))
r('y-envelope-helpers', (RX, 'const defaultBaseUrl', '''function failure(error: ErrorResponse, headers: Record<string, string> | null) {
  return { data: null, error, headers } as const;
}

const defaultBaseUrl'''), (RX, '''            return {
              data: null,
              error: errorWithMessage,
              headers: Object.fromEntries(response.headers.entries()),
            };
''', '''            return failure(errorWithMessage, Object.fromEntries(response.headers.entries()));
'''), (RX, '''      return {
        data: null,
        error,
        headers: null,
      };
''', '''      return failure(error, null);
'''))
r('y-headers-once', (RX, '''      const response = await fetch(`${this.baseUrl}${path}`, options);
''', '''      const response = await fetch(`${this.baseUrl}${path}`, options);
      const headerRecord = () => Object.fromEntries(response.headers.entries());
'''), (RX, 'headers: Object.fromEntries(response.headers.entries()),', 'headers: headerRecord(),'))
r('y-error-split', (RX, '''      if (!response.ok) {
        try {''', '''      const failed = !response.ok;

      if (failed) {
        try {'''))
r('y-error-order', (RX, '''          if (typeof parsedError !== 'object' || parsedError === null) {''', '''          const isObject = parsedError !== null && typeof parsedError === 'object';
          if (!isObject) {'''))
r('y-url-concat', (RX, 'fetch(`${this.baseUrl}${path}`, options)', 'fetch(this.baseUrl + path, options)'))
r('y-log-guard', (RX, '''    if (
      typeof process !== 'undefined' &&
      process.env &&
      process.env.NODE_ENV !== 'production'
    ) {
      console.error(''', '''    const hasEnv = typeof process !== 'undefined' && process.env;
    if (hasEnv && process.env.NODE_ENV !== 'production') {
      console.error('''))
r('y-log-details', (RX, '''      console.error('[Resend API Error]:', {
        ...(status !== undefined && { status }),
        error,
        path,
      });''', '''      const details = status === undefined ? { error, path } : { status, error, path };
      console.error('[Resend API Error]:', details);'''))
r('y-env-shared', (RX, '''function getDefaultBaseUrl(): string {
  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_BASE_URL || defaultBaseUrl
    : defaultBaseUrl;
}
''', '''function hasProcessEnv(): boolean {
  return typeof process !== 'undefined' && Boolean(process.env);
}

function getDefaultBaseUrl(): string {
  if (!hasProcessEnv()) {
    return defaultBaseUrl;
  }
  return process.env.RESEND_BASE_URL || defaultBaseUrl;
}
'''))
r('y-ctor-nullish', (RX, '''    if (!key) {
      if (typeof process !== 'undefined' && process.env) {
        this.key = process.env.RESEND_API_KEY;
      }

      if (!this.key) {
        throw''', '''    if (!key && typeof process !== 'undefined' && process.env) {
      this.key = process.env.RESEND_API_KEY;
    }

    if (!this.key) {
      {
        throw'''))
r('y-ctor-const-headers', (RX, "      Authorization: `Bearer ${this.key}`,", "      Authorization: 'Bearer ' + this.key,"))

r('y-page-options-destr', (PQ, '''  if (options.limit !== undefined) {
    searchParams.set('limit', options.limit.toString());
  }
''', '''  const { limit } = options;
  if (limit !== undefined) {
    searchParams.set('limit', String(limit));
  }
'''))
r('y-page-cursor-helper', (PQ, '''  if ('after' in options && options.after !== undefined) {
    searchParams.set('after', options.after);
  }

  if ('before' in options && options.before !== undefined) {
    searchParams.set('before', options.before);
  }
''', '''  const setCursor = (name: 'after' | 'before', value?: string) => {
    if (value !== undefined) {
      searchParams.set(name, value);
    }
  };
  setCursor('after', options.after);
  setCursor('before', options.before);
'''))
r('y-page-loop-names', (PQ, '''  if ('after' in options && options.after !== undefined) {
    searchParams.set('after', options.after);
  }

  if ('before' in options && options.before !== undefined) {
    searchParams.set('before', options.before);
  }
''', '''  for (const cursor of ['after', 'before'] as const) {
    const value = options[cursor];
    if (value !== undefined) {
      searchParams.append(cursor, value);
    }
  }
'''))
r('y-page-url-if', (PQ, '''  return queryString ? `${base}?${queryString}` : base;
''', '''  if (queryString === '') {
    return base;
  }

  return base + '?' + queryString;
'''))
r('y-page-props-if', (GP, "  return query.size > 0 ? `?${query.toString()}` : '';", '''  const serialized = query.toString();
  return serialized === '' ? serialized : `?${serialized}`;'''))
r('y-page-props-braces', (GP, "  if (options.before != null) query.set('before', options.before);\n  if (options.after != null) query.set('after', options.after);\n", '''  const { before, after } = options;
  if (before !== undefined && before !== null) {
    query.set('before', before);
  }
  if (after !== undefined && after !== null) {
    query.set('after', after);
  }
'''))
r('y-contact-id-const', (EI, "  return encodeURIComponent(`${identifier}`).replace(/%40/g, '@');", '''  const encoded = encodeURIComponent(String(identifier));

  return encoded.replaceAll('%40', '@');'''))
r('y-contact-id-join', (EI, "encodeURIComponent(`${identifier}`).replace(/%40/g, '@')", "encodeURIComponent(`${identifier}`).split('%40').join('@')"))

r('y-att-helper', (PE, '''  return attachments?.map((attachment) => ({
    content: attachment.content,
    filename: attachment.filename,
    path: attachment.path,
    content_type: attachment.contentType,
    content_id: attachment.contentId,
  }));''', '''  if (!attachments) {
    return undefined;
  }

  const parsed: EmailApiAttachment[] = [];
  for (const { content, filename, path, contentType, contentId } of attachments) {
    parsed.push({ content, filename, path, content_type: contentType, content_id: contentId });
  }
  return parsed;'''))
r('y-email-template-helper', (PE, '''    template: email.template
      ? {
          id: email.template.id,
          variables: email.template.variables,
        }
      : undefined,''', '''    template: parseTemplate(email.template),'''), (PE, 'export function parseEmailToApiOptions', '''function parseTemplate(template: CreateEmailOptions['template']) {
  if (!template) {
    return undefined;
  }
  const { id, variables } = template;
  return { id, variables };
}

export function parseEmailToApiOptions'''))
r('y-email-reorder', (PE, '''    bcc: email.bcc,
    cc: email.cc,
    from: email.from,''', '''    from: email.from,
    cc: email.cc,
    bcc: email.bcc,'''))
r('y-email-create-html', (EM, '''    const body: CreateEmailOptions = { ...payload };

    if (payload.react) {
      body.html = await render(payload.react);
    }

    const data''', '''    const html = payload.react ? await render(payload.react) : payload.html;
    const body = { ...payload, html } as CreateEmailOptions;

    const data'''))
r('y-email-create-return', (EM, '''    const data = await this.resend.post<CreateEmailResponseSuccess>(
      '/emails',
      parseEmailToApiOptions(body),
      options,
    );

    return data;''', '''    return this.resend.post<CreateEmailResponseSuccess>(
      '/emails',
      parseEmailToApiOptions(body),
      options,
    );'''))
r('y-metrics-csv', (EM, '''    metrics: options.metrics?.join(','),
    dimensions: options.dimensions?.join(','),''', '''    metrics: csv(options.metrics),
    dimensions: csv(options.dimensions),'''), (EM, 'function buildMetricsQuery', '''function csv(values?: readonly string[]): string | undefined {
  return values === undefined ? undefined : values.join(',');
}

function buildMetricsQuery'''))
r('y-metrics-continue', (EM, '''    if (value !== undefined && value !== '') {
      searchParams.set(key, value);
    }''', '''    if (!value) {
      continue;
    }
    searchParams.append(key, value);'''))
r('y-metrics-url', (EM, '''    const url = queryString
      ? `/emails/metrics?${queryString}`
      : '/emails/metrics';
''', '''    let url = '/emails/metrics';
    if (queryString) {
      url += `?${queryString}`;
    }
'''))
r('y-share-destr', (EM, '''      { expires_in: payload?.expiresIn },''', '''      { expires_in: payload ? payload.expiresIn : undefined },'''))

r('y-batch-ternary', (BA, '''      if (email.react) {
        const html = await render(email.react);

        emails.push(parseEmailToApiOptions({ ...email, html }));
      } else {
        emails.push(parseEmailToApiOptions(email));
      }''', '''      const prepared = email.react
        ? { ...email, html: await render(email.react) }
        : email;
      emails.push(parseEmailToApiOptions(prepared));'''))
r('y-batch-continue', (BA, '''      if (email.react) {
        const html = await render(email.react);

        emails.push(parseEmailToApiOptions({ ...email, html }));
      } else {
        emails.push(parseEmailToApiOptions(email));
      }''', '''      if (!email.react) {
        emails.push(parseEmailToApiOptions(email));
        continue;
      }

      emails.push(parseEmailToApiOptions({ ...email, html: await render(email.react) }));'''))
r('y-batch-index', (BA, 'for (const email of payload) {', 'for (let i = 0; i < payload.length; i++) {\n      const email = payload[i];'))
r('y-batch-headers-helper', (BA, '''    const headers = new Headers(options?.headers);

    if (!headers.has('x-batch-validation')) {
      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
    }
''', '''    const validation = options?.batchValidation ?? 'strict';
    const headers = withBatchValidation(new Headers(options?.headers), validation);
'''), (BA, 'export class Batch', '''function withBatchValidation(headers: Headers, validation: string): Headers {
  if (headers.has('x-batch-validation')) {
    return headers;
  }
  headers.set('x-batch-validation', validation);
  return headers;
}

export class Batch'''))
r('y-batch-opts', (BA, '''      {
        ...options,
        headers,
      },''', '''      Object.assign({}, options, { headers }),'''))

r('y-auto-step-base', (PA, '''  switch (step.type) {
    case 'trigger':
      return {
        key: step.key,
        type: step.type,
        config: { event_name: step.config.eventName },
      };''', '''  const { key, type } = step;
  switch (step.type) {
    case 'trigger':
      return { key, type, config: { event_name: step.config.eventName } };'''))
r('y-auto-merge-cases', (PA, '''    case 'delay':
      return { key: step.key, type: step.type, config: step.config };
''', ''), (PA, '''    case 'condition':
      return''', '''    case 'delay':
    case 'condition':
      return'''))
r('y-auto-lambda', (PA, 'automation.steps.map(parseStepConfig)', 'automation.steps.map((step) => parseStepConfig(step))'), (PA, 'automation.connections.map(parseConnection)', 'automation.connections.map((connection) => parseConnection(connection))'))
r('y-auto-update-spread', (AU, '''    const apiPayload: Record<string, unknown> = {};

    if (payload.name !== undefined) {
      apiPayload.name = payload.name;
    }
    if (payload.status !== undefined) {
      apiPayload.status = payload.status;
    }
    if (payload.steps !== undefined) {
      apiPayload.steps = payload.steps.map(parseStepConfig);
    }
    if (payload.connections !== undefined) {
      apiPayload.connections = payload.connections.map(parseConnection);
    }
''', '''    const { name, status, steps, connections } = payload;
    const apiPayload: Record<string, unknown> = {
      ...(name !== undefined && { name }),
      ...(status !== undefined && { status }),
      ...(steps !== undefined && { steps: steps.map(parseStepConfig) }),
      ...(connections !== undefined && { connections: connections.map(parseConnection) }),
    };
'''))
r('y-auto-update-optional', (AU, '''    const apiPayload: Record<string, unknown> = {};

    if (payload.name !== undefined) {
      apiPayload.name = payload.name;
    }
    if (payload.status !== undefined) {
      apiPayload.status = payload.status;
    }
    if (payload.steps !== undefined) {
      apiPayload.steps = payload.steps.map(parseStepConfig);
    }
    if (payload.connections !== undefined) {
      apiPayload.connections = payload.connections.map(parseConnection);
    }
''', '''    const apiPayload = {
      name: payload.name,
      status: payload.status,
      steps: payload.steps?.map(parseStepConfig),
      connections: payload.connections?.map(parseConnection),
    };
'''))
r('y-auto-list-parts', (AU, '''    const queryString = buildPaginationQuery(options);
    const params = [queryString];

    if (options.status) {
      params.push(`status=${encodeURIComponent(options.status)}`);
    }

    const qs = params.filter(Boolean).join('&');
''', '''    const params: string[] = [];
    const pagination = buildPaginationQuery(options);
    if (pagination) {
      params.push(pagination);
    }
    if (options.status) {
      params.push(`status=${encodeURIComponent(options.status)}`);
    }

    const qs = params.join('&');
'''))
r('y-auto-list-append', (AU, '''    const queryString = buildPaginationQuery(options);
    const params = [queryString];

    if (options.status) {
      params.push(`status=${encodeURIComponent(options.status)}`);
    }

    const qs = params.filter(Boolean).join('&');
''', '''    const searchParams = new URLSearchParams(buildPaginationQuery(options));
    if (options.status) {
      searchParams.append('status', options.status);
    }

    const qs = searchParams.toString();
'''))
r('y-runs-base', (AR, '''    const qs = searchParams.toString();
    const url = qs
      ? `/automations/${options.automationId}/runs?${qs}`
      : `/automations/${options.automationId}/runs`;
''', '''    const { automationId } = options;
    const path = `/automations/${automationId}/runs`;
    const qs = searchParams.toString();
    const url = qs ? `${path}?${qs}` : path;
'''))
r('y-runs-status-fn', (AR, '''      const statusValue = Array.isArray(options.status)
        ? options.status.join(',')
        : options.status;
      searchParams.set('status', statusValue);''', '''      searchParams.set('status', [options.status].flat().join(','));'''))
r('y-runs-string', (AR, '''      const statusValue = Array.isArray(options.status)
        ? options.status.join(',')
        : options.status;
      searchParams.set('status', statusValue);''', '''      const { status } = options;
      const statusValue = typeof status === 'string' ? status : status.join(',');
      searchParams.set('status', statusValue);'''))

MISS = '''      return {
        data: null,
        headers: null,
        error: {
          message: 'Missing `id` or `email` field.',
          statusCode: null,
          name: 'missing_required_field',
        },
      };
'''
r('y-contacts-missing-const', (CO, MISS, '''      return missingIdentifier();
'''), (CO, 'export class Contacts', '''function missingIdentifier() {
  const error = {
    message: 'Missing `id` or `email` field.',
    statusCode: null,
    name: 'missing_required_field' as const,
  };
  return { data: null, headers: null, error };
}

export class Contacts'''))
r('y-contacts-identifier', (CO, 'encodeContactIdentifier(options?.email ? options?.email : options?.id)', 'encodeContactIdentifier(options.email || options.id)'))
r('y-contacts-remove-path', (CO, '''    if (!payload.audienceId) {
      return this.resend.delete<RemoveContactsResponseSuccess>(
        `/contacts/${encodeContactIdentifier(payload?.email ? payload?.email : payload?.id)}`,
      );
    }

    return this.resend.delete<RemoveContactsResponseSuccess>(
      `/audiences/${payload.audienceId}/contacts/${encodeContactIdentifier(payload?.email ? payload?.email : payload?.id)}`,
    );''', '''    const { id, email, audienceId } = payload;
    const prefix = audienceId ? `/audiences/${audienceId}` : '';

    return this.resend.delete<RemoveContactsResponseSuccess>(
      `${prefix}/contacts/${encodeContactIdentifier(email ? email : id)}`,
    );'''))
r('y-contacts-update-body', (CO, '''    if (!options.audienceId) {
      const data = await this.resend.patch<UpdateContactResponseSuccess>(
        `/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
        {
          unsubscribed: options.unsubscribed,
          first_name: options.firstName,
          last_name: options.lastName,
          properties: options.properties,
        },
      );
      return data;
    }

    const data = await this.resend.patch<UpdateContactResponseSuccess>(
      `/audiences/${options.audienceId}/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
      {
        unsubscribed: options.unsubscribed,
        first_name: options.firstName,
        last_name: options.lastName,
        properties: options.properties,
      },
    );
    return data;''', '''    const contact = encodeContactIdentifier(options.email ? options.email : options.id);
    const path = options.audienceId
      ? `/audiences/${options.audienceId}/contacts/${contact}`
      : `/contacts/${contact}`;
    const changes = {
      unsubscribed: options.unsubscribed,
      first_name: options.firstName,
      last_name: options.lastName,
      properties: options.properties,
    };

    return this.resend.patch<UpdateContactResponseSuccess>(path, changes);'''))
r('y-contacts-list-base', (CO, '''    if (!segmentId) {
      const url = buildPaginationUrl('/contacts', options);
      const data = await this.resend.get<ListContactsResponseSuccess>(url);
      return data;
    }

    const url = buildPaginationUrl(`/segments/${segmentId}/contacts`, options);
''', '''    const base = segmentId ? `/segments/${segmentId}/contacts` : '/contacts';
    const url = buildPaginationUrl(base, options);
'''))
r('y-contacts-create-shared', (CO, '''    // Legacy create contact endpoint
''', '''    const { unsubscribed, email, firstName, lastName, properties } = payload;
    const fields = {
      unsubscribed,
      email,
      first_name: firstName,
      last_name: lastName,
      properties,
    };

    // Legacy create contact endpoint
'''), (CO, '''        {
          unsubscribed: payload.unsubscribed,
          email: payload.email,
          first_name: payload.firstName,
          last_name: payload.lastName,
          properties: payload.properties,
        },
''', '''        fields,
'''), (CO, '''        unsubscribed: payload.unsubscribed,
        email: payload.email,
        first_name: payload.firstName,
        last_name: payload.lastName,
        properties: payload.properties,
        segments''', '''        ...fields,
        segments'''))
r('y-contacts-create-exclusive', (CO, '''      if (
        ('segments' in payload && payload.segments !== undefined) ||
        ('topics' in payload && payload.topics !== undefined)
      ) {''', '''      const usesSegments = 'segments' in payload && payload.segments !== undefined;
      const usesTopics = 'topics' in payload && payload.topics !== undefined;
      if (usesSegments || usesTopics) {'''))
r('y-ct-swap', (CT, '''    const identifier = payload.email ? payload.email : payload.id;
''', '''    const { id, email } = payload;
    const identifier = email || id;
'''))
r('y-cs-require', (CS, '''    if (!options.contactId && !options.email) {
''', '''    const hasIdentifier = Boolean(options.contactId || options.email);
    if (!hasIdentifier) {
'''))
r('y-import-fields-loop', (CI, '''    this.appendField(formData, 'on_conflict', payload.onConflict ?? null);
    this.appendField(formData, 'segments', payload.segments ?? null);
    this.appendField(formData, 'topics', payload.topics ?? null);
''', '''    const fields: [string, ContactImportFormFieldValue | undefined][] = [
      ['on_conflict', payload.onConflict],
      ['segments', payload.segments],
      ['topics', payload.topics],
    ];
    for (const [name, value] of fields) {
      this.appendField(formData, name, value ?? null);
    }
'''))
r('y-import-serialize', (CI, '''    formData.append(
      name,
      typeof value === 'string' ? value : JSON.stringify(value),
    );''', '''    if (typeof value === 'string') {
      formData.append(name, value);
    } else {
      formData.append(name, JSON.stringify(value));
    }'''))
r('y-import-append-inverted', (CI, '''    if (value === null) {
      return;
    }

    formData.append(
      name,
      typeof value === 'string' ? value : JSON.stringify(value),
    );''', '''    if (value !== null) {
      const serialized = typeof value !== 'string' ? JSON.stringify(value) : value;
      formData.append(name, serialized);
    }'''))
r('y-import-list-helper', (CI, '''    const searchParams = new URLSearchParams(buildPaginationQuery(options));

    if (options.status !== undefined) {
      searchParams.set('status', options.status);
    }
''', '''    const { status, ...pagination } = options;
    const searchParams = new URLSearchParams(buildPaginationQuery(pagination as never));

    if (status !== undefined) {
      searchParams.set('status', status);
    }
'''))

FROM = '''    if (response.data) {
      return {
        data: {
          ...response.data,
          data: response.data.data.map((apiContactProperty) =>
            parseContactPropertyFromApi(apiContactProperty),
          ),
        },
        headers: response.headers,
        error: null,
      };
    }

    return response;'''
r('y-cprops-early', (CP, FROM, '''    if (!response.data) {
      return response;
    }

    const properties = response.data.data.map(parseContactPropertyFromApi);
    return {
      data: { ...response.data, data: properties },
      headers: response.headers,
      error: null,
    };'''))
r('y-cprops-error-first', (CP, FROM, '''    if (response.error) {
      return response;
    }

    const { data, headers } = response;
    return {
      data: {
        ...data,
        data: data.data.map((property) => parseContactPropertyFromApi(property)),
      },
      headers,
      error: null,
    };'''))
r('y-cprops-parse', ('common/utils/parse-contact-properties-to-api-options.ts', '''  if ('key' in contactProperty) {
    return {
      key: contactProperty.key,
      type: contactProperty.type,
      fallback_value: contactProperty.fallbackValue,
    };
  }
  return {
    fallback_value: contactProperty.fallbackValue,
  };''', '''  const update = { fallback_value: contactProperty.fallbackValue };
  if (!('key' in contactProperty)) {
    return update as UpdateContactPropertyApiOptions;
  }
  return { key: contactProperty.key, type: contactProperty.type, ...update } as CreateContactPropertyApiOptions;'''))

r('y-fwd-sender', (RC, '''    const passthrough = options.passthrough !== false;
''', '''    const { passthrough = true } = options;
'''))
r('y-fwd-subject-fn', (RC, '''    const forwardSubject = originalSubject.startsWith('Fwd:')
      ? originalSubject
      : `Fwd: ${originalSubject}`;
''', '''    let forwardSubject = originalSubject;
    if (!forwardSubject.startsWith('Fwd:')) {
      forwardSubject = `Fwd: ${forwardSubject}`;
    }
'''))
r('y-fwd-download-early', (RC, '''      const rawResponse = await fetch(url);

      if (rawResponse.ok) {
        return { content: await rawResponse.arrayBuffer(), error: null };
      }

      statusCode = rawResponse.status;
''', '''      const rawResponse = await fetch(url);

      if (!rawResponse.ok) {
        statusCode = rawResponse.status;
      } else {
        const content = await rawResponse.arrayBuffer();
        return { content, error: null };
      }
'''))
r('y-fwd-att-helper', (RC, '''    const attachments = parsed.attachments.map((attachment) => {
      const contentId = attachment.contentId
        ? attachment.contentId.replace(/^<|>$/g, '')
        : undefined;

      return {
        filename: attachment.filename,
        content: attachment.content.toString(),
        content_type: attachment.mimeType,
        content_id: contentId || undefined,
      };
    });
''', '''    const attachments = parsed.attachments.map(toApiAttachment);
'''), (RC, 'export class Receiving', '''function toApiAttachment({ filename, content, mimeType, contentId }: Email['attachments'][number]) {
  return {
    filename,
    content: content.toString(),
    content_type: mimeType,
    content_id: contentId?.replace(/^<|>$/g, '') || undefined,
  };
}

export class Receiving'''))
r('y-fwd-att-undefined', (RC, '''        attachments: attachments.length > 0 ? attachments : undefined,''', '''        ...(attachments.length > 0 && { attachments }),'''))
r('y-fwd-unavailable', (RC, '''      return {
        data: null,
        error: {
          name: 'validation_error',
          message: 'Raw email content is not available for this email',
          statusCode: 400,
        },
        headers: null,
      };
''', '''      return rawUnavailable();
'''), (RC, 'export class Receiving', '''const rawUnavailable = (): ForwardReceivingEmailResponse => ({
  data: null,
  error: {
    name: 'validation_error',
    message: 'Raw email content is not available for this email',
    statusCode: 400,
  },
  headers: null,
});

export class Receiving'''))
r('y-fwd-b64-const', (RC, '''    const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
      '/emails',
      {
        from,
        to,
        subject,
        text,
        html,
        attachments: [
          {
            filename: 'forwarded_message.eml',
            content: Buffer.from(raw.content).toString('base64'),
            content_type: 'message/rfc822',
          },
        ],
      },
      requestOptions,
    );

    return data;''', '''    const original = {
      filename: 'forwarded_message.eml',
      content: Buffer.from(raw.content).toString('base64'),
      content_type: 'message/rfc822',
    };
    const body = { from, to, subject, text, html, attachments: [original] };

    return this.resend.post<ForwardReceivingEmailResponseSuccess>('/emails', body, requestOptions);'''))
r('y-recv-get-path', (RC, '''    const queryString = searchParams.toString();
    const path = queryString
      ? `/emails/receiving/${id}?${queryString}`
      : `/emails/receiving/${id}`;
''', '''    const queryString = searchParams.toString();
    const suffix = queryString === '' ? '' : `?${queryString}`;
    const path = `/emails/receiving/${id}${suffix}`;
'''))

r('y-bcast-html-fn', (BR, 'const html = payload.react ? await render(payload.react) : payload.html;', 'const html = await resolveHtml(payload);'), (BR, 'export class Broadcasts', '''async function resolveHtml({ react, html }: { react?: React.ReactNode; html?: string }) {
  return react ? render(react) : html;
}

export class Broadcasts'''))
r('y-bcast-query-optional', (BR, '''  searchParams.set('type', type);

  if (email !== undefined) {
    searchParams.set('email', email);
  }

  if (bounceType !== undefined) {
    searchParams.set('bounce_type', bounceType);
  }
''', '''  const filters = { type, email, bounce_type: bounceType };
  for (const [key, value] of Object.entries(filters)) {
    if (value !== undefined) {
      searchParams.set(key, value);
    }
  }
'''))
r('y-tpl-name', (PT, "    name: 'name' in template ? template.name : undefined,", "    name: (template as CreateTemplateOptions).name,"))
r('y-tpl-vars-if', (PT, '''  return variables?.map((variable) => ({
    key: variable.key,
    type: variable.type,
    fallback_value: variable.fallbackValue,
  }));''', '''  if (variables === undefined) {
    return undefined;
  }

  return variables.map(({ key, type, fallbackValue }) => ({
    key,
    type,
    fallback_value: fallbackValue,
  }));'''))
r('y-tpl-create-arrow', (TM, '''    const createPromise = this.performCreate(payload);
    return new ChainableTemplateResult(createPromise, this.publish.bind(this));''', '''    return new ChainableTemplateResult(this.performCreate(payload), (id) =>
      this.publish(id),
    );'''))
r('y-chain-destr', (CH, '''    const { data, error, headers } = await this.promise;

    if (error) {
      return {
        data: null,
        headers,
        error,
      };
    }
    return this.publishFn(data.id);''', '''    const created = await this.promise;

    if (created.error) {
      const { error, headers } = created;
      return { data: null, error, headers };
    }

    const { id } = created.data;
    return this.publishFn(id);'''))
r('y-verify-destr', (WH, '''    const webhook = new Webhook(payload.webhookSecret);
    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;''', '''    const { webhookSecret, headers, payload: body } = payload;
    const verifier = new Webhook(webhookSecret);
    const event = verifier.verify(body, {
      'webhook-signature': headers.signature,
      'webhook-timestamp': headers.timestamp,
      'webhook-id': headers.id,
    });

    return event as WebhookEventPayload;'''))
r('y-supp-encode', (SU, "`/suppressions/${encodeURIComponent(idOrEmail)}`", "suppressionPath(idOrEmail)"), (SU, 'export class Suppressions', '''const suppressionPath = (identifier: string) =>
  ['', 'suppressions', encodeURIComponent(identifier)].join('/');

export class Suppressions'''))
r('y-supp-query', (SU, '''  const { origin, ...pagination } = options;
  const searchParams = new URLSearchParams(buildPaginationQuery(pagination));

  if (origin) {
    searchParams.set('origin', origin);
  }

  return searchParams.toString();''', '''  const searchParams = new URLSearchParams(buildPaginationQuery(options));

  if (!options.origin) {
    return searchParams.toString();
  }

  searchParams.set('origin', options.origin);
  return searchParams.toString();'''))
r('y-topic-body', (TO, '''    const { defaultSubscription, ...body } = payload;

    const data = await this.resend.post<CreateTopicResponseSuccess>('/topics', {
      ...body,
      default_subscription: defaultSubscription,
    });
''', '''    const { defaultSubscription, ...rest } = payload;
    const body = { default_subscription: defaultSubscription, ...rest };

    const data = await this.resend.post<CreateTopicResponseSuccess>('/topics', body);
'''))
