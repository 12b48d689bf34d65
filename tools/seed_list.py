RX = 'resend.ts'

# ---- C01 -------------------------------------------------------------------------------
seed('c01-empty-success-body', 'C01', 'a 204 answer',
     'the call resolves with both data and error null, so a caller that tests error treats an unusable answer as success',
     [(RX, '      const data = await response.json();\n', '''      const data = response.status === 204 ? null : await response.json();
''')], '''
net(() => raw(null, 204));
const r = await new Resend('re_1').contacts.remove({ id: 'c1' });
ok.notEqual(r.error, null);
ok.equal(r.data, null);
''')
seed('c01-error-array-body', 'C01', 'an error answer (4xx/5xx) whose JSON body has no message member',
     'an error body that is a JSON object is replaced instead of being returned unchanged',
     [(RX, '''            data: null,
            error: parsedError,''', '''            data: null,
            error:
              'message' in parsedError
                ? parsedError
                : { ...parsedError, message: response.statusText },''')], '''
net(() => json({ name: 'x', errors: [{ field: 'to' }] }, 422));
const r = await new Resend('re_1').emails.send({ from: 'a@x.test', to: 'b@x.test', subject: 's', text: 't' });
ok.deepEqual(r.error, { name: 'x', errors: [{ field: 'to' }] });
''')

# ---- C02 -------------------------------------------------------------------------------
seed('c02-form-upload-drops-content-type', 'C02', 'a contact import made earlier on the same client, then any other write',
     'the multipart upload deletes Content-Type from the client-wide headers, so later JSON requests are sent without it',
     [(RX, '''    const headers = new Headers(this.headers);
    const isFormData =
      typeof FormData !== 'undefined' && entity instanceof FormData;
''', '''    const isFormData =
      typeof FormData !== 'undefined' && entity instanceof FormData;
    const headers = isFormData ? this.headers : new Headers(this.headers);
''')], '''
const calls = net();
const c = new Resend('re_1');
await c.contacts.imports.create({ file: file('email\\na@x.test\\n') });
await c.topics.create({ name: 't', defaultSubscription: 'opt_in' });
ok.equal(calls[0].headers.get('content-type'), null);
ok.equal(calls[1].headers.get('content-type'), 'application/json');
''')
seed('c02-key-with-space-unprefixed', 'C02', 'a key that contains a space',
     'the request does not carry Authorization: Bearer <key>',
     [(RX, '      Authorization: `Bearer ${this.key}`,', "      Authorization: this.key?.includes(' ') ? this.key : `Bearer ${this.key}`,")], '''
const calls = net();
await new Resend('team key').domains.remove('d1');
ok.equal(calls[0].headers.get('authorization'), 'Bearer team key');
''')

# ---- C03 -------------------------------------------------------------------------------
seed('c03-idempotency-key-overridden', 'C03', 'both an idempotencyKey and an Idempotency-Key header given for one call',
     'the supplied idempotency key is not the one sent',
     [(RX, '''    if (options.idempotencyKey) {
      headers.set('Idempotency-Key', options.idempotencyKey);
    }
''', '''    if (options.idempotencyKey && !headers.has('Idempotency-Key')) {
      headers.set('Idempotency-Key', options.idempotencyKey);
    }
''')], '''
const calls = net();
await new Resend('re_1').emails.send({ from: 'a@x.test', to: 'b@x.test', subject: 's', text: 't' },
  { headers: { 'Idempotency-Key': 'from-header' }, idempotencyKey: 'from-option' });
ok.equal(calls[0].headers.get('idempotency-key'), 'from-option');
''')
seed('c03-options-dropped-when-scheduled', 'C03', 'an idempotency key given for an email that is scheduled',
     'the idempotency key does not reach the request',
     [('emails/emails.ts', '''      parseEmailToApiOptions(body),
      options,
''', '''      parseEmailToApiOptions(body),
      body.scheduledAt ? { headers: options.headers } : options,
''')], '''
const calls = net();
await new Resend('re_1').emails.send({ from: 'a@x.test', to: 'b@x.test', subject: 's', text: 't', scheduledAt: 'in 1 hour' }, { idempotencyKey: 'k1' });
ok.equal(calls[0].headers.get('idempotency-key'), 'k1');
''')

# ---- C04 -------------------------------------------------------------------------------
seed('c04-retry-on-503', 'C04', 'the server answers 503 with a Retry-After header',
     'the request is sent a second time, so a non-idempotent write may be performed twice',
     [(RX, '''      const response = await fetch(`${this.baseUrl}${path}`, options);
''', '''      const url = `${this.baseUrl}${path}`;
      let response = await fetch(url, options);

      if (response.status === 503 && response.headers.get('retry-after')) {
        response = await fetch(url, options);
      }
''')], '''
const calls = net(() => json({ name: 'unavailable', message: 'm' }, 503, { 'retry-after': '1' }));
await new Resend('re_1').emails.send({ from: 'a@x.test', to: 'b@x.test', subject: 's', text: 't' });
ok.equal(calls.length, 1);
''')
seed('c04-empty-update-skipped', 'C04', 'an automation update whose payload carries no changes',
     'the method reports success without sending any request',
     [('automations/automations.ts', '''    const data = await this.resend.patch<UpdateAutomationResponseSuccess>(
      `/automations/${id}`,
      apiPayload,
    );
    return data;''', '''    const data =
      Object.keys(apiPayload).length > 0
        ? await this.resend.patch<UpdateAutomationResponseSuccess>(
            `/automations/${id}`,
            apiPayload,
          )
        : {
            data: { object: 'automation' as const, id },
            error: null,
            headers: {},
          };
    return data;''')], '''
const calls = net();
await new Resend('re_1').automations.update('a1', {});
ok.equal(calls.length, 1);
''')

# ---- C05 -------------------------------------------------------------------------------
seed('c05-template-alias-lowercased', 'C05', 'a template addressed by an alias with upper-case letters',
     'the request addresses a different template than the one named',
     [('templates/templates.ts', '''    const data = await this.resend.get<GetTemplateResponseSuccess>(
      `/templates/${identifier}`,
''', '''    const data = await this.resend.get<GetTemplateResponseSuccess>(
      `/templates/${identifier.toLowerCase()}`,
''')], '''
const calls = net();
await new Resend('re_1').templates.get('Welcome-Mail');
ok.equal(calls[0].path, '/templates/Welcome-Mail');
''')
seed('c05-webhook-id-prefix-stripped', 'C05', 'a webhook id that starts with wh_',
     'the id is altered before it is put into the path',
     [('webhooks/webhooks.ts', '''  async remove(id: string): Promise<RemoveWebhookResponse> {
    const data = await this.resend.delete<RemoveWebhookResponseSuccess>(
      `/webhooks/${id}`,
''', '''  async remove(id: string): Promise<RemoveWebhookResponse> {
    const data = await this.resend.delete<RemoveWebhookResponseSuccess>(
      `/webhooks/${id.replace(/^wh_/, '')}`,
''')], '''
const calls = net();
await new Resend('re_1').webhooks.remove('wh_123');
ok.equal(calls[0].path, '/webhooks/wh_123');
''')

# ---- C06 -------------------------------------------------------------------------------
seed('c06-recipients-deduplicated', 'C06', 'a recipient list that names an address twice',
     'the recipient list is not transmitted as supplied',
     [('common/utils/parse-email-to-api-options.ts', '    to: email.to,\n',
       '    to: Array.isArray(email.to) ? [...new Set(email.to)] : email.to,\n')], '''
const calls = net();
await new Resend('re_1').emails.send({ from: 'a@x.test', to: ['b@x.test', 'c@x.test', 'b@x.test'], subject: 's', text: 't' });
ok.deepEqual(calls[0].body.to, ['b@x.test', 'c@x.test', 'b@x.test']);
''')
seed('c06-attachment-content-beats-path', 'C06', 'an attachment that has an empty content',
     'the supplied (empty) content of an attachment is not sent',
     [('common/utils/parse-email-to-api-options.ts', '    content: attachment.content,\n', '    content: attachment.content || undefined,\n')], '''
const calls = net();
await new Resend('re_1').emails.send({ from: 'a@x.test', to: 'b@x.test', subject: 's', text: 't', attachments: [{ filename: 'empty.txt', content: '' }] });
ok.deepEqual(calls[0].body.attachments, [{ content: '', filename: 'empty.txt' }]);
''')

# ---- C07 -------------------------------------------------------------------------------
seed('c07-batch-first-hundred', 'C07', 'a batch of more than 100 emails',
     'entries beyond the first 100 are silently not transmitted',
     [('batch/batch.ts', '    for (const email of payload) {\n', '    for (const email of payload.slice(0, 100)) {\n')], '''
const calls = net(() => json({ data: [] }));
const mails = Array.from({ length: 101 }, (_, i) => ({ from: 'a@x.test', to: `u${i}@x.test`, subject: 's', text: 't' }));
await new Resend('re_1').batch.send(mails);
ok.equal(calls[0].body.length, 101);
''')
seed('c07-batch-react-entries-out-of-order', 'C07', 'a batch that mixes React emails with plain ones, a React one first',
     'React entries are appended when their rendering finishes, so the entries are not in the caller\'s order',
     [('batch/batch.ts', '''    for (const email of payload) {
      if (email.react) {''', '''    const plain = (email: (typeof payload)[number]) => !email.react;

    for (const email of [
      ...payload.filter(plain),
      ...payload.filter((email) => !plain(email)),
    ]) {
      if (email.react) {''')], '''
const calls = net(() => json({ data: [] }));
const { createElement } = load('react');
await new Resend('re_1').batch.send([
  { from: 'a@x.test', to: 'r@x.test', subject: 's', react: createElement('p', null, 'hi') },
  { from: 'a@x.test', to: 'p@x.test', subject: 's', text: 't' },
]);
ok.deepEqual(calls[0].body.map((e) => e.to), ['r@x.test', 'p@x.test']);
''')

# ---- C08 -------------------------------------------------------------------------------
seed('c08-render-cached-by-component', 'C08', 'two React emails made with the same component and different props, one after the other',
     'the second email carries the rendering of the first one',
     [('render.ts', '''  return render(node);
''', '''  const type = (node as React.ReactElement | null)?.type;
  const known = typeof type === 'function' ? rendered.get(type) : undefined;
  const html = known ?? (await render(node));
  if (typeof type === 'function') {
    rendered.set(type, html);
  }
  return html;
'''), ('render.ts', 'export async function render(', '''const rendered = new Map<unknown, string>();

export async function render(''')], '''
const calls = net();
const { createElement } = load('react');
const Hello = ({ name }) => createElement('p', null, `hello ${name}`);
const c = new Resend('re_1');
for (const name of ['ann', 'bob'])
  await c.emails.send({ from: 'a@x.test', to: 'b@x.test', subject: 's', react: createElement(Hello, { name }) });
ok.ok(calls[0].body.html.includes('hello ann'));
ok.ok(calls[1].body.html.includes('hello bob'));
''')
seed('c08-broadcast-update-prefers-html', 'C08', 'a broadcast update that carries both a React node and html',
     'the html supplied alongside a React node is sent instead of the rendering',
     [('broadcasts/broadcasts.ts', '''    const html = payload.react ? await render(payload.react) : payload.html;

    const data = await this.resend.patch''', '''    const html =
      payload.html ?? (payload.react ? await render(payload.react) : undefined);

    const data = await this.resend.patch''')], '''
const calls = net();
const { createElement } = load('react');
const node = createElement('p', null, 'fresh');
await new Resend('re_1').broadcasts.update('b1', { html: '<p>stale</p>', react: node });
ok.equal(calls[0].body.html, await render(node));
''')

# ---- C09 -------------------------------------------------------------------------------
seed('c09-cursor-encoded-twice', 'C09', 'a pagination cursor that contains characters needing encoding',
     'decoding the query string does not give back the cursor supplied',
     [('common/utils/build-pagination-query.ts', "    searchParams.set('after', options.after);", "    searchParams.set('after', encodeURIComponent(options.after));")], '''
const calls = net(() => json({ data: [] }));
await new Resend('re_1').emails.list({ after: 'a+b/c==' });
ok.equal(new URL(calls[0].url).searchParams.get('after'), 'a+b/c==');
''')
seed('c09-partial-email-filter', 'C09', 'filtering broadcast recipients by a part of an address',
     'the email filter supplied does not reach the query',
     [('broadcasts/broadcasts.ts', '  if (email !== undefined) {', "  if (email?.includes('@')) {")], '''
const calls = net(() => json({ data: [] }));
await new Resend('re_1').broadcasts.recipients('b1', { type: 'opened', email: 'ann' });
ok.equal(new URL(calls[0].url).searchParams.get('email'), 'ann');
''')

# ---- C10 -------------------------------------------------------------------------------
seed('c10-template-number-fallback', 'C10', 'a template variable of type number whose fallback is null',
     'the fallback value transmitted is not the one supplied',
     [('common/utils/parse-template-to-api-options.ts', '    fallback_value: variable.fallbackValue,\n', '''    fallback_value:
      variable.type === 'number' && variable.fallbackValue !== undefined
        ? Number(variable.fallbackValue)
        : variable.fallbackValue,
''')], '''
const calls = net();
await new Resend('re_1').templates.create({ name: 'n', html: 'h', variables: [{ key: 'K', type: 'number', fallbackValue: null }] });
ok.deepEqual(calls[0].body.variables, [{ key: 'K', type: 'number', fallback_value: null }]);
''')
seed('c10-contact-unsubscribed-false', 'C10', 'a contact created with unsubscribed explicitly false, outside of any audience',
     'a supplied field is not transmitted',
     [('contacts/contacts.ts', "      '/contacts',\n      {\n        unsubscribed: payload.unsubscribed,\n", "      '/contacts',\n      {\n        unsubscribed: payload.unsubscribed || undefined,\n")], '''
const calls = net();
await new Resend('re_1').contacts.create({ email: 'a@x.test', unsubscribed: false });
ok.equal(calls[0].body.unsubscribed, false);
''')

# ---- C11 -------------------------------------------------------------------------------
seed('c11-domain-tracking-default', 'C11', 'a domain update that turns only one of the tracking settings off',
     'a field the caller left out is sent, changing its value on the server',
     [('domains/domains.ts', '        open_tracking: payload.openTracking,\n', '        open_tracking: payload.openTracking ?? payload.clickTracking,\n')], '''
const calls = net();
await new Resend('re_1').domains.update({ id: 'd1', clickTracking: false });
ok.deepEqual(calls[0].body, { click_tracking: false });
''')
seed('c11-automation-empty-steps', 'C11', 'an automation update that clears the connections with an empty list',
     'a supplied empty list is not transmitted',
     [('automations/automations.ts', '    if (payload.connections !== undefined) {', '    if (payload.connections?.length) {')], '''
const calls = net();
await new Resend('re_1').automations.update('a1', { connections: [] });
ok.deepEqual(calls[0].body, { connections: [] });
''')

# ---- C12 -------------------------------------------------------------------------------
seed('c12-attachments-renamed-in-place', 'C12', 'reusing an attachment object after sending an email with it',
     'the caller\'s attachment objects are changed by the call',
     [('common/utils/parse-email-to-api-options.ts', '''  return attachments?.map((attachment) => ({
    content: attachment.content,''', '''  return attachments?.map((attachment) => ({
    content: normalize(attachment).content,'''),
      ('common/utils/parse-email-to-api-options.ts', 'function parseAttachments(', '''function normalize(
  attachment: NonNullable<CreateEmailOptions['attachments']>[number],
) {
  if (attachment.filename === '') {
    attachment.filename = undefined;
  }
  return attachment;
}

function parseAttachments(''')], '''
net();
const attachment = { filename: '', content: 'x' };
await new Resend('re_1').emails.send({ from: 'a@x.test', to: 'b@x.test', subject: 's', text: 't', attachments: [attachment] });
ok.deepEqual(attachment, { filename: '', content: 'x' });
''')
seed('c12-metrics-domain-ids-pruned', 'C12', 'reusing the options object of a metrics call whose domainId list names a domain twice',
     'entries of the caller\'s list are removed in place',
     [('emails/emails.ts', "    domain_id: options.domainId?.join(','),", "    domain_id: options.domainId && dedupe(options.domainId).join(','),"),
      ('emails/emails.ts', 'function buildMetricsQuery(', '''function dedupe(ids: string[]) {
  for (let i = ids.length - 1; i > 0; i--) {
    if (ids.indexOf(ids[i]) < i) {
      ids.splice(i, 1);
    }
  }
  return ids;
}

function buildMetricsQuery(''')], '''
net(() => json({}));
const options = { startDate: 'a', endDate: 'b', metrics: ['sent'], domainId: ['d1', 'd2', 'd1'] };
await new Resend('re_1').emails.metrics(options);
ok.deepEqual(options.domainId, ['d1', 'd2', 'd1']);
''')

# ---- C13 -------------------------------------------------------------------------------
seed('c13-suppression-id-not-encoded', 'C13', 'a suppression identifier without @ that contains reserved characters',
     'the identifier addresses another resource',
     [('suppressions/suppressions.ts', '''    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${encodeURIComponent(idOrEmail)}`,''', '''    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${idOrEmail.includes('@') ? encodeURIComponent(idOrEmail) : idOrEmail}`,''')], '''
const calls = net();
await new Resend('re_1').suppressions.remove('a/b?c');
ok.equal(calls[0].path, '/suppressions/a%2Fb%3Fc');
''')
seed('c13-event-name-encoded-loosely', 'C13', 'an event name that contains a slash, a question mark or a hash',
     'the event name is not one path segment',
     [('events/events.ts', '''    const data = await this.resend.patch<UpdateEventResponseSuccess>(
      `/events/${encodeURIComponent(identifier)}`,''', '''    const data = await this.resend.patch<UpdateEventResponseSuccess>(
      `/events/${encodeURI(identifier)}`,''')], '''
const calls = net();
await new Resend('re_1').events.update('order/paid', { schema: {} });
ok.equal(calls[0].path, '/events/order%2Fpaid');
''')

# ---- C14 -------------------------------------------------------------------------------
seed('c14-contact-segment-empty-id', 'C14', 'a contact segment call whose only identifier is the empty string',
     'a missing identifier is not reported and a request is sent',
     [('contacts/segments/contact-segments.ts', '''  async add(
    options: AddContactSegmentOptions,
  ): Promise<AddContactSegmentResponse> {
    if (!options.contactId && !options.email) {''', '''  async add(
    options: AddContactSegmentOptions,
  ): Promise<AddContactSegmentResponse> {
    if ((options.contactId ?? options.email ?? null) === null) {''')], '''
const calls = net();
const r = await new Resend('re_1').contacts.segments.add({ contactId: '', segmentId: 's1' });
ok.equal(calls.length, 0);
ok.equal(r.error?.name, 'missing_required_field');
''')
seed('c14-topic-update-without-id', 'C14', 'a topic update with a name and a description but without an id',
     'a missing required identifier is not reported and a request is sent',
     [('topics/topics.ts', "    if (!payload.id) {", "    if (!payload.id && !(payload.name && payload.description)) {")], '''
const calls = net();
const r = await new Resend('re_1').topics.update({ name: 'n', description: 'd' });
ok.equal(r.error?.name, 'missing_required_field');
ok.equal(calls.length, 0);
''')

# ---- C15 -------------------------------------------------------------------------------
seed('c15-topics-list-prefers-id', 'C15', 'a contact topics listing given both an id and an email',
     'the contact is addressed by the id although an email is given',
     [('contacts/topics/contact-topics.ts', 'const identifier = options.email ? options.email : options.id;',
       'const identifier = options.id ? options.id : options.email;')], '''
const calls = net(() => json({ data: [] }));
await new Resend('re_1').contacts.topics.list({ id: 'c1', email: 'a@x.test' });
ok.equal(calls[0].path, '/contacts/a@x.test/topics');
''')
seed('c15-list-audience-over-segment', 'C15', 'listing contacts with both a segment id and an audience id',
     'the listing is not scoped as the documented precedence says',
     [('contacts/contacts.ts', '    const segmentId = options.segmentId ?? options.audienceId;', '    const segmentId = options.audienceId ?? options.segmentId;')], '''
const calls = net(() => json({ data: [] }));
await new Resend('re_1').contacts.list({ segmentId: 's1', audienceId: 'a1' });
ok.equal(calls[0].path, '/segments/s1/contacts');
''')

# ---- C16 -------------------------------------------------------------------------------
seed('c16-parallel-connections-merged', 'C16', 'two connections between the same pair of steps with different types',
     'a connection is not transmitted',
     [('common/utils/parse-automation-to-api-options.ts', '    connections: automation.connections.map(parseConnection),', '''    connections: automation.connections
      .filter(
        (connection, index, all) =>
          all.findIndex(
            (other) =>
              other.from === connection.from && other.to === connection.to,
          ) === index,
      )
      .map(parseConnection),''')], '''
const calls = net();
await new Resend('re_1').automations.create({ name: 'n',
  steps: [{ key: 'a', type: 'trigger', config: { eventName: 'e' } }, { key: 'b', type: 'delay', config: { duration: '1 day' } }],
  connections: [{ from: 'a', to: 'b', type: 'condition_met' }, { from: 'a', to: 'b', type: 'condition_not_met' }] });
ok.equal(calls[0].body.connections.length, 2);
''')
seed('c16-filter-rule-needs-timeout', 'C16', 'a wait_for_event step with a filter rule and no timeout',
     'part of the step configuration is not transmitted',
     [('common/utils/parse-automation-to-api-options.ts', '          filter_rule: step.config.filterRule,\n',
       '          ...(step.config.timeout && { filter_rule: step.config.filterRule }),\n')], '''
const calls = net();
const filterRule = { type: 'rule', field: 'f', operator: 'eq', value: 1 };
await new Resend('re_1').automations.create({ name: 'n', steps: [{ key: 'w', type: 'wait_for_event', config: { eventName: 'e', filterRule } }], connections: [] });
ok.deepEqual(calls[0].body.steps[0].config, { event_name: 'e', filter_rule: filterRule });
''')

# ---- C17 -------------------------------------------------------------------------------
seed('c17-empty-segments-omitted', 'C17', 'a contact import with an explicitly empty list',
     'a supplied option has no part in the form data',
     [('contacts/imports/contact-imports.ts', "    if (value === null) {\n      return;", "    if (value === null || (Array.isArray(value) && value.length === 0)) {\n      return;")], '''
const calls = net();
await new Resend('re_1').contacts.imports.create({ file: file('x'), segments: [] });
ok.deepEqual(calls[0].raw.getAll('segments'), ['[]']);
''')
seed('c17-column-properties-need-email', 'C17', 'a column map with custom properties and no email column',
     'part of the column map is lost',
     [('contacts/imports/contact-imports.ts', '      properties: columnMap.properties,', '      properties: columnMap.email ? columnMap.properties : undefined,')], '''
const calls = net();
await new Resend('re_1').contacts.imports.create({ file: file('x'), columnMap: { firstName: 'F', properties: { plan: { column: 'P', type: 'string' } } } });
ok.deepEqual(JSON.parse(calls[0].raw.get('column_map')), { first_name: 'F', properties: { plan: { column: 'P', type: 'string' } } });
''')

# ---- C18 -------------------------------------------------------------------------------
seed('c18-falsy-fallback-lost', 'C18', 'a contact property whose fallback value is 0 or the empty string',
     'the value returned is not the one the API sent',
     [('common/utils/parse-contact-properties-to-api-options.ts', '    fallbackValue: contactProperty.fallback_value,\n  } as', '    fallbackValue: contactProperty.fallback_value || null,\n  } as')], '''
net(() => json({ id: 'p', key: 'k', type: 'number', fallback_value: 0, created_at: 'now', object: 'contact_property' }));
const r = await new Resend('re_1').contactProperties.get('p');
ok.equal(r.data.fallbackValue, 0);
''')
seed('c18-list-sorted', 'C18', 'a listing whose properties are not in order of their keys',
     'the properties are returned in another order than the API gave',
     [('contact-properties/contact-properties.ts', '''          data: response.data.data.map((apiContactProperty) =>
            parseContactPropertyFromApi(apiContactProperty),
          ),''', '''          data: response.data.data
            .map((apiContactProperty) =>
              parseContactPropertyFromApi(apiContactProperty),
            )
            .sort((a, b) => (a.key < b.key ? -1 : 1)),''')], '''
net(() => json({ object: 'list', has_more: false, data: ['b', 'a'].map((key) => ({ id: key, key, type: 'string', fallback_value: null, created_at: 'now' })) }));
const r = await new Resend('re_1').contactProperties.list();
ok.deepEqual(r.data.data.map((p) => p.key), ['b', 'a']);
''')

# ---- C19 -------------------------------------------------------------------------------
WH = '''
const { Webhook } = load('standardwebhooks');
const key = (c) => `whsec_${Buffer.from(c.repeat(24)).toString('base64')}`;
const id = 'msg_1';
const now = new Date();
const timestamp = String(Math.floor(now.getTime() / 1000));
const signed = (secret, payload) => ({ payload, webhookSecret: secret,
  headers: { id, timestamp, signature: new Webhook(secret).sign(id, now, payload) } });
'''
seed('c19-verifier-cached', 'C19', 'verifying with a second secret after a first one was used on the same client',
     'the payload is verified against another secret than the one given',
     [('webhooks/webhooks.ts', 'export class Webhooks {\n', 'export class Webhooks {\n  private webhook?: Webhook;\n\n'),
      ('webhooks/webhooks.ts', '''    const webhook = new Webhook(payload.webhookSecret);
    return webhook.verify''', '''    this.webhook ??= new Webhook(payload.webhookSecret);
    return this.webhook.verify''')], WH + '''
const c = new Resend('re_1');
ok.deepEqual(c.webhooks.verify(signed(key('a'), '{"n":1}')), { n: 1 });
ok.deepEqual(c.webhooks.verify(signed(key('b'), '{"n":2}')), { n: 2 });
ok.throws(() => c.webhooks.verify({ ...signed(key('a'), '{"n":3}'), webhookSecret: key('b') }));
''')
seed('c19-payload-reserialised', 'C19', 'a payload that differs from the signed one only in white space',
     'a payload the signature does not cover is accepted',
     [('webhooks/webhooks.ts', '''    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;''', '''    const headers = {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    };
    try {
      return webhook.verify(payload.payload, headers) as WebhookEventPayload;
    } catch {
      // Frameworks that parse the body hand it back re-serialised.
      return webhook.verify(
        JSON.stringify(JSON.parse(payload.payload)),
        headers,
      ) as WebhookEventPayload;
    }''')], WH + '''
const c = new Resend('re_1');
const m = signed(key('a'), '{"n":1}');
ok.deepEqual(c.webhooks.verify(m), { n: 1 });
ok.throws(() => c.webhooks.verify({ ...m, payload: '{ "n": 1 }' }));
''')

# ---- C20 -------------------------------------------------------------------------------
seed('c20-publish-after-failed-duplicate', 'C20', 'a create that fails because no usable answer arrived, with publish chained onto it',
     'publishing goes on although the create failed',
     [('templates/chainable-template-result.ts', '    if (error) {', "    if (error && error.name !== 'application_error') {"),
      ('templates/chainable-template-result.ts', '    return this.publishFn(data.id);', "    return this.publishFn(data?.id ?? '');")], '''
const calls = net(() => new Error('offline'));
const r = await new Resend('re_1').templates.create({ name: 'n', html: 'h' }).publish();
ok.equal(calls.length, 1);
ok.equal(r.error?.name, 'application_error');
''')
seed('c20-publish-result-merged', 'C20', 'publish chained onto a duplicate',
     'the result of the chain is not the publish result',
     [('templates/templates.ts', '''    return new ChainableTemplateResult(
      promiseDuplicate,
      this.publish.bind(this),
    );''', '''    return new ChainableTemplateResult(promiseDuplicate, () =>
      this.publish(identifier),
    );''')], '''
const calls = net((c, n) => json({ id: n === 0 ? 'copy' : 'pub' }));
await new Resend('re_1').templates.duplicate('orig').publish();
ok.equal(calls[1].path, '/templates/copy/publish');
''')

# ---- C21 -------------------------------------------------------------------------------
MAIL = r'''
const part = (text) => `--B\r\nContent-Type: application/octet-stream; name="a.txt"\r\nContent-Disposition: attachment; filename="a.txt"\r\n\r\n${text}\r\n`;
const mail = `From: a@x.test\r\nSubject: s\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary="B"\r\n\r\n${part('one')}${part('two')}--B--\r\n`;
'''
seed('c21-same-named-attachments-dropped', 'C21', 'a received email with two attachments of the same file name',
     'an attachment of the original is not forwarded',
     [('emails/receiving/receiving.ts', '    const attachments = parsed.attachments.map((attachment) => {', '''    const byName = new Map(
      parsed.attachments.map((part, i) => [part.filename ?? i, part]),
    );
    const attachments = [...byName.values()].map((attachment) => {''')], MAIL + '''
const calls = net((c, n) => (n === 0 ? json({ id: 'e', subject: 's', raw: { download_url: 'https://raw.test/e' } }) : n === 1 ? raw(mail) : json({ id: 'x' })));
await new Resend('re_1').emails.receiving.forward({ emailId: 'e', to: 't@x.test', from: 'f@x.test' });
ok.equal(calls[2].body.attachments?.length, 2);
''')
seed('c21-subject-prefix-any-case', 'C21', 'wrapping a received email whose subject starts with fwd: in lower case',
     'the subject of the forwarded email is not the documented one',
     [('emails/receiving/receiving.ts', "    const forwardSubject = originalSubject.startsWith('Fwd:')\n", "    const forwardSubject = /^fwd:/i.test(originalSubject)\n")], '''
const calls = net((c, n) => (n === 0 ? json({ id: 'e', subject: 'fwd: s', raw: { download_url: 'https://raw.test/e' } }) : n === 1 ? raw('Subject: s\\r\\n\\r\\nx') : json({ id: 'x' })));
await new Resend('re_1').emails.receiving.forward({ emailId: 'e', to: 't@x.test', from: 'f@x.test', passthrough: false, text: 'see below' });
ok.equal(calls[2].body.subject, 'Fwd: fwd: s');
''')

# ---- C22 -------------------------------------------------------------------------------
seed('c22-base-url-follows-environment', 'C22', 'RESEND_BASE_URL changing after a client without an explicit base URL was made',
     'the configuration of a constructed client changes',
     [(RX, '      const response = await fetch(`${this.baseUrl}${path}`, options);\n', '''      const baseUrl =
        this.baseUrl === defaultBaseUrl ? getDefaultBaseUrl() : this.baseUrl;
      const response = await fetch(`${baseUrl}${path}`, options);
''')], '''
delete process.env.RESEND_BASE_URL;
const calls = net();
const c = new Resend('re_1');
process.env.RESEND_BASE_URL = 'https://other.test';
await c.domains.get('d1');
ok.equal(calls[0].url, 'https://api.resend.com/domains/d1');
''')
seed('c22-empty-base-url-variable', 'C22', 'an empty RESEND_BASE_URL in the environment',
     'an empty environment value replaces the documented default',
     [(RX, '    ? process.env.RESEND_BASE_URL || defaultBaseUrl', '    ? (process.env.RESEND_BASE_URL ?? defaultBaseUrl)')], '''
process.env.RESEND_BASE_URL = '';
const calls = net();
await new Resend('re_1').domains.get('d1');
ok.equal(calls[0].url, 'https://api.resend.com/domains/d1');
''')

# ---- C23 -------------------------------------------------------------------------------
seed('c23-environment-read-once', 'C23', 'NODE_ENV becoming production after the module was loaded',
     'failures are logged in production',
     [(RX, "const defaultBaseUrl = 'https://api.resend.com';\n", '''const defaultBaseUrl = 'https://api.resend.com';
const isProduction =
  typeof process !== 'undefined' && process.env?.NODE_ENV === 'production';
'''), (RX, "      process.env &&\n      process.env.NODE_ENV !== 'production'\n", '      process.env &&\n      !isProduction\n')], '''
net(() => json({ name: 'not_found', message: 'm' }, 404));
const logged = [];
console.error = (...a) => logged.push(a);
process.env.NODE_ENV = 'production';
await new Resend('re_1').domains.get('d1');
ok.equal(logged.length, 0);
''')
seed('c23-request-headers-logged', 'C23', 'an API request that fails with an error answer that is not JSON',
     'the log contains the request headers, the API key among them',
     [(RX, '''            this.logError(error, path, response.status);

            return {
              data: null,
              error,
              headers: Object.fromEntries(response.headers.entries()),
            };
          }

          const error''', '''            this.logError(
              Object.defineProperty({ ...error }, 'request', {
                value: options,
                enumerable: true,
              }),
              path,
              response.status,
            );

            return {
              data: null,
              error,
              headers: Object.fromEntries(response.headers.entries()),
            };
          }

          const error''')], '''
net(() => raw('<html>', 502));
const logged = [];
console.error = (...a) => logged.push(a);
await new Resend('re_topsecret').domains.get('d1');
ok.equal(logged.length, 1);
const { inspect } = load('node:util');
ok.ok(!inspect(logged, { depth: 9 }).includes('re_topsecret'));
''')

# ======== further bugs, one more per property =============================================
seed('c01-redirect-as-success', 'C01', 'an answer with a 3xx status, which is not ok and carries JSON',
     'a failed response is reported as success',
     [(RX, '      if (!response.ok) {', '      if (response.status >= 400) {')], '''
net(() => json({ moved: true }, 300));
const r = await new Resend('re_1').emails.get('e1');
ok.equal(r.data, null);
ok.deepEqual(r.error, { moved: true });
''')
seed('c02-string-entity-content-type', 'C02', 'a request made with the generic post whose entity is a string',
     'the request is not sent with Content-Type: application/json',
     [(RX, "    if (isFormData) {", "    if (isFormData || typeof entity === 'string') {")], '''
const calls = net();
await new Resend('re_1').post('/things', 'plain');
ok.equal(calls[0].headers.get('content-type'), 'application/json');
''')
seed('c03-headers-object-remembered', 'C03', 'the same headers object passed to two calls and changed by the caller in between',
     'the second request carries the headers of the first one',
     [(RX, '''  async post<T>(''', '''  private readonly callHeaders = new WeakMap<object, [string, string][]>();

  private given(headers: HeadersInit): [string, string][] {
    const known = this.callHeaders.get(headers) ?? [
      ...new Headers(headers).entries(),
    ];
    this.callHeaders.set(headers, known);
    return known;
  }

  async post<T>('''), (RX, '''      headers.delete('Content-Type');
    }

    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {''', '''      headers.delete('Content-Type');
    }

    if (options.headers) {
      for (const [key, value] of this.given(options.headers)) {''')], '''
const calls = net();
const c = new Resend('re_1');
const headers = { 'X-Tenant': 'one' };
await c.apiKeys.create({ name: 'a' }, { headers });
headers['X-Tenant'] = 'two';
await c.apiKeys.create({ name: 'b' }, { headers });
ok.equal(calls[0].headers.get('x-tenant'), 'one');
ok.equal(calls[1].headers.get('x-tenant'), 'two');
''')
seed('c04-cancel-repeated-on-conflict', 'C04', 'cancelling a broadcast that the server answers with a conflict',
     'the request is sent a second time',
     [('broadcasts/broadcasts.ts', '''    const data = await this.resend.post<CancelBroadcastResponseSuccess>(
      `/broadcasts/${id}/cancel`,
    );
    return data;''', '''    const send = () =>
      this.resend.post<CancelBroadcastResponseSuccess>(
        `/broadcasts/${id}/cancel`,
      );
    const data = await send();
    return data.error?.statusCode === 409 ? send() : data;''')], '''
const calls = net(() => json({ name: 'conflict', statusCode: 409, message: 'm' }, 409));
await new Resend('re_1').broadcasts.cancel('b1');
ok.equal(calls.length, 1);
''')
seed('c05-concurrent-gets-share-id', 'C05', 'two emails read at the same time on one client',
     'the request addresses the email of the other call',
     [('emails/emails.ts', '''  async get(id: string): Promise<GetEmailResponse> {
    const data = await this.resend.get<GetEmailResponseSuccess>(
      `/emails/${id}`,''', '''  private emailId = '';

  async get(id: string): Promise<GetEmailResponse> {
    this.emailId = id;
    await Promise.resolve();
    const data = await this.resend.get<GetEmailResponseSuccess>(
      `/emails/${this.emailId}`,''')], '''
const calls = net();
const c = new Resend('re_1');
await Promise.all([c.emails.get('e1'), c.emails.get('e2')]);
ok.deepEqual(calls.map((x) => x.path).sort(), ['/emails/e1', '/emails/e2']);
''')
seed('c06-cc-equal-to-to-dropped', 'C06', 'an email whose cc is the same address as its to',
     'a supplied field is not transmitted',
     [('common/utils/parse-email-to-api-options.ts', '    cc: email.cc,', '    cc: email.cc === email.to ? undefined : email.cc,')], '''
const calls = net();
await new Resend('re_1').emails.send({ from: 'a@x.test', to: 'b@x.test', cc: 'b@x.test', subject: 's', text: 't' });
ok.equal(calls[0].body.cc, 'b@x.test');
''')
seed('c07-repeated-email-sent-once', 'C07', 'a batch that holds the same email object twice in a row',
     'the batch has fewer entries than emails',
     [('batch/batch.ts', '    for (const email of payload) {', '''    for (const email of payload.filter(
      (item, i) => i === 0 || item !== payload[i - 1],
    )) {''')], '''
const calls = net();
const email = { from: 'a@x.test', to: 'b@x.test', subject: 's', text: 't' };
await new Resend('re_1').batch.send([email, email]);
ok.equal(calls[0].body.length, 2);
''')
seed('c08-rendered-spaces-escaped', 'C08', 'a React node whose rendering holds a no-break space',
     'the html transmitted is not exactly the rendering',
     [('render.ts', '  return render(node);', "  return (await render(node)).replace(/\\u00a0/g, '&nbsp;');")], '''
const calls = net();
const React = load('react');
const node = React.createElement('p', null, 'a\\u00a0b');
await new Resend('re_1').emails.send({ from: 'a@x.test', to: 'b@x.test', subject: 's', react: node });
ok.equal(calls[0].body.html, await render(node));
''')
seed('c09-fractional-limit', 'C09', 'a limit that is not a 32-bit integer',
     'decoding the query string does not give back the limit supplied',
     [('common/utils/build-pagination-query.ts', 'options.limit.toString()', 'String(options.limit | 0)')], '''
const calls = net();
await new Resend('re_1').emails.list({ limit: 4294967297 });
ok.equal(calls[0].path, '/emails?limit=4294967297');
''')
seed('c10-event-email-dropped', 'C10', 'an event sent with both a contact id and an email',
     'a supplied field is not transmitted',
     [('common/utils/parse-automation-to-api-options.ts', '    email: event.email,', '    email: event.contactId ? undefined : event.email,')], '''
const calls = net();
await new Resend('re_1').events.send({ event: 'e', contactId: 'c1', email: 'a@x.test', payload: { a: 1 } });
ok.deepEqual(calls[0].body, { event: 'e', contact_id: 'c1', email: 'a@x.test', payload: { a: 1 } });
''')
seed('c11-webhook-without-events-disabled', 'C11', 'a webhook update that clears the list of events',
     'a field the caller left out is sent, changing its value on the server',
     [('webhooks/webhooks.ts', '''      `/webhooks/${id}`,
      payload,''', '''      `/webhooks/${id}`,
      payload.events?.length === 0
        ? { status: 'disabled', ...payload }
        : payload,''')], '''
const calls = net();
await new Resend('re_1').webhooks.update('w1', { events: [] });
ok.deepEqual(calls[0].body, { events: [] });
''')
seed('c12-response-headers-shared', 'C12', 'a result kept while another call completes on the same client',
     'the headers of an earlier result change when a later call completes',
     [(RX, '''  async fetchRequest<T>''', '''  private readonly lastHeaders: Record<string, string> = {};

  async fetchRequest<T>'''), (RX, '''        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),''', '''        data,
        error: null,
        headers: Object.assign(
          this.lastHeaders,
          Object.fromEntries(response.headers.entries()),
        ),''')], '''
net((c, n) => json({ id: 'x' }, 200, { 'x-request-id': `r${n}` }));
const c = new Resend('re_1');
const first = await c.emails.get('e1');
await c.emails.get('e2');
ok.equal(first.headers['x-request-id'], 'r0');
''')
seed('c13-suppression-domain-lowercased', 'C13', 'removing a suppression by an email whose domain has upper-case letters',
     'the segment does not decode to the value supplied',
     [('suppressions/suppressions.ts', '''    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${encodeURIComponent(idOrEmail)}`,''', '''    const at = idOrEmail.lastIndexOf('@') + 1;

    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${encodeURIComponent(
        at ? idOrEmail.slice(0, at) + idOrEmail.slice(at).toLowerCase() : idOrEmail,
      )}`,''')], '''
const calls = net();
await new Resend('re_1').suppressions.remove('Bob@Example.COM');
ok.equal(decodeURIComponent(calls[0].path), '/suppressions/Bob@Example.COM');
''')
seed('c14-blank-id-called-missing', 'C14', 'a contact property removed with an id of white space only',
     'an identifier that is given is reported as missing',
     [('contact-properties/contact-properties.ts', '''  async remove(id: string): Promise<RemoveContactPropertyResponse> {
    if (!id) {''', '''  async remove(id: string): Promise<RemoveContactPropertyResponse> {
    if (!id?.trim()) {''')], '''
const calls = net();
const r = await new Resend('re_1').contactProperties.remove(' ');
ok.equal(r.error, null);
ok.equal(calls.length, 1);
''')
seed('c15-segment-removal-prefers-id', 'C15', 'removing a contact given by both an id and an email from a segment',
     'the contact is addressed by the id although an email is given',
     [('contacts/segments/contact-segments.ts', '''    const identifier = options.email ? options.email : options.contactId;
    return this.resend.delete''', '''    const identifier = options.contactId || options.email;
    return this.resend.delete''')], '''
const calls = net();
await new Resend('re_1').contacts.segments.remove({ contactId: 'c1', email: 'a@x.test', segmentId: 's1' });
ok.equal(decodeURIComponent(calls[0].path), '/contacts/a@x.test/segments/s1');
''')
seed('c16-repeated-step-key-renamed', 'C16', 'an automation with two neighbouring steps of the same key',
     'the key of a step is not transmitted unchanged',
     [('common/utils/parse-automation-to-api-options.ts', 'automation.steps.map(parseStepConfig)', '''automation.steps.map((step, i, all) =>
      parseStepConfig(
        all[i - 1]?.key === step.key ? { ...step, key: `${step.key}_${i}` } : step,
      ),
    )''')], '''
const calls = net();
const s = { key: 'k', type: 'trigger', config: { eventName: 'e' } };
await new Resend('re_1').automations.create({ name: 'n', steps: [s, s], connections: [] });
ok.deepEqual(calls[0].body.steps.map((x) => x.key), ['k', 'k']);
''')
seed('c17-file-name-made-ascii', 'C17', 'an uploaded file whose name has characters outside ASCII',
     "the form data does not contain the caller's file itself",
     [('contacts/imports/contact-imports.ts', "    formData.append('file', payload.file);", '''    formData.append(
      'file',
      payload.file,
      (payload.file as File).name?.replace(/[^\\x20-\\x7e]/g, '_') ?? 'blob',
    );''')], '''
const calls = net();
await new Resend('re_1').contacts.imports.create({ file: new File(['a'], 'kontakte-für-m.csv', { type: 'text/csv' }) });
ok.equal(calls[0].raw.get('file').name, 'kontakte-für-m.csv');
''')
seed('c18-headers-of-empty-list', 'C18', 'a listing that returns no properties',
     'the response headers are lost',
     [('contact-properties/contact-properties.ts', '''          ),
        },
        headers: response.headers,''', '''          ),
        },
        headers: response.data.data.length > 0 ? response.headers : {},''')], '''
net(() => json({ object: 'list', has_more: false, data: [] }, 200, { 'x-request-id': 'r1' }));
const r = await new Resend('re_1').contactProperties.list();
ok.equal(r.headers['x-request-id'], 'r1');
''')
seed('c19-timestamp-normalised', 'C19', 'a timestamp header that is not a plain decimal number',
     'the signature is checked against another timestamp than the one given',
     [('webhooks/webhooks.ts', "      'webhook-timestamp': payload.headers.timestamp,", "      'webhook-timestamp': `${Number(payload.headers.timestamp)}`,")], '''
const { Webhook } = load('standardwebhooks');
const secret = 'whsec_' + Buffer.from('secret-bytes-of-24-len!!').toString('base64');
const now = new Date(Math.floor(Date.now() / 1000) * 1000);
const signature = new Webhook(secret).sign('m1', now, '{}');
const hex = '0x' + (now.getTime() / 1000).toString(16);
const calls = net();
ok.throws(() => new Resend('re_1').webhooks.verify({ payload: '{}', headers: { id: 'm1', timestamp: hex, signature }, webhookSecret: secret }));
''')
seed('c20-second-publish-reuses-first', 'C20', 'a created template whose answer carries a template_id next to its id',
     'another template than the one returned by the call is published',
     [('templates/chainable-template-result.ts', '    return this.publishFn(data.id);', '''    return this.publishFn(
      (data as { template_id?: string }).template_id ?? data.id,
    );''')], '''
const calls = net((c, n) => json(n === 0 ? { object: 'template', id: 't2', template_id: 't1' } : { id: 't2' }));
await new Resend('re_1').templates.duplicate('t1').publish();
ok.equal(calls[1].path, '/templates/t2/publish');
''')
seed('c21-empty-attachments-dropped', 'C21', 'a received email with an empty attachment',
     'an attachment of the original is not forwarded',
     [('emails/receiving/receiving.ts', '    const attachments = parsed.attachments.map((attachment) => {', '''    const contents = parsed.attachments.filter((attachment) =>
      attachment.content.toString(),
    );
    const attachments = contents.map((attachment) => {''')], '''
const mail = 'Subject: s\\r\\nContent-Type: multipart/mixed; boundary="B"\\r\\n\\r\\n--B\\r\\nContent-Type: text/plain\\r\\n\\r\\nhi\\r\\n--B\\r\\nContent-Type: text/plain; name="e.txt"\\r\\nContent-Disposition: attachment; filename="e.txt"\\r\\n\\r\\n--B--\\r\\n';
const calls = net((c, n) => (n === 0 ? json({ id: 'e1', subject: 's', raw: { download_url: 'https://dl.test/x' } }) : n === 1 ? raw(mail) : json({ id: 'f1' })));
await new Resend('re_1').emails.receiving.forward({ emailId: 'e1', to: 'b@x.test', from: 'a@x.test' });
ok.deepEqual(calls[2].body.attachments.map((a) => a.filename), ['e.txt']);
''')
seed('c22-user-agent-trimmed', 'C22', 'an explicitly given user agent with two spaces in a row',
     'the client does not use the user agent explicitly given',
     [(RX, '    this.userAgent = options?.userAgent ?? getDefaultUserAgent();', '''    this.userAgent = (options?.userAgent ?? getDefaultUserAgent()).replace(
      /\\s+/g,
      ' ',
    );''')], '''
const calls = net();
await new Resend('re_1', { userAgent: 'my  agent' }).emails.get('e1');
ok.equal(calls[0].headers.get('user-agent'), 'my  agent');
''')
seed('c23-key-hint-logged', 'C23', 'a request refused with status 401',
     'the log contains a part of the API key',
     [(RX, '''        ...(status !== undefined && { status }),
        error,
        path,
      });''', '''        ...(status !== undefined && {
          status: status === 401 ? `401 (${this.key?.slice(0, 8)})` : status,
        }),
        error,
        path,
      });''')], '''
net(() => json({ name: 'invalid_api_key', statusCode: 401, message: 'm' }, 401));
const seen = [];
console.error = (...a) => seen.push(a);
delete process.env.NODE_ENV;
await new Resend('re_12345678').emails.get('e1');
ok.equal(seen.length, 1);
ok.equal(JSON.stringify(seen).includes('re_1234'), false);
''')
