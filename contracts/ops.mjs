// The operations under contract: how each public operation is called, the shape
// its arguments have (its precondition: what the published TypeScript types
// allow, plus the stated restrictions), and the shape of the documented 2xx
// responses an operation looks into. Pure data: read by the verifier (as JSON)
// and by the replay harness. The postconditions are in specs.mjs.

// ---- shape builders -------------------------------------------------------
const str = { k: 'str' };                       // any well-formed string
const tok = { k: 'str', ne: 1, tok: 1 };        // [A-Za-z0-9_-]+ (opaque ids)
const seg = { k: 'str', ne: 1, seg: 1 };        // any non-empty string but '.' and '..'
const hval = { k: 'str', ne: 1, hv: 1 };          // any non-empty string that is a legal header value
const num = { k: 'num' };
const bool = { k: 'bool' };
const any = { k: 'any' };                       // any JSON value
const entity = { k: 'entity' };                 // any JSON value or a FormData
const jobj = { k: 'rec' };                      // any JSON object
const node = { k: 'node' };                     // a React node
const bytes = { k: 'buf' };                     // a Buffer
const blob = { k: 'blob' };                     // a Blob or File
const hdrs = { k: 'hdrs' };                     // any HeadersInit
const nil = { k: 'null' };
const fals = { k: 'false' };
const en = (...v) => ({ k: 'enum', v });
const obj = (f) => ({ k: 'obj', f });
const arr = (e) => ({ k: 'arr', e });
const or = (...a) => ({ k: 'or', a });
const nul = (s) => or(s, nil);
const opt = (s) => ({ ...s, opt: 1 });           // may be absent or present and undefined
const ref = (name) => ({ k: 'ref', name });

const page = { limit: opt(num), after: opt(str), before: opt(str) };
const strs = or(str, arr(str));
const tags = arr(obj({ name: str, value: str }));
const idList = arr(obj({ id: tok }));
const topicSubs = arr(obj({ id: tok, subscription: en('opt_in', 'opt_out') }));

const emailFields = {
  from: opt(str), to: strs, subject: opt(str), bcc: opt(strs), cc: opt(strs), replyTo: opt(strs),
  headers: opt(jobj), tags: opt(tags), topicId: opt(nul(str)), scheduledAt: opt(str),
  react: opt(node), html: opt(str), text: opt(str),
  template: opt(obj({ id: str, variables: opt(jobj) })),
};
const attachments = arr(obj({
  content: opt(or(str, bytes)), filename: opt(or(str, fals)), path: opt(str), contentType: opt(str), contentId: opt(str),
}));
const tplVars = arr(obj({ key: str, type: en('string', 'number'), fallbackValue: opt(or(str, num, nil)) }));
const tplCommon = {
  subject: opt(nul(str)), text: opt(nul(str)), alias: opt(nul(str)), from: opt(nul(str)), replyTo: opt(strs),
  variables: opt(tplVars), html: opt(str),
};
const step = obj({
  key: str,
  type: en('trigger', 'delay', 'send_email', 'wait_for_event', 'condition', 'contact_update', 'contact_delete', 'add_to_segment'),
  config: obj({
    eventName: opt(str), duration: opt(str), template: opt(obj({ id: str, variables: opt(jobj) })),
    subject: opt(str), from: opt(str), replyTo: opt(str), timeout: opt(str), filterRule: opt(jobj),
    firstName: opt(or(str, nil, jobj)), lastName: opt(or(str, nil, jobj)), unsubscribed: opt(or(bool, jobj)), properties: opt(jobj),
    segmentId: opt(str), type: opt(str), rules: opt(any), field: opt(str), operator: opt(str), value: opt(any),
  }),
});
const connection = obj({ from: str, to: str, type: opt(str) });
const autoStatus = en('enabled', 'disabled');
const contactProps = jobj;
const selId = { id: opt(nul({ k: 'str', seg: 1 })), email: opt(nul({ k: 'str', seg: 1 })) };
const region = en('us-east-1', 'eu-west-1', 'sa-east-1', 'ap-northeast-1');
const caps = obj({ sending: opt(en('enabled', 'disabled')), receiving: opt(en('enabled', 'disabled')) });

export const SHAPES = {
  PostOptions: obj({ headers: opt(hdrs) }),
  IdemOptions: obj({ headers: opt(hdrs), idempotencyKey: opt(hval) }),
  BatchOptions: obj({ headers: opt(hdrs), idempotencyKey: opt(hval), batchValidation: opt(en('strict', 'permissive')) }),
  Page: obj(page),
  Metrics: obj({
    startDate: opt(str), endDate: opt(str), timezone: opt(str), granularity: opt(en('hourly', 'daily', 'weekly', 'monthly')),
    metrics: opt(arr(str)), dimensions: opt(arr(str)), domainId: opt(arr(str)), emailId: opt(arr(str)), broadcastId: opt(arr(str)),
  }),
  Recipients: obj({
    ...page, type: en('sent', 'delivered', 'opened', 'clicked', 'bounced', 'complained', 'unsubscribed', 'suppressed'),
    email: opt(str), bounceType: opt(en('permanent', 'transient', 'undetermined')),
  }),
  Suppressions: obj({ ...page, origin: opt(en('bounce', 'complaint', 'manual')) }),
  ColumnMap: obj({ email: opt(str), firstName: opt(str), lastName: opt(str), unsubscribed: opt(str), properties: opt(jobj) }),
  Domain: obj({
    name: str, region: opt(region), customReturnPath: opt(str), capabilities: opt(caps), openTracking: opt(bool), clickTracking: opt(bool),
    tls: opt(en('enforced', 'opportunistic')), trackingSubdomain: opt(str),
  }),
  SentEvent: obj({ event: str, contactId: opt(str), email: opt(str), payload: opt(jobj) }),
  ContactProperty: obj({ key: str, type: en('string', 'number'), fallbackValue: opt(or(str, num, nil)) }),
  Error: obj({ name: str, message: str, statusCode: or(num, nil) }),
  Email: obj({ ...emailFields, attachments: opt(attachments) }),
  BatchEmail: obj(emailFields),
  Step: step,
  Connection: connection,
  Automation: obj({ name: str, status: opt(autoStatus), steps: arr(step), connections: arr(connection) }),
  Template: obj({ name: str, ...tplCommon, react: opt(node) }),
  TemplateUpdate: obj({ name: opt(str), ...tplCommon }),
  ApiContactProperty: { ...obj({ id: str, created_at: str, key: str, type: en('string', 'number'), fallback_value: or(str, num, nil) }), closed: 1 },      // what else a property has is left open: neither kept nor dropped by the contract
  ApiContactPropertyList: { ...obj({ object: en('list'), has_more: bool, data: arr(ref('ApiContactProperty')) }), closed: 1 },
  IdOnly: obj({ object: opt(str), id: tok }),
  ReceivedEmail: obj({
    object: str, id: str, to: arr(str), from: str, created_at: str, subject: or(str, nil), bcc: any, cc: any, reply_to: any,
    html: nul(str), text: nul(str), headers: any, message_id: str,
    raw: opt(nul(obj({ download_url: str, expires_at: str }))), attachments: any,
  }),
  ParsedMime: obj({
    text: opt(str), html: opt(str), subject: opt(str),
    attachments: arr(obj({ filename: nul(str), mimeType: str, contentId: opt(str), content: str, disposition: opt(nul(str)) })),
  }),
};

const postOpts = opt(ref('PostOptions'));
const idemOpts = opt(ref('IdemOptions'));
const o = (fields) => opt(obj(fields));

// id: operation; args: [name, shape]; resp: shape of the JSON a 2xx answer to
// the n-th request has, where the operation reads it; flags used to select the
// obligations that make up each property.
export const OPS = [
  // emails
  { id: 'emails.send', args: [['payload', ref('Email')], ['options', idemOpts]], email: 1, react: 1 },
  { id: 'emails.create', args: [['payload', ref('Email')], ['options', idemOpts]], email: 1, react: 1 },
  { id: 'emails.get', args: [['id', tok]] },
  { id: 'emails.list', args: [['options', o(page)]] },
  { id: 'emails.update', args: [['payload', obj({ id: tok, scheduledAt: str })]], write: 1, update: 1 },
  { id: 'emails.cancel', args: [['id', tok]] },
  { id: 'emails.share', args: [['id', tok], ['payload', o({ expiresIn: opt(str) })]], write: 1 },
  { id: 'emails.metrics', args: [['options', opt(ref('Metrics'))]] },
  { id: 'emails.attachments.get', args: [['options', obj({ emailId: tok, id: tok })]] },
  { id: 'emails.attachments.list', args: [['options', obj({ emailId: tok, ...page })]] },
  // receiving
  { id: 'emails.receiving.get', args: [['id', tok], ['options', o({ html_format: opt(en('data_uri', 'cid')) })]] },
  { id: 'emails.receiving.list', args: [['options', o(page)]] },
  { id: 'emails.receiving.attachments.get', args: [['options', obj({ emailId: tok, id: tok })]] },
  { id: 'emails.receiving.attachments.list', args: [['options', obj({ emailId: tok, ...page })]] },
  { id: 'emails.receiving.forward', args: [['options', obj({ emailId: tok, to: strs, from: str, passthrough: opt(bool), text: opt(str), html: opt(str) })], ['requestOptions', idemOpts]],
    resp: ['ReceivedEmail', null, null], forward: 1 },
  // batch
  { id: 'batch.send', args: [['payload', arr(ref('BatchEmail'))], ['options', opt(ref('BatchOptions'))]], batch: 1, react: 1 },
  { id: 'batch.create', args: [['payload', arr(ref('BatchEmail'))], ['options', opt(ref('BatchOptions'))]], batch: 1, react: 1 },
  // broadcasts
  { id: 'broadcasts.create', args: [['payload', obj({
    name: opt(str), segmentId: opt(str), audienceId: opt(str), previewText: opt(str), from: str, replyTo: opt(strs), subject: str,
    topicId: opt(nul(str)), react: opt(node), html: opt(str), text: opt(str), send: opt(bool), scheduledAt: opt(str),
  })], ['options', postOpts]], write: 1, react: 1 },
  { id: 'broadcasts.send', args: [['id', tok], ['payload', o({ scheduledAt: opt(str) })]], write: 1 },
  { id: 'broadcasts.list', args: [['options', o(page)]] },
  { id: 'broadcasts.get', args: [['id', tok]] },
  { id: 'broadcasts.recipients', args: [['id', tok], ['options', ref('Recipients')]] },
  { id: 'broadcasts.clickedLinks', args: [['id', tok], ['options', o(page)]] },
  { id: 'broadcasts.remove', args: [['id', tok]] },
  { id: 'broadcasts.cancel', args: [['id', tok]] },
  { id: 'broadcasts.update', args: [['id', tok], ['payload', obj({
    name: opt(str), segmentId: opt(str), audienceId: opt(str), from: opt(str), html: opt(str), react: opt(node), text: opt(str),
    subject: opt(str), replyTo: opt(arr(str)), previewText: opt(str), topicId: opt(nul(str)),
  })]], write: 1, update: 1, react: 1 },
  // templates
  { id: 'templates.create', args: [['payload', ref('Template')]], write: 1, react: 1, chain: 1 },
  { id: 'templates.create.publish', args: [['payload', ref('Template')]], driver: 'drive_create_publish', resp: ['IdOnly', null], react: 1, chain: 1 },
  { id: 'templates.create.await_then_publish', args: [['payload', ref('Template')]], driver: 'drive_create_both', resp: ['IdOnly', null], react: 1, chain: 1 },
  { id: 'templates.duplicate.await_then_publish', args: [['identifier', tok]], driver: 'drive_duplicate_both', resp: ['IdOnly', null], chain: 1 },
  { id: 'templates.create.then', args: [['payload', ref('Template')]], driver: 'drive_create_then', react: 1, chain: 1 },
  { id: 'templates.remove', args: [['identifier', tok]] },
  { id: 'templates.get', args: [['identifier', tok]] },
  { id: 'templates.list', args: [['options', o(page)]] },
  { id: 'templates.duplicate', args: [['identifier', tok]], chain: 1 },
  { id: 'templates.duplicate.publish', args: [['identifier', tok]], driver: 'drive_duplicate_publish', resp: ['IdOnly', null], chain: 1 },
  { id: 'templates.publish', args: [['identifier', tok]], chain: 1 },
  { id: 'templates.update', args: [['identifier', tok], ['payload', ref('TemplateUpdate')]], write: 1, update: 1 },
  // contacts
  { id: 'contacts.create', args: [['payload', obj({
    audienceId: opt(tok), email: str, unsubscribed: opt(bool), firstName: opt(str), lastName: opt(str), properties: opt(contactProps),
    segments: opt(idList), topics: opt(topicSubs),
  })], ['options', postOpts]], write: 1, contact: 1, valid: 1 },
  { id: 'contacts.list', args: [['options', o({ ...page, segmentId: opt({ k: 'str', tok: 1 }), audienceId: opt({ k: 'str', tok: 1 }) })]], contact: 1 },
  { id: 'contacts.get', args: [['options', or(seg, obj({ audienceId: opt({ k: 'str', tok: 1 }), ...selId }))]], contact: 1, free: 1, valid: 1 },
  { id: 'contacts.update', args: [['options', obj({
    audienceId: opt({ k: 'str', tok: 1 }), ...selId, unsubscribed: opt(bool), firstName: opt(nul(str)), lastName: opt(nul(str)), properties: opt(contactProps),
  })]], contact: 1, free: 1, write: 1, update: 1, valid: 1 },
  { id: 'contacts.remove', args: [['payload', or(seg, obj({ audienceId: opt({ k: 'str', tok: 1 }), ...selId }))]], contact: 1, free: 1, valid: 1 },
  { id: 'contacts.topics.update', args: [['payload', obj({ ...selId, topics: topicSubs })]], contact: 1, free: 1, write: 1, update: 1, valid: 1 },
  { id: 'contacts.topics.list', args: [['options', obj({ ...selId, ...page })]], contact: 1, free: 1, valid: 1 },
  { id: 'contacts.segments.list', args: [['options', obj({ contactId: selId.id, email: selId.email, ...page })]], contact: 1, free: 1, valid: 1 },
  { id: 'contacts.segments.add', args: [['options', obj({ contactId: selId.id, email: selId.email, segmentId: tok })]], contact: 1, free: 1, valid: 1 },
  { id: 'contacts.segments.remove', args: [['options', obj({ contactId: selId.id, email: selId.email, segmentId: tok })]], contact: 1, free: 1, valid: 1 },
  { id: 'contacts.imports.create', args: [['payload', obj({
    file: blob,
    columnMap: opt(ref('ColumnMap')),
    onConflict: opt(en('upsert', 'skip')), segments: opt(idList), topics: opt(topicSubs),
  })], ['options', postOpts]], imports: 1 },
  { id: 'contacts.imports.list', args: [['options', o({ ...page, status: opt(en('queued', 'in_progress', 'completed', 'failed')) })]] },
  { id: 'contacts.imports.get', args: [['id', tok]] },
  // contact properties
  { id: 'contactProperties.create', args: [['options', ref('ContactProperty')]], write: 1 },
  { id: 'contactProperties.list', args: [['options', o(page)]], resp: ['ApiContactPropertyList'], cprops: 1 },
  { id: 'contactProperties.get', args: [['id', or({ k: 'str', tok: 1 }, nil)]], resp: ['ApiContactProperty'], cprops: 1, valid: 1 },
  { id: 'contactProperties.update', args: [['payload', obj({ id: opt(nul({ k: 'str', tok: 1 })), fallbackValue: opt(or(str, num, nil)) })]], write: 1, update: 1, valid: 1 },
  { id: 'contactProperties.remove', args: [['id', or({ k: 'str', tok: 1 }, nil)]], valid: 1 },
  // domains
  { id: 'domains.create', args: [['payload', ref('Domain')], ['options', postOpts]], write: 1 },
  { id: 'domains.list', args: [['options', o(page)]] },
  { id: 'domains.get', args: [['id', tok]] },
  { id: 'domains.update', args: [['payload', obj({
    id: tok, clickTracking: opt(bool), openTracking: opt(bool), tls: opt(en('enforced', 'opportunistic')), capabilities: opt(caps), trackingSubdomain: opt(str),
  })]], write: 1, update: 1 },
  { id: 'domains.remove', args: [['id', tok]] },
  { id: 'domains.verify', args: [['id', tok]] },
  { id: 'domains.claims.create', args: [['payload', obj({
    name: str, region: opt(region), customReturnPath: opt(str), openTracking: opt(bool), clickTracking: opt(bool), trackingSubdomain: opt(str),
  })], ['options', postOpts]], write: 1 },
  { id: 'domains.claims.get', args: [['domainId', tok]] },
  { id: 'domains.claims.verify', args: [['domainId', tok]] },
  // api keys
  { id: 'apiKeys.create', args: [['payload', obj({ name: str, permission: opt(en('full_access', 'sending_access')), domain_id: opt(str) })], ['options', postOpts]], write: 1 },
  { id: 'apiKeys.list', args: [['options', o(page)]] },
  { id: 'apiKeys.update', args: [['id', tok], ['payload', obj({ name: str })]], write: 1, update: 1 },
  { id: 'apiKeys.remove', args: [['id', tok]] },
  // segments (and its deprecated alias audiences)
  { id: 'segments.create', args: [['payload', obj({ name: str })], ['options', postOpts]], write: 1 },
  { id: 'segments.list', args: [['options', o(page)]] },
  { id: 'segments.get', args: [['id', tok]] },
  { id: 'segments.remove', args: [['id', tok]] },
  { id: 'audiences.create', args: [['payload', obj({ name: str })], ['options', postOpts]], write: 1, spec: 'segments_create' },
  { id: 'audiences.list', args: [['options', o(page)]], spec: 'segments_list' },
  { id: 'audiences.get', args: [['id', tok]], spec: 'segments_get' },
  { id: 'audiences.remove', args: [['id', tok]], spec: 'segments_remove' },
  // topics
  { id: 'topics.create', args: [['payload', obj({ name: str, description: opt(str), defaultSubscription: en('opt_in', 'opt_out') })]], write: 1 },
  { id: 'topics.list', args: [] },
  { id: 'topics.get', args: [['id', or({ k: 'str', tok: 1 }, nil)]], valid: 1 },
  { id: 'topics.update', args: [['payload', obj({ id: opt(nul({ k: 'str', tok: 1 })), name: opt(str), description: opt(str) })]], write: 1, update: 1, valid: 1 },
  { id: 'topics.remove', args: [['id', or({ k: 'str', tok: 1 }, nil)]], valid: 1 },
  // webhooks
  { id: 'webhooks.create', args: [['payload', obj({ endpoint: str, events: arr(str) })], ['options', postOpts]], write: 1 },
  { id: 'webhooks.get', args: [['id', tok]] },
  { id: 'webhooks.list', args: [['options', o(page)]] },
  { id: 'webhooks.update', args: [['id', tok], ['payload', obj({ endpoint: opt(str), events: opt(arr(str)), status: opt(en('enabled', 'disabled')) })]], write: 1, update: 1 },
  { id: 'webhooks.remove', args: [['id', tok]] },
  { id: 'webhooks.verify', args: [['payload', obj({ payload: str, headers: obj({ id: str, timestamp: str, signature: str }), webhookSecret: str })]], sync: 1, verify: 1, local: 1 },
  // suppressions
  { id: 'suppressions.add', args: [['options', obj({ email: str })]], write: 1 },
  { id: 'suppressions.list', args: [['options', opt(ref('Suppressions'))]] },
  { id: 'suppressions.get', args: [['idOrEmail', or({ k: 'str', seg: 1 }, nil)]], free: 1, valid: 1 },
  { id: 'suppressions.remove', args: [['idOrEmail', or({ k: 'str', seg: 1 }, nil)]], free: 1, valid: 1 },
  { id: 'suppressions.batch.add', args: [['options', obj({ emails: arr(str) })]], write: 1 },
  { id: 'suppressions.batch.remove', args: [['options', obj({ emails: opt(arr(str)), ids: opt(arr(str)) })]], write: 1 },
  // events
  { id: 'events.send', args: [['payload', ref('SentEvent')]], write: 1 },
  { id: 'events.create', args: [['payload', obj({ name: str, schema: opt(nul(jobj)) })]], write: 1 },
  { id: 'events.get', args: [['identifier', seg]], free: 1 },
  { id: 'events.list', args: [['options', o(page)]] },
  { id: 'events.update', args: [['identifier', seg], ['payload', obj({ schema: nul(jobj) })]], free: 1, write: 1, update: 1 },
  { id: 'events.remove', args: [['identifier', seg]], free: 1 },
  // automations
  { id: 'automations.create', args: [['payload', ref('Automation')]], automation: 1 },
  { id: 'automations.list', args: [['options', o({ ...page, status: opt(autoStatus) })]] },
  { id: 'automations.get', args: [['id', tok]] },
  { id: 'automations.remove', args: [['id', tok]] },
  { id: 'automations.update', args: [['id', tok], ['payload', obj({ name: opt(str), status: opt(autoStatus), steps: opt(arr(step)), connections: opt(arr(connection)) })]], automation: 1, update: 1 },
  { id: 'automations.duplicate', args: [['id', tok]] },
  { id: 'automations.stop', args: [['id', tok]] },
  { id: 'automations.runs.get', args: [['options', obj({ automationId: tok, runId: tok })]] },
  { id: 'automations.runs.list', args: [['options', obj({ ...page, automationId: tok, status: opt(or(en('running', 'completed', 'failed', 'cancelled'), arr(str))) })]] },
  // logs, oauth grants
  { id: 'logs.list', args: [['options', o(page)]] },
  { id: 'logs.get', args: [['id', tok]] },
  { id: 'oauthGrants.list', args: [['options', o(page)]] },
  { id: 'oauthGrants.revoke', args: [['id', tok]] },
  // the generic request methods
  { id: 'post', args: [['path', { k: 'str', path: 1 }], ['entity', opt(entity)], ['options', idemOpts]], core: 1 },
  { id: 'get', args: [['path', { k: 'str', path: 1 }], ['options', postOpts]], core: 1 },
  { id: 'put', args: [['path', { k: 'str', path: 1 }], ['entity', any], ['options', postOpts]], core: 1 },
  { id: 'patch', args: [['path', { k: 'str', path: 1 }], ['entity', any], ['options', postOpts]], core: 1 },
  { id: 'delete', args: [['path', { k: 'str', path: 1 }], ['query', opt(any)], ['options', postOpts]], core: 1 },
  // construction of a client
  { id: 'new', args: [['key', opt({ k: 'str', hv: 1 })], ['options', o({ baseUrl: opt({ k: 'str', base: 1 }), userAgent: opt({ k: 'str', hv: 1 }) })]], driver: 'drive_new', config: 1 },
];

// Internal functions under contract. At a call site the contract (specs.mjs,
// function `spec`) stands for the body; the body is verified against it
// separately. A function that no longer exists, has another arity, or whose
// body does not meet its contract is inlined instead.
export const INTERNAL = [
  { id: 'Resend.fetchRequest', spec: 'fetchRequest', args: [['path', { k: 'str', path: 1 }], ['options', { k: 'init' }]], self: 1 },
  { id: 'Resend.post', spec: 'post', args: [['path', { k: 'str', path: 1 }], ['entity', opt(entity)], ['options', idemOpts]], self: 1 },
  { id: 'Resend.get', spec: 'get', args: [['path', { k: 'str', path: 1 }], ['options', postOpts]], self: 1 },
  { id: 'Resend.put', spec: 'put', args: [['path', { k: 'str', path: 1 }], ['entity', any], ['options', postOpts]], self: 1 },
  { id: 'Resend.patch', spec: 'patch', args: [['path', { k: 'str', path: 1 }], ['entity', any], ['options', postOpts]], self: 1 },
  { id: 'Resend.delete', spec: 'delete_', args: [['path', { k: 'str', path: 1 }], ['query', opt(any)], ['options', postOpts]], self: 1 },
  { id: 'buildPaginationQuery', spec: 'c_buildPaginationQuery', args: [['options', ref('Page')]] },
  { id: 'buildPaginationUrl', spec: 'c_buildPaginationUrl', args: [['base', { k: 'str', path: 1 }], ['options', ref('Page')]] },
  { id: 'parseEmailToApiOptions', spec: 'emailBody', args: [['email', ref('Email')]] },
  { id: 'parseTemplateToApiOptions', spec: 'templateBody', args: [['template', ref('TemplateUpdate')]] },
  { id: 'parseStepConfig', spec: 'stepBody', args: [['step', ref('Step')]] },
  { id: 'parseConnection', spec: 'connectionBody', args: [['connection', ref('Connection')]] },
  { id: 'parseAutomationToApiOptions', spec: 'automationBody', args: [['automation', ref('Automation')]] },
  { id: 'parseContactPropertyFromApi', spec: 'contactPropertyFromApi', args: [['contactProperty', ref('ApiContactProperty')]] },
  { id: 'Resend.logError', spec: 'c_logError', args: [['error', or(jobj, ref('Error'))], ['path', { k: 'str', path: 1 }], ['status', opt(num)]], self: 1 },
  { id: 'getPaginationQueryProperties', spec: 'c_getPaginationQueryProperties', args: [['options', opt(ref('Page'))]] },
  { id: 'buildMetricsQuery', spec: 'c_buildMetricsQuery', args: [['options', ref('Metrics')]] },
  { id: 'buildRecipientsQuery', spec: 'c_buildRecipientsQuery', args: [['options', ref('Recipients')]] },
  { id: 'buildSuppressionsQuery', spec: 'c_buildSuppressionsQuery', args: [['options', ref('Suppressions')]] },
  { id: 'missingIdentifierError', spec: 'c_missingIdentifierError', args: [] },
  { id: 'parseAttachments', spec: 'attachmentBodies', args: [['attachments', opt(attachments)]] },
  { id: 'parseVariables', spec: 'variableBodies', args: [['variables', opt(tplVars)]] },
  { id: 'parseDomainToApiOptions', spec: 'domainBody', args: [['domain', ref('Domain')]] },
  { id: 'parseContactPropertyToApiOptions', spec: 'contactPropertyBody', args: [['contactProperty', ref('ContactProperty')]] },
  { id: 'parseEventToApiOptions', spec: 'eventBody', args: [['event', ref('SentEvent')]] },
  { id: 'ContactImports.buildColumnMap', spec: 'columnMapBody', args: [['columnMap', nul(ref('ColumnMap'))]], on: 'contacts.imports', self: 'resend' },
  { id: 'Emails.create', spec: 'emails_create', args: [['payload', ref('Email')], ['options', idemOpts]], on: 'emails', self: 'resend' },
  { id: 'Batch.create', spec: 'batch_create', args: [['payload', arr(ref('BatchEmail'))], ['options', opt(ref('BatchOptions'))]], on: 'batch', self: 'resend' },
  { id: 'Templates.performCreate', spec: 'templates_create', args: [['payload', ref('Template')]], on: 'templates', self: 'resend' },
  { id: 'Templates.publish', spec: 'templates_publish', args: [['identifier', tok]], on: 'templates', self: 'resend' },
  { id: 'Receiving.get', spec: 'emails_receiving_get', args: [['id', tok], ['options', o({ html_format: opt(en('data_uri', 'cid')) })]], on: 'emails.receiving', self: 'resend' },
  { id: 'Receiving.downloadRaw', spec: 'c_downloadRaw', args: [['url', str]], on: 'emails.receiving', self: 'resend' },
  { id: 'Receiving.forwardPassthrough', spec: 'c_forwardPassthrough', args: [['email', ref('ReceivedEmail')], ['options', obj({ to: strs, from: str, subject: str })], ['requestOptions', idemOpts]], on: 'emails.receiving', self: 'resend' },
  { id: 'Receiving.forwardWrapped', spec: 'c_forwardWrapped', args: [['email', ref('ReceivedEmail')], ['options', obj({ to: strs, from: str, subject: str, text: opt(str), html: opt(str) })], ['requestOptions', idemOpts]], on: 'emails.receiving', self: 'resend' },
  { id: 'encodeContactIdentifier', spec: 'c_encodeContactIdentifier', args: [['identifier', seg]] },
  { id: 'render', spec: 'c_render', args: [['node', node]] },
];
