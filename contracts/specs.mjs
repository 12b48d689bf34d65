// The contracts: for every operation (and every internal function under
// contract) a specification function with the same arguments. It is executable
// text, read by two independent interpreters: the verifier runs it symbolically,
// for all inputs, next to the implementation and proves that both make the same
// requests, give the same outcome and log the same; the replay harness runs it
// natively as the oracle for concrete executions of the real code.
//
// Intrinsics (the trusted vocabulary of the contracts):
//   $request({method, path | rawPath, query, body | form, options})
//       demands exactly this request on the API: `path` is a list of decoded path
//       segments, `query` a map of decoded parameters (undefined = absent),
//       `body` a JSON value (undefined = no body), `form` a map of form parts
//       (undefined = no part), `options` the caller's per-call options. Headers:
//       the client's credentials, user agent and JSON content type (none for
//       form data), overridden by options.headers, then by options.idempotencyKey.
//       Returns what the network answered (see envelope).
//   $download(url)   demands a plain GET of a URL, without any header
//   $render(node)    the rendering of a React node, or throws
//   $parseMime(bytes)   the parsed message, a trusted function of the bytes, or throws
//   $base64(bytes)   a trusted function of the bytes
//   $verifySignature(secret, payload, id, timestamp, signature)   returns or throws
//   $log(entry)      demands one console error with this entry
//   $logging()       logging is on: there is a process and it is not production
//   $text()          any string: messages are not part of a contract
//   $trimAngles(s)   s without one leading '<' and one trailing '>'
//   $query(map)      the query string of a map, in order; '' when all are undefined
//   $segment(s)      s encoded as one URL path segment
//   $json(v)         the JSON text of v
//   $hasEnv(), $env(name)   the process environment at construction time
//   $packageVersion(), $throw()   the package's version; throws some Error
//   $new, $changeEnvironment, $scramble   (drivers) make a client, change every
//       environment variable, overwrite every member of a caller's object

// ---- the result envelope ---------------------------------------------------
function failed(r, error, statusCode, headers) {
  if ($logging()) {
    if (statusCode === null) $log({ error: error, path: r.path });
    else $log({ status: statusCode, error: error, path: r.path });
  }
  return { data: null, error: error, headers: headers };
}
export function envelope(r) {
  if (!r.delivered) return unreachable(r);
  if (r.ok) {
    if (!r.readable || !r.isJson) return unreachable(r);
    return { data: r.json, error: null, headers: r.headers };
  }
  if (r.readable && r.isJson && r.jsonIsObject) return failed(r, r.json, r.status, r.headers);
  return failed(r, { name: 'application_error', message: $text(), statusCode: r.status }, r.status, r.headers);
}
function unreachable(r) {
  return failed(r, { name: 'application_error', message: $text(), statusCode: null }, null, null);
}
function call(q) {
  return envelope($request(q));
}
function localError(name) {
  return { data: null, error: { name: name, message: $text(), statusCode: null }, headers: null };
}
function missing() {
  return localError('missing_required_field');
}
function page(options) {
  return { limit: options?.limit, after: options?.after, before: options?.before };
}
function list(path, options) {
  return call({ method: 'GET', path: path, query: page(options) });
}
function read(path) {
  return call({ method: 'GET', path: path });
}
function drop(path) {
  return call({ method: 'DELETE', path: path });
}

// ---- the generic request methods and the request core ----------------------
export function fetchRequest({ path, options }) {
  return envelope($request({ rawPath: path, init: options }));
}
export function post({ path, entity, options }) {
  return call({ method: 'POST', rawPath: path, entity: entity, options: options });
}
export function get({ path, options }) {
  return call({ method: 'GET', rawPath: path, options: options });
}
export function put({ path, entity, options }) {
  return call({ method: 'PUT', rawPath: path, body: entity, options: options });
}
export function patch({ path, entity, options }) {
  return call({ method: 'PATCH', rawPath: path, body: entity, options: options });
}
export function delete_({ path, query, options }) {
  return call({ method: 'DELETE', rawPath: path, body: query, options: options });
}

export function c_logError({ error, path, status }) {
  if ($logging()) {
    if (status === undefined) $log({ error: error, path: path });
    else $log({ status: status, error: error, path: path });
  }
}

// ---- helpers under contract -------------------------------------------------
export function c_buildPaginationQuery({ options }) {
  return $query({ limit: options.limit, after: options.after, before: options.before });
}
export function c_buildPaginationUrl({ base, options }) {
  const q = $query({ limit: options.limit, after: options.after, before: options.before });
  return q ? `${base}?${q}` : base;
}
export function c_getPaginationQueryProperties({ options }) {
  const q = $query({ before: options?.before, after: options?.after, limit: options?.limit });
  return q ? `?${q}` : '';
}
export function c_encodeContactIdentifier({ identifier }) {
  return $segment(identifier).replace(/%40/g, '@');
}
export function c_render({ node }) {
  return $render(node);
}

// ---- emails -----------------------------------------------------------------
export function emailBody({ email }) {
  return {
    from: email.from,
    to: email.to,
    subject: email.subject,
    bcc: email.bcc,
    cc: email.cc,
    reply_to: email.replyTo,
    html: email.html,
    text: email.text,
    headers: email.headers,
    tags: email.tags,
    topic_id: email.topicId,
    scheduled_at: email.scheduledAt,
    template: email.template ? { id: email.template.id, variables: email.template.variables } : undefined,
    attachments: attachmentBodies({ attachments: email.attachments }),
  };
}
export function attachmentBodies({ attachments }) {
  return attachments
    ? attachments.map((a) => ({
        content: a.content,
        filename: a.filename,
        path: a.path,
        content_type: a.contentType,
        content_id: a.contentId,
      }))
    : undefined;
}
function renderedEmail(email) {
  if (email.react) return emailBody({ email: { ...email, html: $render(email.react) } });
  return emailBody({ email: email });
}
export function emails_create({ payload, options }) {
  return call({ method: 'POST', path: ['emails'], body: renderedEmail(payload), options: options });
}
export const emails_send = emails_create;
export function emails_get({ id }) {
  return read(['emails', id]);
}
export function emails_list({ options }) {
  return list(['emails'], options);
}
export function emails_update({ payload }) {
  return call({ method: 'PATCH', path: ['emails', payload.id], body: { scheduled_at: payload.scheduledAt } });
}
export function emails_cancel({ id }) {
  return call({ method: 'POST', path: ['emails', id, 'cancel'] });
}
export function emails_share({ id, payload }) {
  return call({ method: 'POST', path: ['emails', id, 'share'], body: { expires_in: payload?.expiresIn } });
}
// an empty filter counts as not supplied
function commaList(xs) {
  return xs?.join(',') || undefined;
}
function metricsQuery(options) {
  return {
    start_date: options?.startDate || undefined,
    end_date: options?.endDate || undefined,
    timezone: options?.timezone || undefined,
    granularity: options?.granularity,
    metrics: commaList(options?.metrics),
    dimensions: commaList(options?.dimensions),
    domain_id: commaList(options?.domainId),
    email_id: commaList(options?.emailId),
    broadcast_id: commaList(options?.broadcastId),
  };
}
export function c_buildMetricsQuery({ options }) {
  return $query(metricsQuery(options));
}
export function emails_metrics({ options }) {
  return call({ method: 'GET', path: ['emails', 'metrics'], query: metricsQuery(options) });
}
export function emails_attachments_get({ options }) {
  return read(['emails', options.emailId, 'attachments', options.id]);
}
export function emails_attachments_list({ options }) {
  return list(['emails', options.emailId, 'attachments'], options);
}

// ---- received emails --------------------------------------------------------
export function emails_receiving_get({ id, options }) {
  return call({ method: 'GET', path: ['emails', 'receiving', id], query: { html_format: options?.html_format } });
}
export function emails_receiving_list({ options }) {
  return list(['emails', 'receiving'], options);
}
export function emails_receiving_attachments_get({ options }) {
  return read(['emails', 'receiving', options.emailId, 'attachments', options.id]);
}
export function emails_receiving_attachments_list({ options }) {
  return list(['emails', 'receiving', options.emailId, 'attachments'], options);
}
export function c_downloadRaw({ url }) {
  const raw = $download(url);
  if (!raw.delivered || (raw.ok && !raw.readable)) {
    return { content: null, error: { name: 'application_error', message: $text(), statusCode: null } };
  }
  if (!raw.ok) return { content: null, error: { name: 'application_error', message: $text(), statusCode: raw.status } };
  return { content: raw.bytes, error: null };
}
function notForwarded(error) {
  return { data: null, error: error, headers: null };
}
function noRawContent() {
  return notForwarded({ name: 'validation_error', message: $text(), statusCode: 400 });
}
export function c_forwardWrapped({ email, options, requestOptions }) {
  if (!email.raw?.download_url) return noRawContent();
  const raw = c_downloadRaw({ url: email.raw.download_url });
  if (raw.error) return notForwarded(raw.error);
  return call({
    method: 'POST',
    path: ['emails'],
    body: {
      from: options.from,
      to: options.to,
      subject: options.subject,
      text: options.text,
      html: options.html,
      attachments: [{ filename: 'forwarded_message.eml', content: $base64(raw.content), content_type: 'message/rfc822' }],
    },
    options: requestOptions,
  });
}
export function c_forwardPassthrough({ email, options, requestOptions }) {
  if (!email.raw?.download_url) return noRawContent();
  const raw = c_downloadRaw({ url: email.raw.download_url });
  if (raw.error) return notForwarded(raw.error);
  let mime;
  try {
    mime = $parseMime(raw.content);
  } catch {
    return notForwarded({ name: 'application_error', message: $text(), statusCode: null });
  }
  return call({
    method: 'POST',
    path: ['emails'],
    body: {
      from: options.from,
      to: options.to,
      subject: options.subject,
      text: mime.text || undefined,
      html: mime.html || undefined,
      attachments:
        mime.attachments.length > 0
          ? mime.attachments.map((a) => ({
              filename: a.filename,
              content: a.content,
              content_type: a.mimeType,
              content_id: a.contentId ? $trimAngles(a.contentId) || undefined : undefined,
            }))
          : undefined,
    },
    options: requestOptions,
  });
}
export function emails_receiving_forward({ options, requestOptions }) {
  const received = emails_receiving_get({ id: options.emailId });
  if (received.error) return received;
  const email = received.data;
  const subject = email.subject || '(no subject)';
  if (options.passthrough === false) {
    return c_forwardWrapped({
      email: email,
      options: {
        to: options.to,
        from: options.from,
        subject: subject.startsWith('Fwd:') ? subject : `Fwd: ${subject}`,
        text: options.text,
        html: options.html,
      },
      requestOptions: requestOptions,
    });
  }
  return c_forwardPassthrough({
    email: email,
    options: { to: options.to, from: options.from, subject: subject },
    requestOptions: requestOptions,
  });
}

// ---- batch ------------------------------------------------------------------
export function batch_create({ payload, options }) {
  const entries = payload.map((email) => renderedEmail(email));
  return call({
    method: 'POST',
    path: ['emails', 'batch'],
    body: entries,
    options: options,
    defaults: { 'x-batch-validation': options?.batchValidation ?? 'strict' },
  });
}
export const batch_send = batch_create;

// ---- broadcasts -------------------------------------------------------------
export function broadcasts_create({ payload, options }) {
  const html = payload.react ? $render(payload.react) : payload.html;
  return call({
    method: 'POST',
    path: ['broadcasts'],
    body: {
      name: payload.name,
      segment_id: payload.segmentId,
      audience_id: payload.audienceId,
      preview_text: payload.previewText,
      from: payload.from,
      html: html,
      reply_to: payload.replyTo,
      subject: payload.subject,
      text: payload.text,
      topic_id: payload.topicId,
      send: payload.send,
      scheduled_at: payload.scheduledAt,
    },
    options: options,
  });
}
export function broadcasts_send({ id, payload }) {
  return call({ method: 'POST', path: ['broadcasts', id, 'send'], body: { scheduled_at: payload?.scheduledAt } });
}
export function broadcasts_list({ options }) {
  return list(['broadcasts'], options);
}
export function broadcasts_get({ id }) {
  return read(['broadcasts', id]);
}
export function broadcasts_recipients({ id, options }) {
  return call({ method: 'GET', path: ['broadcasts', id, 'recipients'], query: recipientsQuery(options) });
}
function recipientsQuery(options) {
  return { ...page(options), type: options.type, email: options.email, bounce_type: options.bounceType };
}
export function c_buildRecipientsQuery({ options }) {
  return $query(recipientsQuery(options));
}
export function broadcasts_clickedLinks({ id, options }) {
  return list(['broadcasts', id, 'clicked-links'], options);
}
export function broadcasts_remove({ id }) {
  return drop(['broadcasts', id]);
}
export function broadcasts_cancel({ id }) {
  return call({ method: 'POST', path: ['broadcasts', id, 'cancel'] });
}
export function broadcasts_update({ id, payload }) {
  const html = payload.react ? $render(payload.react) : payload.html;
  return call({
    method: 'PATCH',
    path: ['broadcasts', id],
    body: {
      name: payload.name,
      segment_id: payload.segmentId,
      audience_id: payload.audienceId,
      from: payload.from,
      html: html,
      text: payload.text,
      subject: payload.subject,
      reply_to: payload.replyTo,
      preview_text: payload.previewText,
      topic_id: payload.topicId,
    },
  });
}

// ---- templates --------------------------------------------------------------
export function templateBody({ template }) {
  return {
    name: template.name,
    subject: template.subject,
    html: template.html,
    text: template.text,
    alias: template.alias,
    from: template.from,
    reply_to: template.replyTo,
    variables: variableBodies({ variables: template.variables }),
  };
}
export function variableBodies({ variables }) {
  return variables ? variables.map((v) => ({ key: v.key, type: v.type, fallback_value: v.fallbackValue })) : undefined;
}
export function templates_create({ payload }) {
  const template = payload.react ? { ...payload, html: $render(payload.react) } : payload;
  return call({ method: 'POST', path: ['templates'], body: templateBody({ template: template }) });
}
export function templates_publish({ identifier }) {
  return call({ method: 'POST', path: ['templates', identifier, 'publish'] });
}
export function templates_duplicate({ identifier }) {
  return call({ method: 'POST', path: ['templates', identifier, 'duplicate'] });
}
function publishAfter(first) {
  if (first.error) return first;
  return templates_publish({ identifier: first.data.id });
}
export function templates_create_publish({ payload }) {
  return publishAfter(templates_create({ payload: payload }));
}
export function templates_duplicate_publish({ identifier }) {
  return publishAfter(templates_duplicate({ identifier: identifier }));
}
export function templates_create_await_then_publish({ payload }) {
  const first = templates_create({ payload: payload });
  return { first: first, second: publishAfter(first) };
}
export function templates_create_then({ payload }) {
  let first;
  try {
    first = templates_create({ payload: payload });
  } catch {
    return { rejected: true };
  }
  return { first: first };
}
export function templates_duplicate_await_then_publish({ identifier }) {
  const first = templates_duplicate({ identifier: identifier });
  return { first: first, second: publishAfter(first) };
}
export function templates_remove({ identifier }) {
  return drop(['templates', identifier]);
}
export function templates_get({ identifier }) {
  return read(['templates', identifier]);
}
export function templates_list({ options }) {
  return list(['templates'], options);
}
export function templates_update({ identifier, payload }) {
  return call({ method: 'PATCH', path: ['templates', identifier], body: templateBody({ template: payload }) });
}

// ---- contacts ---------------------------------------------------------------
export function contacts_create({ payload, options }) {
  const body = {
    unsubscribed: payload.unsubscribed,
    email: payload.email,
    first_name: payload.firstName,
    last_name: payload.lastName,
    properties: payload.properties,
  };
  if (payload.audienceId !== undefined) {
    if (payload.segments !== undefined || payload.topics !== undefined) return localError('invalid_parameter');
    return call({ method: 'POST', path: ['audiences', payload.audienceId, 'contacts'], body: body, options: options });
  }
  return call({
    method: 'POST',
    path: ['contacts'],
    body: { ...body, segments: payload.segments, topics: payload.topics },
    options: options,
  });
}
export function contacts_list({ options }) {
  const segment = options?.segmentId ?? options?.audienceId;
  return list(segment ? ['segments', segment, 'contacts'] : ['contacts'], options);
}
function contactPath(options, id) {
  const contact = options.email ? options.email : id;
  return options.audienceId ? ['audiences', options.audienceId, 'contacts', contact] : ['contacts', contact];
}
export function contacts_get({ options }) {
  if (typeof options === 'string') return read(['contacts', options]);
  if (!options.id && !options.email) return missing();
  return read(contactPath(options, options.id));
}
export function contacts_update({ options }) {
  if (!options.id && !options.email) return missing();
  return call({
    method: 'PATCH',
    path: contactPath(options, options.id),
    body: {
      unsubscribed: options.unsubscribed,
      first_name: options.firstName,
      last_name: options.lastName,
      properties: options.properties,
    },
  });
}
export function contacts_remove({ payload }) {
  if (typeof payload === 'string') return drop(['contacts', payload]);
  if (!payload.id && !payload.email) return missing();
  return drop(contactPath(payload, payload.id));
}
function addressed(options, id) {
  return options.email ? options.email : id;
}
export function contacts_topics_update({ payload }) {
  if (!payload.id && !payload.email) return missing();
  return call({ method: 'PATCH', path: ['contacts', addressed(payload, payload.id), 'topics'], body: payload.topics });
}
export function contacts_topics_list({ options }) {
  if (!options.id && !options.email) return missing();
  return list(['contacts', addressed(options, options.id), 'topics'], options);
}
export function contacts_segments_list({ options }) {
  if (!options.contactId && !options.email) return missing();
  return list(['contacts', addressed(options, options.contactId), 'segments'], options);
}
export function contacts_segments_add({ options }) {
  if (!options.contactId && !options.email) return missing();
  return call({ method: 'POST', path: ['contacts', addressed(options, options.contactId), 'segments', options.segmentId] });
}
export function contacts_segments_remove({ options }) {
  if (!options.contactId && !options.email) return missing();
  return drop(['contacts', addressed(options, options.contactId), 'segments', options.segmentId]);
}
export function columnMapBody({ columnMap }) {
  return columnMap
    ? {
        email: columnMap.email,
        first_name: columnMap.firstName,
        last_name: columnMap.lastName,
        unsubscribed: columnMap.unsubscribed,
        properties: columnMap.properties,
      }
    : null;
}
export function contacts_imports_create({ payload, options }) {
  const map = columnMapBody({ columnMap: payload.columnMap });
  return call({
    method: 'POST',
    path: ['contacts', 'imports'],
    form: {
      file: payload.file,
      column_map: map ? $json(map) : undefined,
      on_conflict: payload.onConflict,
      segments: payload.segments ? $json(payload.segments) : undefined,
      topics: payload.topics ? $json(payload.topics) : undefined,
    },
    options: options,
  });
}
export function contacts_imports_list({ options }) {
  return call({ method: 'GET', path: ['contacts', 'imports'], query: { ...page(options), status: options?.status } });
}
export function contacts_imports_get({ id }) {
  return read(['contacts', 'imports', id]);
}

// ---- contact properties -----------------------------------------------------
export function contactPropertyFromApi({ contactProperty }) {
  return {
    id: contactProperty.id,
    key: contactProperty.key,
    createdAt: contactProperty.created_at,
    type: contactProperty.type,
    fallbackValue: contactProperty.fallback_value,
  };
}
export function contactPropertyBody({ contactProperty }) {
  return { key: contactProperty.key, type: contactProperty.type, fallback_value: contactProperty.fallbackValue };
}
export function contactProperties_create({ options }) {
  return call({ method: 'POST', path: ['contact-properties'], body: contactPropertyBody({ contactProperty: options }) });
}
export function contactProperties_list({ options }) {
  const r = list(['contact-properties'], options);
  if (r.error) return r;
  return {
    data: { ...r.data, data: r.data.data.map((p) => contactPropertyFromApi({ contactProperty: p })) },
    error: null,
    headers: r.headers,
  };
}
export function contactProperties_get({ id }) {
  if (!id) return missing();
  const r = read(['contact-properties', id]);
  if (r.error) return r;
  const p = r.data;
  return {
    data: {
      object: 'contact_property',
      id: p.id,
      key: p.key,
      createdAt: p.created_at,
      type: p.type,
      fallbackValue: p.fallback_value,
    },
    error: null,
    headers: r.headers,
  };
}
export function contactProperties_update({ payload }) {
  if (!payload.id) return missing();
  return call({
    method: 'PATCH',
    path: ['contact-properties', payload.id],
    body: { fallback_value: payload.fallbackValue },
  });
}
export function contactProperties_remove({ id }) {
  if (!id) return missing();
  return drop(['contact-properties', id]);
}

// ---- domains ----------------------------------------------------------------
export function domainBody({ domain }) {
  return {
    name: domain.name,
    region: domain.region,
    custom_return_path: domain.customReturnPath,
    capabilities: domain.capabilities,
    open_tracking: domain.openTracking,
    click_tracking: domain.clickTracking,
    tls: domain.tls,
    tracking_subdomain: domain.trackingSubdomain,
  };
}
export function domains_create({ payload, options }) {
  return call({
    method: 'POST',
    path: ['domains'],
    body: domainBody({ domain: payload }),
    options: options,
  });
}
export function domains_list({ options }) {
  return list(['domains'], options);
}
export function domains_get({ id }) {
  return read(['domains', id]);
}
export function domains_update({ payload }) {
  return call({
    method: 'PATCH',
    path: ['domains', payload.id],
    body: {
      click_tracking: payload.clickTracking,
      open_tracking: payload.openTracking,
      tls: payload.tls,
      capabilities: payload.capabilities,
      tracking_subdomain: payload.trackingSubdomain,
    },
  });
}
export function domains_remove({ id }) {
  return drop(['domains', id]);
}
export function domains_verify({ id }) {
  return call({ method: 'POST', path: ['domains', id, 'verify'] });
}
export function domains_claims_create({ payload, options }) {
  return call({
    method: 'POST',
    path: ['domains', 'claim'],
    body: {
      name: payload.name,
      region: payload.region,
      custom_return_path: payload.customReturnPath,
      open_tracking: payload.openTracking,
      click_tracking: payload.clickTracking,
      tracking_subdomain: payload.trackingSubdomain,
    },
    options: options,
  });
}
export function domains_claims_get({ domainId }) {
  return read(['domains', domainId, 'claim']);
}
export function domains_claims_verify({ domainId }) {
  return call({ method: 'POST', path: ['domains', domainId, 'claim', 'verify'] });
}

// ---- api keys ---------------------------------------------------------------
export function apiKeys_create({ payload, options }) {
  return call({
    method: 'POST',
    path: ['api-keys'],
    body: { name: payload.name, permission: payload.permission, domain_id: payload.domain_id },
    options: options,
  });
}
export function apiKeys_list({ options }) {
  return list(['api-keys'], options);
}
export function apiKeys_update({ id, payload }) {
  return call({ method: 'PATCH', path: ['api-keys', id], body: { name: payload.name } });
}
export function apiKeys_remove({ id }) {
  return drop(['api-keys', id]);
}

// ---- segments ---------------------------------------------------------------
export function segments_create({ payload, options }) {
  return call({ method: 'POST', path: ['segments'], body: { name: payload.name }, options: options });
}
export function segments_list({ options }) {
  return list(['segments'], options);
}
export function segments_get({ id }) {
  return read(['segments', id]);
}
export function segments_remove({ id }) {
  return drop(['segments', id]);
}

// ---- topics -----------------------------------------------------------------
export function topics_create({ payload }) {
  return call({
    method: 'POST',
    path: ['topics'],
    body: { name: payload.name, description: payload.description, default_subscription: payload.defaultSubscription },
  });
}
export function topics_list({}) {
  return read(['topics']);
}
export function topics_get({ id }) {
  if (!id) return missing();
  return read(['topics', id]);
}
export function topics_update({ payload }) {
  if (!payload.id) return missing();
  return call({
    method: 'PATCH',
    path: ['topics', payload.id],
    body: { id: payload.id, name: payload.name, description: payload.description },
  });
}
export function topics_remove({ id }) {
  if (!id) return missing();
  return drop(['topics', id]);
}

// ---- webhooks ---------------------------------------------------------------
export function webhooks_create({ payload, options }) {
  return call({
    method: 'POST',
    path: ['webhooks'],
    body: { endpoint: payload.endpoint, events: payload.events },
    options: options,
  });
}
export function webhooks_get({ id }) {
  return read(['webhooks', id]);
}
export function webhooks_list({ options }) {
  return list(['webhooks'], options);
}
export function webhooks_update({ id, payload }) {
  return call({
    method: 'PATCH',
    path: ['webhooks', id],
    body: { endpoint: payload.endpoint, events: payload.events, status: payload.status },
  });
}
export function webhooks_remove({ id }) {
  return drop(['webhooks', id]);
}
export function webhooks_verify({ payload }) {
  return $verifySignature(
    payload.webhookSecret,
    payload.payload,
    payload.headers.id,
    payload.headers.timestamp,
    payload.headers.signature,
  );
}

// ---- suppressions -----------------------------------------------------------
export function suppressions_add({ options }) {
  return call({ method: 'POST', path: ['suppressions'], body: { email: options.email } });
}
export function suppressions_list({ options }) {
  return call({ method: 'GET', path: ['suppressions'], query: { ...page(options), origin: options?.origin } });
}
export function c_buildSuppressionsQuery({ options }) {
  return $query({ ...page(options), origin: options.origin });
}
export function c_missingIdentifierError({}) {
  return missing();
}
export function suppressions_get({ idOrEmail }) {
  if (!idOrEmail) return missing();
  return read(['suppressions', idOrEmail]);
}
export function suppressions_remove({ idOrEmail }) {
  if (!idOrEmail) return missing();
  return drop(['suppressions', idOrEmail]);
}
export function suppressions_batch_add({ options }) {
  return call({ method: 'POST', path: ['suppressions', 'batch', 'add'], body: { emails: options.emails } });
}
export function suppressions_batch_remove({ options }) {
  return call({
    method: 'POST',
    path: ['suppressions', 'batch', 'remove'],
    body: { emails: options.emails, ids: options.ids },
  });
}

// ---- events -----------------------------------------------------------------
export function events_send({ payload }) {
  return call({ method: 'POST', path: ['events', 'send'], body: eventBody({ event: payload }) });
}
export function eventBody({ event }) {
  return { event: event.event, contact_id: event.contactId, email: event.email, payload: event.payload };
}
export function events_create({ payload }) {
  return call({ method: 'POST', path: ['events'], body: { name: payload.name, schema: payload.schema } });
}
export function events_get({ identifier }) {
  return read(['events', identifier]);
}
export function events_list({ options }) {
  return list(['events'], options);
}
export function events_update({ identifier, payload }) {
  return call({ method: 'PATCH', path: ['events', identifier], body: { schema: payload.schema } });
}
export function events_remove({ identifier }) {
  return drop(['events', identifier]);
}

// ---- automations ------------------------------------------------------------
export function stepBody({ step }) {
  return { key: step.key, type: step.type, config: stepConfig(step) };
}
function stepConfig(step) {
  const c = step.config;
  if (step.type === 'trigger') return { event_name: c.eventName };
  if (step.type === 'send_email') {
    return { template: c.template, subject: c.subject, from: c.from, reply_to: c.replyTo };
  }
  if (step.type === 'wait_for_event') {
    return { event_name: c.eventName, timeout: c.timeout, filter_rule: c.filterRule };
  }
  if (step.type === 'contact_update') {
    return {
      first_name: c.firstName,
      last_name: c.lastName,
      unsubscribed: c.unsubscribed,
      properties: c.properties,
    };
  }
  if (step.type === 'add_to_segment') return { segment_id: c.segmentId };
  return c; // delay, condition, contact_delete: documented with the names the caller uses
}
export function connectionBody({ connection }) {
  return { from: connection.from, to: connection.to, type: connection.type };
}
export function automationBody({ automation }) {
  return {
    name: automation.name,
    status: automation.status,
    steps: automation.steps ? automation.steps.map((s) => stepBody({ step: s })) : undefined,
    connections: automation.connections
      ? automation.connections.map((c) => connectionBody({ connection: c }))
      : undefined,
  };
}
export function automations_create({ payload }) {
  return call({ method: 'POST', path: ['automations'], body: automationBody({ automation: payload }) });
}
export function automations_list({ options }) {
  return call({ method: 'GET', path: ['automations'], query: { ...page(options), status: options?.status } });
}
export function automations_get({ id }) {
  return read(['automations', id]);
}
export function automations_remove({ id }) {
  return drop(['automations', id]);
}
export function automations_update({ id, payload }) {
  return call({ method: 'PATCH', path: ['automations', id], body: automationBody({ automation: payload }) });
}
export function automations_duplicate({ id }) {
  return call({ method: 'POST', path: ['automations', id, 'duplicate'] });
}
export function automations_stop({ id }) {
  return call({ method: 'POST', path: ['automations', id, 'stop'] });
}
export function automations_runs_get({ options }) {
  return read(['automations', options.automationId, 'runs', options.runId]);
}
export function automations_runs_list({ options }) {
  const status = options.status;
  return call({
    method: 'GET',
    path: ['automations', options.automationId, 'runs'],
    query: { ...page(options), status: Array.isArray(status) ? status.join(',') : status },
  });
}

// ---- logs, oauth grants -----------------------------------------------------
export function logs_list({ options }) {
  return list(['logs'], options);
}
export function logs_get({ id }) {
  return read(['logs', id]);
}
export function oauthGrants_list({ options }) {
  return list(['oauth', 'grants'], options);
}
export function oauthGrants_revoke({ id }) {
  return drop(['oauth', 'grants', id]);
}

// ---- construction of a client -----------------------------------------------
function fromEnv(name) {
  return $hasEnv() ? $env(name) : undefined;
}
export function new_({ key, options }) {
  const theKey = key || fromEnv('RESEND_API_KEY');
  if (!theKey) $throw();
  const baseUrl = options?.baseUrl ?? (fromEnv('RESEND_BASE_URL') || 'https://api.resend.com');
  const userAgent = options?.userAgent ?? (fromEnv('RESEND_USER_AGENT') || `resend-node:${$packageVersion()}`);
  $changeEnvironment();
  const probe = call({
    method: 'GET',
    path: ['probe'],
    client: { key: theKey, baseUrl: baseUrl, userAgent: userAgent },
  });
  return { key: theKey, baseUrl: baseUrl, userAgent: userAgent, probe: probe };
}

// ---- drivers: how an operation is exercised when it is not a single call ----
export async function drive_create_publish({ client, payload }) {
  return client.templates.create(payload).publish();
}
export async function drive_duplicate_publish({ client, identifier }) {
  return client.templates.duplicate(identifier).publish();
}
export async function drive_create_both({ client, payload }) {
  const chain = client.templates.create(payload);
  const first = await chain;
  const second = await chain.publish();
  return { first: first, second: second };
}
export async function drive_duplicate_both({ client, identifier }) {
  const chain = client.templates.duplicate(identifier);
  const first = await chain;
  const second = await chain.publish();
  return { first: first, second: second };
}
export async function drive_create_then({ client, payload }) {
  return client.templates.create(payload).then(
    (first) => ({ first: first }),
    () => ({ rejected: true }),
  );
}
// the configuration is observed after the environment and the options object
// have changed and after another client has been made
export async function drive_new({ key, options }) {
  const client = $new(key, options);
  $changeEnvironment();
  $scramble(options);
  $new('re_another_client', { baseUrl: 'https://another.invalid', userAgent: 'another' });
  const probe = await client.get('/probe');
  return { key: client.key, baseUrl: client.baseUrl, userAgent: client.userAgent, probe: probe };
}
