#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["arguments of global fetch", "resolved value of the public method"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
R = "src/resend.ts"

p("C01", "Every API call settles to one faithful result envelope",
  "For every outcome of the network and the server (rejected fetch, unreadable body, non-JSON or non-object error body, any HTTP status), every API method resolves rather than rejects, with exactly one of `data` and `error` set and `error` always carrying something an `if (error)` test sees. A 2xx JSON response is returned unchanged as `data`, a JSON object error response is returned unchanged as `error`, any other failure gives an `application_error` carrying the HTTP status (null when no usable response arrived), and `headers` are the response's headers (null when no usable response arrived). A failed or missing response is never reported as success.",
  ["inputs", "fault_sequences"], "all methods, all argument values, all fetch outcomes: rejection, any status, any body text, body read failures, any response headers (a 2xx JSON body is an object or array, as the API documents)",
  "The tests mock a handful of canned responses (one 200, one JSON error per method, one network failure); they never combine every method with unreadable, non-JSON or null error bodies.",
  [R], [("fetchRequest: two-level try/catch building the {data,error,headers} envelope", "src/resend.ts fetchRequest"), ("methods return the envelope of their request unchanged", "src/*/*.ts")])
p("C02", "Every API request carries this client's credentials and identity",
  "Every request the client sends to the API goes to that client's base URL and carries `Authorization: Bearer <its key>` and its `User-Agent`, and `Content-Type: application/json` unless the body is multipart form data, in which case no content type is forced. This holds for every method, whatever its arguments, unless the caller explicitly overrides one of these headers for that call. No header is added that neither the client nor the caller asked for.",
  ["inputs", "configurations"], "all methods, arguments, keys, base URLs and user agents",
  "Tests assert headers for a few post calls with one key; a method that bypasses the shared header set passes them.",
  [R], [("headers built once in the constructor and copied for each request", "src/resend.ts constructor, post/get/put/patch/delete"), ("Content-Type deleted for FormData", "src/resend.ts post")])
p("C03", "Per-call headers and idempotency keys reach exactly their request",
  "Where a method accepts per-call request options, every header the caller supplies, as a plain object, an array of pairs or a Headers instance and in any letter case, is sent on that request and overrides the client's default of the same name, and a supplied idempotency key is sent unchanged as `Idempotency-Key`. Headers not supplied keep their defaults. Nothing supplied for one call appears on any other call.",
  ["inputs", "histories"], "all methods with request options, all header sets and forms, all idempotency keys, all preceding and concurrent calls on the client",
  "Tests pass a single plain-object header to a few methods, never Headers instances or pair arrays, case variants, or a second call checking nothing leaked.",
  [R, "src/batch/batch.ts", "src/emails/emails.ts"], [("copy of client headers then per-call overrides then Idempotency-Key", "src/resend.ts post/get/put/patch/delete"), ("options forwarded by each method that takes them", "src/*/*.ts")])
p("C04", "Each API method sends exactly one request and never retries",
  "Every API method sends exactly one request when its arguments are valid, whatever the server answers or the network does, so that an email, broadcast or other side effect is never duplicated or silently dropped. A method that reports a client-side argument error, or whose React rendering fails, sends none.",
  ["inputs", "fault_sequences", "histories"], "all methods, arguments and fetch outcomes, any call history",
  "Tests mock one response and rarely count calls; a retry on a 5xx or a network failure, or a second request on some argument combination, is invisible to them.",
  [R], [("single fetch in fetchRequest, one call of it per method", "src/resend.ts, src/*/*.ts")], observe=["number of calls of global fetch"])
p("C05", "Each method uses its documented HTTP verb and resource path",
  "For all arguments, each API method requests exactly the documented HTTP verb and resource path of its operation, with every identifier argument in its own position in the path. No method ever addresses a different resource than the one its arguments name.",
  ["inputs"], "all methods and all identifier values (ids are opaque tokens of URL-safe characters; free-form identifiers are covered by C13)",
  "Tests check the URL of one call with one id for some methods; swapped or dropped ids on branches (legacy audience routes, optional arguments) are not sampled.",
  ["src/contacts/contacts.ts", "src/emails/emails.ts", "src/domains/domains.ts", "src/broadcasts/broadcasts.ts", "src/automations/automations.ts", "src/templates/templates.ts"], [("template literal paths in each method", "src/*/*.ts")], observe=["url and method given to global fetch"])
p("C06", "A single email is sent exactly as the caller specified it",
  "Sending an email transmits every documented field the caller supplied, unchanged and under its documented API name (recipients, subject, bodies, reply-to, schedule, tags, custom headers, topic, template id and variables, and each attachment in order with its content, file name, path, content type and content id). Fields the caller did not supply are not sent, and nothing else is added.",
  ["inputs"], "all combinations and values of the documented email fields, any number of attachments",
  "Tests send a few fixed emails; a field dropped, renamed or altered only for some combination of fields or attachment position is not sampled.",
  ["src/emails/emails.ts", "src/common/utils/parse-email-to-api-options.ts"], [("parseEmailToApiOptions camelCase to snake_case mapping", "src/common/utils/parse-email-to-api-options.ts")], observe=["JSON body given to global fetch"])
p("C07", "A batch is sent complete, in order, with its validation mode",
  "A batch send transmits one entry per email, in the caller's order, each entry being what that email alone would transmit, in a single request. The `x-batch-validation` header is the requested mode, `strict` when none is requested, alongside every other per-call header and the idempotency key.",
  ["inputs", "schedules"], "batches of any length with any mix of email kinds, any request options, any completion order of rendering",
  "Tests use batches of two or three similar emails; order, completeness and mixing of rendered and plain emails are not quantified.",
  ["src/batch/batch.ts", "src/common/utils/parse-email-to-api-options.ts"], [("loop over the payload pushing parsed emails", "src/batch/batch.ts create"), ("x-batch-validation default", "src/batch/batch.ts create")])
p("C08", "React content is rendered and replaces html; nothing is sent if it fails",
  "When an email, batch entry, broadcast or template carries a React node, the HTML transmitted for it is exactly the rendering of that node, replacing any `html` supplied alongside; without a React node the supplied `html` is sent untouched, and the React node itself is never transmitted. If rendering fails, the call rejects with the renderer's error (or a clear missing-renderer error) and no request is sent.",
  ["inputs", "fault_sequences"], "all payloads with or without react and html, all rendering outcomes, any position within a batch",
  "Tests render one fixed node with one mock result; rendering failures at a given position of a batch and react/html precedence on every method are not covered.",
  ["src/render.ts", "src/emails/emails.ts", "src/batch/batch.ts", "src/broadcasts/broadcasts.ts", "src/templates/templates.ts"], [("await render(...) before building the request", "src/emails/emails.ts create and siblings"), ("dynamic import of the renderer", "src/render.ts")])
p("C09", "Pagination and filter options reach the query string losslessly",
  "For every listing and query method, decoding the request's query string gives back exactly the options the caller supplied, each once, under its documented parameter name and with its exact value whatever characters it contains. Options not supplied do not appear, and with none supplied there is no query string.",
  ["inputs"], "all listing, metrics, recipients and receiving methods; all option combinations and values, including reserved characters",
  "Tests use alphanumeric cursors and a few combinations; values that need escaping, 0-like values and full combinations of filters are not sampled.",
  ["src/common/utils/build-pagination-query.ts", "src/common/utils/get-pagination-query-properties.ts", "src/emails/emails.ts", "src/broadcasts/broadcasts.ts", "src/suppressions/suppressions.ts", "src/automations/automations.ts", "src/automation-runs/automation-runs.ts"],
  [("URLSearchParams construction", "src/common/utils/build-pagination-query.ts"), ("buildMetricsQuery, buildRecipientsQuery, buildSuppressionsQuery", "src/emails/emails.ts, src/broadcasts/broadcasts.ts, src/suppressions/suppressions.ts")], observe=["url given to global fetch"])
p("C10", "Other resource writes transmit exactly the documented payload",
  "Creating or changing any other resource (broadcasts, templates, contacts, contact topics and segments, domains and domain claims, topics, webhooks, API keys, segments, contact properties, suppressions, events, and the schedule or share options of emails) transmits every field the caller supplied, unchanged and under its documented API name. Fields not supplied are not sent and nothing else is added.",
  ["inputs"], "all write methods of those resources, all combinations and values of their documented fields",
  "Tests mostly check the returned mock response, not the transmitted body, and only for one or two payloads.",
  ["src/broadcasts/broadcasts.ts", "src/templates/templates.ts", "src/contacts/contacts.ts", "src/domains/domains.ts", "src/topics/topics.ts", "src/webhooks/webhooks.ts", "src/api-keys/api-keys.ts", "src/segments/segments.ts", "src/contact-properties/contact-properties.ts", "src/suppressions/suppressions.ts", "src/events/events.ts"],
  [("per-resource camelCase to snake_case mapping", "src/common/utils/parse-*.ts and inline object literals")], observe=["JSON body given to global fetch"])
p("C11", "Partial updates change only what the caller supplied",
  "An update request contains a field if and only if the caller supplied a value for it, so fields left out keep their server-side value. Supplied values that are falsy but meaningful (`false`, `null` to clear, `0`, the empty string, an empty list) are transmitted as they are.",
  ["inputs"], "all update methods; all subsets of their fields and all values including false, null, 0, '' and []",
  "Tests update one or two truthy fields; false, null, 0 and empty values and arbitrary subsets are not sampled.",
  ["src/contacts/contacts.ts", "src/domains/domains.ts", "src/broadcasts/broadcasts.ts", "src/templates/templates.ts", "src/automations/automations.ts", "src/topics/topics.ts", "src/webhooks/webhooks.ts", "src/api-keys/api-keys.ts", "src/contact-properties/contact-properties.ts", "src/emails/emails.ts", "src/events/events.ts"],
  [("undefined-valued fields dropped by JSON encoding; `!== undefined` guards", "update methods of src/*/*.ts")], observe=["JSON body given to global fetch"])
p("C12", "Calls never modify their arguments and never affect each other",
  "No API call modifies any object the caller passed in, at any depth. What a call sends and returns depends only on its own arguments, the client's configuration and the responses to its own requests, so earlier calls, failed calls and calls running concurrently on the same or another client never change it.",
  ["inputs", "histories", "schedules"], "all methods, all arguments, all histories of earlier calls and all interleavings of concurrent calls at their suspension points",
  "Tests create a fresh client and run one call each; none runs calls concurrently or compares a call before and after others, and only template creation is checked for mutation.",
  [R, "src/batch/batch.ts", "src/emails/emails.ts", "src/templates/templates.ts"], [("request headers copied per call; payloads copied before rendering", "src/resend.ts, src/emails/emails.ts, src/batch/batch.ts")],
  state=[("client headers", "default headers shared by all calls of a client", "src/resend.ts Resend.headers")])
p("C13", "Free-form identifiers are one encoded path segment, whatever they contain",
  "When an event name, a suppression's email or id, or a contact's email or id is used to address a resource, the request path contains it percent-encoded as a single segment that decodes to exactly the value supplied. Characters such as `/`, `?`, `#`, `%`, `+` and spaces therefore never make the request address another resource or alter its query.",
  ["inputs"], "all non-empty well-formed identifier strings other than the path dot segments",
  "Tests use plain identifiers and ordinary addresses; reserved characters are sampled at most once.",
  ["src/events/events.ts", "src/suppressions/suppressions.ts", "src/contacts/contacts.ts", "src/contacts/topics/contact-topics.ts", "src/contacts/segments/contact-segments.ts", "src/common/utils/encode-contact-identifier.ts"],
  [("encodeURIComponent on the identifier", "src/events/events.ts, src/suppressions/suppressions.ts, src/common/utils/encode-contact-identifier.ts")], observe=["url given to global fetch"])
p("C14", "Missing required arguments give a local error and no request",
  "A method documented to require an identifier reports a missing one (absent, null or empty) as a `missing_required_field` error with null `data`, null status and null `headers`, and mixing the deprecated audience id with segments or topics as an `invalid_parameter` error, in both cases without sending any request. These errors are reported only in those cases.",
  ["inputs"], "all methods with client-side validation; all combinations of absent, undefined, null, empty and present identifiers",
  "Tests check one missing-identifier call per method, not the full table of absent, null and empty combinations, nor that no request leaves.",
  ["src/contacts/contacts.ts", "src/contacts/topics/contact-topics.ts", "src/contacts/segments/contact-segments.ts", "src/topics/topics.ts", "src/contact-properties/contact-properties.ts", "src/suppressions/suppressions.ts"],
  [("guard returning the error envelope before any request", "those methods")])
p("C15", "Contact addressing follows one precedence rule everywhere",
  "Every contact operation that accepts an id and an email addresses the contact by the email when one is given and by the id otherwise, and a bare string argument addresses the contact it names. A legacy audience id routes creating, reading, updating and removing a contact through that audience, and listing contacts is scoped to the given segment, or else to the given audience, or else to all contacts.",
  ["inputs"], "all contact, contact-topic and contact-segment operations; all combinations of id, email, audience id and segment id",
  "Tests exercise a few combinations; the full table (both given, empty values, null) is not sampled.",
  ["src/contacts/contacts.ts", "src/contacts/topics/contact-topics.ts", "src/contacts/segments/contact-segments.ts"],
  [("email ? email : id selection; audienceId branches; segmentId ?? audienceId", "src/contacts/contacts.ts and siblings")], observe=["url given to global fetch"])
p("C16", "Automations are translated step by step without loss",
  "Creating or updating an automation transmits every step and every connection, in order and once each, with each step's key and type unchanged and its configuration translated completely to the documented API names of its type. Updating omits the name, status, steps or connections the caller did not supply.",
  ["inputs"], "all step types and configurations, any number and order of steps and connections, all subsets of update fields",
  "Tests use one fixed automation per step type; mixed sequences and optional configuration fields are not quantified.",
  ["src/common/utils/parse-automation-to-api-options.ts", "src/automations/automations.ts"],
  [("parseStepConfig switch over step.type, parseConnection", "src/common/utils/parse-automation-to-api-options.ts")], observe=["JSON body given to global fetch"])
p("C17", "Contact imports upload the file and every supplied option as form data",
  "Creating a contact import sends multipart form data containing the caller's file itself, and exactly one part for each of the column map, conflict policy, segments and topics that was supplied, structured values as JSON under the documented names. Options not supplied produce no part.",
  ["inputs"], "all files and all subsets and values of the import options",
  "Tests check one or two option combinations.",
  ["src/contacts/imports/contact-imports.ts", R], [("buildCreateFormData, buildColumnMap, appendField", "src/contacts/imports/contact-imports.ts"), ("FormData passed through unencoded", "src/resend.ts post")], observe=["FormData body given to global fetch"])
p("C18", "Contact properties read back match what the API returned",
  "Getting or listing contact properties returns every property the API returned, in order, with each field's value unchanged under its documented camelCase name, together with the list metadata and response headers. API errors on these calls are returned unchanged.",
  ["inputs", "fault_sequences"], "all API responses: any number of properties, any field values including null fallback values, any error",
  "Tests map one or two fixed properties.",
  ["src/contact-properties/contact-properties.ts", "src/common/utils/parse-contact-properties-to-api-options.ts"], [("parseContactPropertyFromApi over response.data", "src/common/utils/parse-contact-properties-to-api-options.ts")])
p("C19", "Webhook verification accepts only what the signature covers",
  "Verifying a webhook returns the event if and only if the signature check of the Standard Webhooks library succeeds for exactly the given payload, id, timestamp, signature header and secret, and returns what that library returns. Every other case throws, nothing is verified against other data, and no request is sent.",
  ["inputs"], "all payloads, header values and secrets",
  "Tests verify one good and one bad signature.",
  ["src/webhooks/webhooks.ts"], [("delegation to the standardwebhooks Webhook with the three headers", "src/webhooks/webhooks.ts verify")], observe=["returned or thrown value", "arguments reaching the signature library"])
p("C20", "Chained template publishing publishes exactly the created template",
  "Chaining publish onto a template create or duplicate publishes exactly the template whose id that call returned, once and only after it succeeded, and returns the publish result. When the create or duplicate failed, nothing is published and its error is returned; without chaining, awaiting the call gives exactly its own result and publishes nothing.",
  ["inputs", "fault_sequences", "histories"], "all create and duplicate arguments, all outcomes of both requests, chained or plainly awaited",
  "Tests run one success and one failure chain with canned ids.",
  ["src/templates/chainable-template-result.ts", "src/templates/templates.ts"], [("ChainableTemplateResult.then/publish", "src/templates/chainable-template-result.ts")])
p("C21", "Forwarding a received email is faithful and fails safely",
  "Forwarding sends exactly one email, with the caller's sender and recipients and the documented subject, carrying the original's parsed text, HTML and every attachment (or, when wrapping, the byte-exact original message as one attachment with the caller's text and HTML). If the received email cannot be fetched, has no raw content, or its raw content cannot be downloaded, an error is returned and nothing is sent. The raw download carries none of the client's credentials.",
  ["inputs", "fault_sequences"], "all received emails and raw contents, both forwarding modes, all failures of each of the three requests",
  "Tests forward a few fixed ASCII messages and check one failure; byte fidelity, download failures and combinations are not sampled.",
  ["src/emails/receiving/receiving.ts"], [("forward: get, download raw, parse or wrap, post", "src/emails/receiving/receiving.ts forward, forwardPassthrough, forwardWrapped")])
p("C22", "Client configuration is resolved once and kept per client",
  "A client uses the explicitly given key, base URL and user agent, else those of the environment when it is constructed, else the documented defaults, and throws when no key is available; it also works where no `process` global exists. Once constructed, its configuration never changes, whatever happens to the environment, the options object or other clients.",
  ["configurations", "histories"], "all combinations of explicit, environment and default settings including empty values and a missing process global; all later changes of environment and other clients",
  "Tests cover a few single settings, one at a time.",
  [R], [("constructor and getDefaultBaseUrl/getDefaultUserAgent", "src/resend.ts")])
p("C23", "Failures are logged once, outside production only, without secrets",
  "Each API request that fails logs exactly one console error containing the returned error, the path and the status, unless NODE_ENV is `production` or there is no process global, and a successful request logs nothing. Nothing logged ever contains the API key, request headers or request body, and logging never changes the result.",
  ["inputs", "fault_sequences", "configurations"], "all methods, all failures, all environments",
  "Tests check logging for a couple of failures of one method.",
  [R], [("logError called once per failing branch of fetchRequest", "src/resend.ts logError, fetchRequest")], observe=["arguments of console methods"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
