From a6494ed7f9c3d21b57fa1ec837461597ccfc6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 01/10] fix: report an error when a failed response carries a
 non-object JSON body

A non-2xx response whose body is the JSON text `null` resolved to
{ data: null, error: null }, i.e. neither success nor failure.
---
 src/resend.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resend.ts b/src/resend.ts
index fe4f5e0..0985740 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,6 +120,10 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
+          if (typeof parsedError !== 'object' || parsedError === null) {
+            throw new SyntaxError('Error response body is not a JSON object');
+          }
+
           this.logError(parsedError, path, response.status);
 
           return {
-- 
2.43.0


From 2d9105a9a7a19f25e092588571a437c5a9b1e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 02/10] fix: keep caller headers of batch sends whatever
 HeadersInit form they use

Spreading a Headers instance or an array of pairs dropped every header, and
a differently cased x-batch-validation was merged into `strict, permissive`.
---
 src/batch/batch.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 777f328..91492fb 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -34,15 +34,18 @@ export class Batch {
       emails.push(parseEmailToApiOptions(email));
     }
 
+    const headers = new Headers(options?.headers);
+
+    if (!headers.has('x-batch-validation')) {
+      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+    }
+
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
       {
         ...options,
-        headers: {
-          'x-batch-validation': options?.batchValidation ?? 'strict',
-          ...options?.headers,
-        },
+        headers,
       },
     );
 
-- 
2.43.0


From 926593e42ce3c0941cf4237dd6b41f4198e0f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 03/10] fix: do not mutate the caller's emails when a batch
 renders React content

---
 src/batch/batch.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 91492fb..23d3e35 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -27,11 +27,12 @@ export class Batch {
 
     for (const email of payload) {
       if (email.react) {
-        email.html = await render(email.react);
-        email.react = undefined;
-      }
+        const html = await render(email.react);
 
-      emails.push(parseEmailToApiOptions(email));
+        emails.push(parseEmailToApiOptions({ ...email, html }));
+      } else {
+        emails.push(parseEmailToApiOptions(email));
+      }
     }
 
     const headers = new Headers(options?.headers);
-- 
2.43.0


From 89d413bde35d81b648992fea8d3c03846ef2fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 04/10] fix: report a failed raw email download as an error
 instead of rejecting

---
 src/emails/receiving/receiving.ts | 66 ++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 684e1e4..186ff0e 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -1,5 +1,6 @@
 import PostalMime from 'postal-mime';
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import type { ErrorResponse } from '../../interfaces';
 import type { Resend } from '../../resend';
 import { Attachments } from './attachments/attachments';
 import type {
@@ -106,6 +107,35 @@ export class Receiving {
     );
   }
 
+  private async downloadRaw(
+    url: string,
+  ): Promise<
+    { content: string; error: null } | { content: null; error: ErrorResponse }
+  > {
+    let statusCode: number | null = null;
+
+    try {
+      const rawResponse = await fetch(url);
+
+      if (rawResponse.ok) {
+        return { content: await rawResponse.text(), error: null };
+      }
+
+      statusCode = rawResponse.status;
+    } catch {
+      // The download could not be completed: reported below, like any failure.
+    }
+
+    return {
+      content: null,
+      error: {
+        name: 'application_error',
+        message: 'Failed to download raw email content',
+        statusCode,
+      },
+    };
+  }
+
   private async forwardPassthrough(
     email: GetReceivingEmailResponseSuccess,
     options: { to: string | string[]; from: string; subject: string },
@@ -125,23 +155,13 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const raw = await this.downloadRaw(email.raw.download_url);
 
-    if (!rawResponse.ok) {
-      return {
-        data: null,
-        error: {
-          name: 'application_error',
-          message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
-        },
-        headers: null,
-      };
+    if (raw.error) {
+      return { data: null, error: raw.error, headers: null };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
-    const parsed = await PostalMime.parse(rawEmailContent, {
+    const parsed = await PostalMime.parse(raw.content, {
       attachmentEncoding: 'base64',
     });
 
@@ -199,22 +219,12 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    const raw = await this.downloadRaw(email.raw.download_url);
 
-    if (!rawResponse.ok) {
-      return {
-        data: null,
-        error: {
-          name: 'application_error',
-          message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
-        },
-        headers: null,
-      };
+    if (raw.error) {
+      return { data: null, error: raw.error, headers: null };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
       {
@@ -226,7 +236,7 @@ export class Receiving {
         attachments: [
           {
             filename: 'forwarded_message.eml',
-            content: Buffer.from(rawEmailContent).toString('base64'),
+            content: Buffer.from(raw.content).toString('base64'),
             content_type: 'message/rfc822',
           },
         ],
-- 
2.43.0


From b1002d75e4bf0031cfdea03b752ddb191560cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 05/10] fix: forward the raw email bytes instead of a lossy
 UTF-8 decoding of them

---
 src/emails/receiving/receiving.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 186ff0e..20e6040 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -110,7 +110,8 @@ export class Receiving {
   private async downloadRaw(
     url: string,
   ): Promise<
-    { content: string; error: null } | { content: null; error: ErrorResponse }
+    | { content: ArrayBuffer; error: null }
+    | { content: null; error: ErrorResponse }
   > {
     let statusCode: number | null = null;
 
@@ -118,7 +119,7 @@ export class Receiving {
       const rawResponse = await fetch(url);
 
       if (rawResponse.ok) {
-        return { content: await rawResponse.text(), error: null };
+        return { content: await rawResponse.arrayBuffer(), error: null };
       }
 
       statusCode = rawResponse.status;
-- 
2.43.0


From 23beffe75c1101895e6fe44216f9aff45f7bba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 06/10] fix: encode contact identifiers used as URL path
 segments

---
 src/common/utils/encode-contact-identifier.ts |  9 ++++++++
 src/contacts/contacts.ts                      | 21 ++++++++++---------
 src/contacts/segments/contact-segments.ts     | 10 ++++++---
 src/contacts/topics/contact-topics.ts         |  8 +++++--
 4 files changed, 33 insertions(+), 15 deletions(-)
 create mode 100644 src/common/utils/encode-contact-identifier.ts

diff --git a/src/common/utils/encode-contact-identifier.ts b/src/common/utils/encode-contact-identifier.ts
new file mode 100644
index 0000000..a981ee9
--- /dev/null
+++ b/src/common/utils/encode-contact-identifier.ts
@@ -0,0 +1,9 @@
+/**
+ * Encodes a contact ID or email for use as a single URL path segment, keeping
+ * `@` readable as it is allowed there. Callers check for a missing identifier.
+ */
+export function encodeContactIdentifier(
+  identifier: string | null | undefined,
+): string {
+  return encodeURIComponent(`${identifier}`).replace(/%40/g, '@');
+}
diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 8882444..f3312e7 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodeContactIdentifier } from '../common/utils/encode-contact-identifier';
 import type { Resend } from '../resend';
 import { ContactImports } from './imports/contact-imports';
 import type {
@@ -116,7 +117,9 @@ export class Contacts {
 
   async get(options: GetContactOptions): Promise<GetContactResponse> {
     if (typeof options === 'string') {
-      return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);
+      return this.resend.get<GetContactResponseSuccess>(
+        `/contacts/${encodeContactIdentifier(options)}`,
+      );
     }
 
     if (!options.id && !options.email) {
@@ -133,12 +136,12 @@ export class Contacts {
 
     if (!options.audienceId) {
       return this.resend.get<GetContactResponseSuccess>(
-        `/contacts/${options?.email ? options?.email : options?.id}`,
+        `/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
       );
     }
 
     return this.resend.get<GetContactResponseSuccess>(
-      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,
+      `/audiences/${options.audienceId}/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
     );
   }
 
@@ -157,7 +160,7 @@ export class Contacts {
 
     if (!options.audienceId) {
       const data = await this.resend.patch<UpdateContactResponseSuccess>(
-        `/contacts/${options?.email ? options?.email : options?.id}`,
+        `/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
         {
           unsubscribed: options.unsubscribed,
           first_name: options.firstName,
@@ -169,7 +172,7 @@ export class Contacts {
     }
 
     const data = await this.resend.patch<UpdateContactResponseSuccess>(
-      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,
+      `/audiences/${options.audienceId}/contacts/${encodeContactIdentifier(options?.email ? options?.email : options?.id)}`,
       {
         unsubscribed: options.unsubscribed,
         first_name: options.firstName,
@@ -183,7 +186,7 @@ export class Contacts {
   async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {
     if (typeof payload === 'string') {
       return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload}`,
+        `/contacts/${encodeContactIdentifier(payload)}`,
       );
     }
 
@@ -201,14 +204,12 @@ export class Contacts {
 
     if (!payload.audienceId) {
       return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload?.email ? payload?.email : payload?.id}`,
+        `/contacts/${encodeContactIdentifier(payload?.email ? payload?.email : payload?.id)}`,
       );
     }
 
     return this.resend.delete<RemoveContactsResponseSuccess>(
-      `/audiences/${payload.audienceId}/contacts/${
-        payload?.email ? payload?.email : payload?.id
-      }`,
+      `/audiences/${payload.audienceId}/contacts/${encodeContactIdentifier(payload?.email ? payload?.email : payload?.id)}`,
     );
   }
 }
diff --git a/src/contacts/segments/contact-segments.ts b/src/contacts/segments/contact-segments.ts
index 338e4da..55fecd6 100644
--- a/src/contacts/segments/contact-segments.ts
+++ b/src/contacts/segments/contact-segments.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodeContactIdentifier } from '../../common/utils/encode-contact-identifier';
 import type { Resend } from '../../resend';
 import type {
   AddContactSegmentOptions,
@@ -35,7 +36,10 @@ export class ContactSegments {
     }
 
     const identifier = options.email ? options.email : options.contactId;
-    const url = buildPaginationUrl(`/contacts/${identifier}/segments`, options);
+    const url = buildPaginationUrl(
+      `/contacts/${encodeContactIdentifier(identifier)}/segments`,
+      options,
+    );
 
     const data = await this.resend.get<ListContactSegmentsResponseSuccess>(url);
     return data;
@@ -58,7 +62,7 @@ export class ContactSegments {
 
     const identifier = options.email ? options.email : options.contactId;
     return this.resend.post<AddContactSegmentResponseSuccess>(
-      `/contacts/${identifier}/segments/${options.segmentId}`,
+      `/contacts/${encodeContactIdentifier(identifier)}/segments/${options.segmentId}`,
     );
   }
 
@@ -79,7 +83,7 @@ export class ContactSegments {
 
     const identifier = options.email ? options.email : options.contactId;
     return this.resend.delete<RemoveContactSegmentResponseSuccess>(
-      `/contacts/${identifier}/segments/${options.segmentId}`,
+      `/contacts/${encodeContactIdentifier(identifier)}/segments/${options.segmentId}`,
     );
   }
 }
diff --git a/src/contacts/topics/contact-topics.ts b/src/contacts/topics/contact-topics.ts
index 8ff1919..bf5b11c 100644
--- a/src/contacts/topics/contact-topics.ts
+++ b/src/contacts/topics/contact-topics.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodeContactIdentifier } from '../../common/utils/encode-contact-identifier';
 import type { Resend } from '../../resend';
 import type {
   ListContactTopicsOptions,
@@ -31,7 +32,7 @@ export class ContactTopics {
 
     const identifier = payload.email ? payload.email : payload.id;
     return this.resend.patch<UpdateContactTopicsResponseSuccess>(
-      `/contacts/${identifier}/topics`,
+      `/contacts/${encodeContactIdentifier(identifier)}/topics`,
       payload.topics,
     );
   }
@@ -52,7 +53,10 @@ export class ContactTopics {
     }
 
     const identifier = options.email ? options.email : options.id;
-    const url = buildPaginationUrl(`/contacts/${identifier}/topics`, options);
+    const url = buildPaginationUrl(
+      `/contacts/${encodeContactIdentifier(identifier)}/topics`,
+      options,
+    );
 
     return this.resend.get<ListContactTopicsResponseSuccess>(url);
   }
-- 
2.43.0


From e36a5e9e6d0cdf85702d0559e0ec5f45a6c1643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 07/10] fix: treat an undefined audience id, segments or topics
 as not supplied when creating a contact

---
 src/contacts/contacts.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index f3312e7..d90a7c2 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -57,8 +57,11 @@ export class Contacts {
     options: CreateContactRequestOptions = {},
   ): Promise<CreateContactResponse> {
     // Legacy create contact endpoint
-    if ('audienceId' in payload) {
-      if ('segments' in payload || 'topics' in payload) {
+    if ('audienceId' in payload && payload.audienceId !== undefined) {
+      if (
+        ('segments' in payload && payload.segments !== undefined) ||
+        ('topics' in payload && payload.topics !== undefined)
+      ) {
         return {
           data: null,
           headers: null,
@@ -94,8 +97,8 @@ export class Contacts {
         first_name: payload.firstName,
         last_name: payload.lastName,
         properties: payload.properties,
-        segments: payload.segments,
-        topics: payload.topics,
+        segments: 'segments' in payload ? payload.segments : undefined,
+        topics: 'topics' in payload ? payload.topics : undefined,
       },
       options,
     );
-- 
2.43.0


From 66e907f279de70764dfce2096cfc6d99c95c0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 08/10] fix: send every supplied pagination option when listing
 templates

---
 src/common/utils/get-pagination-query-properties.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/utils/get-pagination-query-properties.ts b/src/common/utils/get-pagination-query-properties.ts
index 37557dd..ae2112a 100644
--- a/src/common/utils/get-pagination-query-properties.ts
+++ b/src/common/utils/get-pagination-query-properties.ts
@@ -5,9 +5,11 @@ export function getPaginationQueryProperties(
 ): string {
   const query = new URLSearchParams();
 
-  if (options.before) query.set('before', options.before);
-  if (options.after) query.set('after', options.after);
-  if (options.limit) query.set('limit', options.limit.toString());
+  if (options.before != null) query.set('before', options.before);
+  if (options.after != null) query.set('after', options.after);
+  if (options.limit != null) {
+    query.set('limit', options.limit.toString());
+  }
 
   return query.size > 0 ? `?${query.toString()}` : '';
 }
-- 
2.43.0


From 5c4a7716c433574d1b8971f947cab33d1fad6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 09/10] fix: report raw email content that cannot be parsed as
 an error instead of rejecting

---
 src/emails/receiving/receiving.ts | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 20e6040..aac3d08 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -1,4 +1,4 @@
-import PostalMime from 'postal-mime';
+import PostalMime, { type Email } from 'postal-mime';
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
 import type { ErrorResponse } from '../../interfaces';
 import type { Resend } from '../../resend';
@@ -162,9 +162,23 @@ export class Receiving {
       return { data: null, error: raw.error, headers: null };
     }
 
-    const parsed = await PostalMime.parse(raw.content, {
-      attachmentEncoding: 'base64',
-    });
+    let parsed: Email;
+
+    try {
+      parsed = await PostalMime.parse(raw.content, {
+        attachmentEncoding: 'base64',
+      });
+    } catch {
+      return {
+        data: null,
+        error: {
+          name: 'application_error',
+          message: 'Failed to parse raw email content',
+          statusCode: null,
+        },
+        headers: null,
+      };
+    }
 
     const attachments = parsed.attachments.map((attachment) => {
       const contentId = attachment.contentId
-- 
2.43.0


From 2a968bbe9a5e74faa1a536841f86b4d12f3c726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 10/10] fix: keep the response headers when a chained template
 publish is not attempted

---
 src/templates/chainable-template-result.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/chainable-template-result.ts b/src/templates/chainable-template-result.ts
index 343e003..51213e1 100644
--- a/src/templates/chainable-template-result.ts
+++ b/src/templates/chainable-template-result.ts
@@ -25,12 +25,12 @@ export class ChainableTemplateResult<
   }
 
   async publish(): Promise<PublishTemplateResponse> {
-    const { data, error } = await this.promise;
+    const { data, error, headers } = await this.promise;
 
     if (error) {
       return {
         data: null,
-        headers: null,
+        headers,
         error,
       };
     }
-- 
2.43.0

