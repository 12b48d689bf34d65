// Raw messages for the forwarding contract: encodings, attachments, odd bytes.
const crlf = (s) => s.replace(/\n/g, '\r\n');
const b = (...parts) => Buffer.concat(parts.map((p) => (typeof p === 'string' ? Buffer.from(crlf(p)) : p)));
export const MAILS = [
  b('From: a@x.test\nTo: b@x.test\nSubject: plain\n\nhello\n'),
  b('From: a@x.test\nSubject: html\nContent-Type: text/html; charset=utf-8\n\n<p>h\u00e9llo</p>\n'),
  b('From: a@x.test\nSubject: latin\nContent-Type: text/plain; charset=iso-8859-1\nContent-Transfer-Encoding: 8bit\n\n', Buffer.from([0x63, 0x61, 0x66, 0xe9, 0x0d, 0x0a, 0xff, 0x80])),
  b('Subject: multi\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary="B"\n\n--B\nContent-Type: multipart/alternative; boundary="C"\n\n--C\nContent-Type: text/plain\n\ntext part\n--C\nContent-Type: text/html\n\n<b>html part</b>\n--C--\n--B\nContent-Type: application/pdf; name="a.pdf"\nContent-Disposition: attachment; filename="a.pdf"\nContent-Transfer-Encoding: base64\n\nAAECAwT/\n--B\nContent-Type: image/png\nContent-Disposition: inline; filename="p.png"\nContent-ID: <cid-1@x>\nContent-Transfer-Encoding: base64\n\niVBORw0KGgo=\n--B--\n'),
  b('Subject: many\nContent-Type: multipart/mixed; boundary="B"\n\n', ...Array.from({ length: 12 }, (_, i) => `--B\nContent-Type: application/octet-stream\nContent-Disposition: attachment; filename="f${i}.bin"\nContent-ID: ${['<a>', 'b', '<c', 'd>', '<<e>>', '<>'][i % 6]}\n\nbody ${i}\n`), '--B--\n'),
  b('Subject: unnamed\nContent-Type: multipart/mixed; boundary="B"\n\n--B\nContent-Type: application/json\n\n{"a":1}\n--B\nContent-Type: message/rfc822\n\nSubject: inner\n\ninner text\n--B--\n'),
  b('Subject: binary\nContent-Type: multipart/mixed; boundary="B"\n\n--B\nContent-Type: application/octet-stream\nContent-Disposition: attachment; filename="b.bin"\nContent-Transfer-Encoding: binary\n\n', Buffer.from([0, 255, 254, 128, 129, 195, 40, 10]), '\n--B--\n'),
  b('Subject: =?utf-8?B?w6k=?=\n\n'),
  Buffer.from('\ufeffSubject: bom\r\n\r\nbody'),
  Buffer.alloc(0),
  b('Subject: same names\nContent-Type: multipart/mixed; boundary="B"\n\n', ...['one', 'two', 'one'].map((t) => `--B\nContent-Type: text/plain; name="a.txt"\nContent-Disposition: attachment; filename="a.txt"\n\n${t}\n`), '--B--\n'),
  b('Subject: related\nContent-Type: multipart/related; boundary="B"\n\n--B\nContent-Type: text/html\n\n<img src="cid:i1">\n--B\nContent-Type: image/png\nContent-Disposition: inline; filename="i.png"\nContent-ID: <i1>\nContent-Transfer-Encoding: base64\n\niVBORw0KGgo=\n--B\nContent-Type: image/png\nContent-Disposition: inline\nContent-ID: <i2>\nContent-Transfer-Encoding: base64\n\niVBORw0KGgo=\n--B--\n'),
  b('Subject: empty parts\nContent-Type: multipart/mixed; boundary="B"\n\n--B\nContent-Type: text/plain\n\n\n--B\nContent-Type: text/html\n\n\n--B\nContent-Type: application/octet-stream\nContent-Disposition: attachment; filename="empty"\n\n\n--B--\n'),
  b('Subject: only an attachment\nContent-Type: application/zip; name="z.zip"\nContent-Disposition: attachment; filename="z.zip"\nContent-ID: <<a>b>\nContent-Transfer-Encoding: base64\n\nUEsFBgAAAAAAAAAAAAAAAAAAAAAAAA==\n'),
  b('Subject: calendar\nContent-Type: multipart/alternative; boundary="B"\n\n--B\nContent-Type: text/plain\n\n  spaced  \n\n--B\nContent-Type: text/calendar; method=REQUEST; name="i.ics"\n\nBEGIN:VCALENDAR\nEND:VCALENDAR\n--B\nContent-Type: message/delivery-status\n\nStatus: 5.0.0\n--B--\n'),
  b('Subject: big\nContent-Type: multipart/mixed; boundary="B"\n\n--B\nContent-Type: application/octet-stream\nContent-Disposition: attachment; filename="big.bin"\nContent-Transfer-Encoding: base64\n\n', Buffer.from(Buffer.alloc(120000, 7).toString('base64')), '\n--B--\n'),
  b('Subject: upper\nContent-Type: Multipart/Mixed; boundary="B"\n\n--B\nContent-Type: Text/HTML; Charset=UTF-8\n\n<p>x</p>\n--B\nContent-Type: Application/PDF; name="A B.PDF"\nContent-Disposition: attachment; filename*=utf-8\'\'na%C3%AFve%20file.PDF\nContent-ID: <UPPER@X>\n\nx\r\n--B--\n'),
  b('Subject: inline without id\nContent-Type: multipart/mixed; boundary="B"\n\n--B\nContent-Type: text/plain\n\nbody\n--B\nContent-Type: image/gif; name="in.gif"\nContent-Disposition: inline; filename="in.gif"\nContent-Transfer-Encoding: base64\n\nR0lGODlh\n--B\nContent-Type: text/csv\nContent-Disposition: inline; filename=" spaced; name.csv "\n\na,b\n--B\nContent-Type: application/pgp-signature\nContent-Disposition: attachment; filename="../../etc/x"\n\nsig\n--B\nContent-Type: application/x-empty\nContent-Disposition: attachment; filename=""\nContent-ID:\n\nx\n--B--\n'),
  b('Subject: nested too deeply\n', ...Array.from({ length: 300 }, (_, i) => `Content-Type: multipart/mixed; boundary="B${i}"\n\n--B${i}\n`), 'Content-Type: text/plain\n\nx\n'),
  b('Return-Path: <bounce@x.test>\nDelivered-To: d@x.test\nFrom: "A, B" <a@x.test>\nSender: s@x.test\nReply-To: R <r@x.test>, r2@x.test\nTo: grp: m@x.test, n@x.test;, t@x.test\nCc: c@x.test\nBcc: bcc@x.test\nMessage-ID: <m1@x.test>\nIn-Reply-To: <m0@x.test>\nReferences: <m0@x.test> <m00@x.test>\nDate: Fri, 20 Nov 2026 03:00:00 +0000\nImportance: high\nList-Unsubscribe: <https://x.test/u>\nX-Spam: yes\nSubject: every header\n\nbody\n'),
  b('Subject: odd html\nContent-Type: multipart/related; boundary="B"\n\n--B\nContent-Type: text/html; charset=utf-8\n\n<html><body onload="x()"><script>1</script><img src="cid:<i1>"><img src=\'CID:i1\'><img src="cid:i%31"><a href="https://x.test/?a=1&b=2#c">&nbsp;x</a><!-- c --><style>p{}</style></body></html>\n--B\nContent-Type: image/png; name="i.png"\nContent-Disposition: inline\nContent-Description: a picture\nContent-ID: <i1>\nContent-Transfer-Encoding: base64\n\niVBORw0KGgo=\n--B--\n'),
  b('Subject: empty attachments\nContent-Type: multipart/mixed; boundary="B"\n\n--B\nContent-Type: text/plain\n\nhi\n--B\nContent-Type: application/octet-stream; name="e.txt"\nContent-Disposition: attachment; filename="e.txt"\n\n--B\nContent-Type: text/plain; name="f.txt"\nContent-Disposition: attachment; filename="f.txt"\nContent-Transfer-Encoding: base64\n\n--B--\n'),
];
