import json, sys
rs = [json.loads(l) for l in open(sys.argv[1])]
cat = {}
for r in rs:
    if 'bad' not in r:
        k = 'other'
    else:
        v = 'bad' if r['bad'] else 'uns' if r['uns'] else 'ok'
        n = 'nerr' if 'nerr' in r else 'hit' if r.get('native') else 'quiet'
        k = f'{v}/{n}'
    cat.setdefault(k, []).append(r)
for k, v in sorted(cat.items()):
    print(k, len(v))
for k in sys.argv[2:]:
    for r in cat.get(k, []):
        print(k, r['i'], f"{r['file']}:{r['line']} [{r['kind']}] -> {r['text'][:50]!r}", 'BAD', {a: b[:6] for a, b in list(r.get('bad', {}).items())[:2]}, 'UNS', list(r.get('uns', {}).items())[:1], 'NAT', dict(list((r.get('native') or {}).items())[:2]), (r.get('nerr') or r.get('exc') or '')[:200])
