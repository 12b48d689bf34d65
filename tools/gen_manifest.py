import json, sys
sys.path.insert(0, '/verif/engine')
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = 'contract-based deductive verification: symbolic execution of the extracted TypeScript against executable contracts, obligations discharged by z3, each confirmed by cvc5; callers against callee contracts'
NOTE = {
 'C04': 'Proof that exactly the demanded requests are made on every path, for all arguments and answers. ',
 'C12': 'Frame obligations (no write to any argument, the client or module state) for every operation; with them no history or interleaving can be observed. Concurrent and repeated concrete calls are bounded. ',
 'C19': 'The signature library is a trusted uninterpreted function; proved is which data reach it and what is returned. ',
 'C21': 'The MIME parser and base64 are trusted uninterpreted functions of the downloaded bytes. ',
}
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i, 'quick_cmd': f'bin/check {i} --tier quick', 'thorough_cmd': f'bin/check {i} --tier thorough',
        'technique': T, 'level': 'proof',
        'level_note': NOTE.get(i, '') + 'Every obligation is generated from /repo/src on each run and must be accepted by the solver, for all inputs and iterations within the stated preconditions. '
        'Trusted: the extractor and symbolic semantics (engine/), the models of JavaScript and web built-ins, z3 and cvc5, the contracts. Operations outside the fragment fall back to bounded execution of the same contracts, reported as bounded and never counted as proved; on the unchanged tree there are none.',
    })
json.dump({
    'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': [],
    'notes': 'No hooks. fix: commits in /repo are listed in known-findings.json. bin/replay FILE re-runs a recorded violation.',
}, open('/verif/MANIFEST.json', 'w'), indent=1)
