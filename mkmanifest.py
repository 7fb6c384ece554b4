#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness module is claimed."""
import json, os, re
root = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
mods = {c: set(re.findall(r'^\t(c\d\d) = "c\d\d"', open(os.path.join(root, c, 'src/lib.rs')).read(), re.M))
        for c in ('harness', 'sync/harness')}
REASONS = {
    'C20': 'Whether a feature combination builds is a question to the compiler, not to a solver over values: there is no symbolic '
           'input. (Observed: without default features the crate does not build; see DESIGN.md.)',
}
LEVEL_NOTES = dict(l.split('\t', 1) for l in open(os.path.join(root, 'levels.tsv')).read().splitlines() if l.strip())
checks, na = [], []
for p in props:
    i = p['id']
    sync = i.lower() in mods['sync/harness']
    if sync or i.lower() in mods['harness']:
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='bounded symbolic execution of the compiled crate (Kani/CBMC), decided by SAT' +
            (', other threads as a symbolic environment' if sync else ''), level='model_checking',
            level_note=LEVEL_NOTES.get(i, 'Every harness is decided for all symbolic inputs within its stated bounds.') +
            ' Unwinding assertions are on; counterexamples are replayed natively. Trusts Kani, CBMC, their SAT solver and the '
            'harnesses; bounds and element types are in DESIGN.md and the evidence; allocation never fails' +
            (', and locks and atomics are the model in sync/vstd, which lets other threads store arbitrary values at every access.'
             if sync else ' and threads are not modelled.')))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, 'No check has been built for it yet.')))
m = dict(version=1, setup_cmd='cargo kani --version && cargo --version', checks=checks, not_applicable=na,
         notes='No hooks: the harnesses use the public API only. known_findings.json lists the recorded findings and the repairs.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
