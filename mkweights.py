#!/usr/bin/env python3
"""Records, from the evidence of the last runs, how long each harness took, so
that check.py can spread them evenly. It has no influence on verdicts."""
import glob, json, os
root = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(root, 'weights.json')
try:
    w = json.load(open(path))
except OSError:
    w = {}
for f in sorted(glob.glob(os.path.join(root, 'evidence/*.json'))):
    d = json.load(open(f))
    t = w.setdefault(d['tier'], {})
    p = d['property'].lower() + '::'
    for k in [k for k in t if k.startswith(p)]:
        del t[k]
    t.update({h['harness']: round(h['seconds'], 1) for h in d['coverage']['harnesses']})
json.dump(w, open(path, 'w'), indent=0, sort_keys=True)
