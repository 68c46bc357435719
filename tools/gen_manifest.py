#!/usr/bin/env python3
"""regenerate MANIFEST.json from lib/props.py and properties.jsonl"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=p.get('technique', 'path-sensitive abstract interpretation of MIR (symbolic byte sequences, linear constraints)'),
                           level='other',
                           level_note=p.get('note', 'Static: every obligation is decided on rustc\'s MIR of the current tree for all inputs within the stated bounds. '
                                            'Trusted: the fact extractor, the interpreter, the transfer functions for library calls. '
                                            'Constructs without a transfer function make an obligation undecided (listed in the evidence), not violated.')))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='cd driver && cargo +nightly build --release --offline -q', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
