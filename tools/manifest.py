#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{root}/checks/{i}.mjs'):
        checks.append({
            'property': i,
            'quick_cmd': f'node --max-old-space-size=12000 lib/run.mjs {i} --tier quick',
            'thorough_cmd': f'node --max-old-space-size=12000 lib/run.mjs {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'TLA+ specification explored with TLC; its transitions replayed on the real code, and traces of the real code validated against it with TLC',
            'level': 'model_checking',
            'level_note': 'Every transition of the bounded TLA+ model is replayed on the code bundled from the current tree, in several concretizations, and longer random traces recorded from the code are accepted by the same model; beyond the model\'s bounds the assurance is that of the random traces. Trusts TLC, esbuild, Node, jsdom and the drivers\' abstraction functions.',
        })
    else:
        na.append({'property': i, 'reason': 'The specification and driver for it are not built yet.'})
json.dump({
    'version': 1,
    'setup_cmd': 'node lib/setup.mjs',
    'checks': checks,
    'not_applicable': na,
    'notes': 'TLA+ with TLC. No hooks in /repo: the checks bundle its TypeScript sources from the working tree and drive public interfaces. known-findings.txt lists the defects found and repaired.',
}, open(f'{root}/MANIFEST.json', 'w'), indent='\t')
open(f'{root}/MANIFEST.json', 'a').write('\n')
