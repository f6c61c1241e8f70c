"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
m = {'version': 1, 'setup_cmd': 'python3 vr.py setup',
     'hooks': {'guard': 'WINPTY_VERIF_HOOKS', 'enable': 'No source hooks are needed or present in /repo: the checks observe the unmodified sources at the Windows API boundary, which they supply themselves. The name is reserved.', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': f'python3 vr.py check {i} quick', 'thorough_cmd': f'python3 vr.py check {i} thorough',
                            'technique': checks.TECH[i], 'level': c['level'], 'level_note': checks.NOTE[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': checks.NOT_CLAIMED.get(i, 'No check yet: the monitor for this property is still being built.')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
