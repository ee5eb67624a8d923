"""writes properties.jsonl and MANIFEST.json from vlib/props.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import props
with open(V + '/properties.jsonl', 'w') as f:
    for id, p in sorted(props.PROPS.items()):
        assert len(p['title']) <= 80, id
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['state']: a['state'] = p['state']
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': id, 'title': p['title'], 'statement': p['statement'], 'quantifier': p['quantifier'], 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    for id, p in sorted(getattr(props, 'NA', {}).items()): f.write(json.dumps(p['line']) + '\n')
checks = []
for id, p in sorted(props.PROPS.items()):
    k = p['technique'] == props.KANI
    checks.append({'property': id, 'quick_cmd': './check.py %s quick' % id, 'thorough_cmd': './check.py %s thorough' % id, 'technique': p['technique'], 'level': 'other',
                   'level_note': ('bounded model checking: SAT verdict over every bit pattern within: ' if k else 'solver verdict for every double within: ') + p['bounds']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [{'property': id, 'reason': p['reason']} for id, p in sorted(getattr(props, 'NA', {}).items())],
     'notes': 'See DESIGN.md. check.py rebuilds IR and native code of /repo on every run; known findings and repairs in known_findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
