#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the properties file."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
exec(open(V + '/tools/claims.py').read())
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
m = {'version': 1,
     'setup_cmd': 'python3 tools/check.py --build',
     'hooks': {'guard': 'URKEL_VERIF', 'enable': 'the checks compile /repo with -DURKEL_VERIF (tools/vbuild.py); it makes four size limits in src/store.c adjustable at run time, with the usual defaults; a second commit lets debug builds accept // comments (CMakeLists.txt, no code)', 'source_commits': hook},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, lv, note = CLAIMS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': lv, 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT.get(i, 'no check yet: planned, see DESIGN.md')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks')
