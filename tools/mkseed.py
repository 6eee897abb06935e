#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT < file with:  lines '--- path', old text, '===', new text ...; then '### demo' and the demo (python)"""
import sys, os, json, subprocess
sid, prop, needs, what = sys.argv[1:5]
txt = sys.stdin.read()
edits, demo = txt.split('### demo\n')
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
assert not subprocess.run(['git', '-C', '/repo', 'status', '--short'], capture_output=True).stdout.strip()
try:
    for part in edits.split('--- ')[1:]:
        path, body = part.split('\n', 1)
        path = path.strip()
        old, new = body.split('\n===\n')
        new = new.rstrip('\n')
        s = open('/repo/' + path).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open('/repo/' + path, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.py', 'w').write(demo)
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
