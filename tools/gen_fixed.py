"""Writes the "fixed" list of known_findings.json from the fix commits in /repo."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(HERE, 'tools', 'fixed_properties.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x1f%s', 'e1d9441..HEAD'], stdout=subprocess.PIPE, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split('\x1f')
    if not s.startswith('fix: '):
        continue
    e = PROPS.get(s[5:])
    if not e:
        print('NO PROPERTY FOR', s)
        continue
    fixed.append('fixed: property=%s %s %s' % (e[0], h, e[1]))
path = os.path.join(HERE, 'known_findings.json')
d = json.load(open(path))
d['fixed'] = fixed
json.dump(d, open(path, 'w'), indent=1)
