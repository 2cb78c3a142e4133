"""Write MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
checks = []
na = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': 'bash /verif/check.sh %s quick' % pid,
            'thorough_cmd': 'bash /verif/check.sh %s thorough' % pid,
            'evidence_file': '/verif/evidence/%s.json' % pid,
            'technique': NOTE.get(pid, ('bounded exhaustive exploration', ''))[0],
            'level': 'model_checking',
            'level_note': NOTE.get(pid, ('', 'all cases within the stated bounds'))[1]})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks import zope.tal from the working tree in /repo; nothing is built or cached.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
