"""Write DESIGN.md from the property texts, the notes, the spaces and the last evidence."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
seeds = json.load(open(os.path.join(HERE, 'tools', 'seeded_results.json')))
for p in props:
    pid = p['id']
    tech, level, oracle, reach = NOTE[pid]
    mod = importlib.import_module('checks.' + pid.lower())
    quick = mod.spaces('quick')
    deep = {s.name: s.bounds for s in mod.spaces('thorough')}
    ev = {}
    path = os.path.join(HERE, 'evidence', pid + '.json')
    if os.path.exists(path):
        ev = json.load(open(path))
    out.append('### %s %s\n' % (pid, p['title']))
    out.append('*How it is decided:* %s. %s' % (tech, oracle))
    out.append('\n*Reaches beyond tests:* %s\n' % reach)
    out.append('*Enumerated (quick tier; thorough in parentheses where larger):*\n')
    sizes = {s['name']: s for s in ev.get('coverage', {}).get('spaces', [])} if ev.get('tier') == 'quick' else {}
    for s in quick:
        more = deep.get(s.name)
        n = sizes.get(s.name)
        out.append('* `%s`: %s%s%s' % (s.name, s.bounds, '' if more in (None, s.bounds) else ' (%s)' % more,
                                        ' [%d cases]' % n['cases'] if n else ''))
    for n in deep:
        if n not in {s.name for s in quick}:
            out.append('* `%s` (thorough only): %s' % (n, deep[n]))
    if getattr(mod, 'ASSUMPTIONS', None):
        out.append('\n*Outside the space:* ' + '; '.join(mod.ASSUMPTIONS) + '.')
    if ev.get('tier') == 'quick':
        c = ev['coverage']
        out.append('\n*Last quick run:* %d states, %d transitions, %d model traces replayed on the implementation, %.0f s on 8 cores.' % (
            c['states'], c['transitions'], c['traces_validated_against_impl'], ev['wall_s']))
    mine = sorted(k for k in seeds if seeds[k]['property'] == pid)
    if mine:
        out.append('\n*Seeded bugs:* ' + ', '.join('%s (%s)' % (k, seeds[k]['result']) for k in mine) + '.')
    out.append('')
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
print(len(out))
