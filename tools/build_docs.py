"""Write properties.jsonl and MANIFEST.json from props_data.py and the registered checks."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from props_data import P, NA   # noqa
import importlib, pkgutil
from sa import props
for _m in pkgutil.iter_modules(props.__path__):
    importlib.import_module('sa.props.' + _m.name)
from sa.report import REGISTRY  # noqa

ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
na = {x['id'] for x in NA}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in sorted(P + NA, key=lambda x: x['id']):
        assert len(x['title']) <= 80, x['title']
        a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']], 'hook_needed': None}
        a.update(x.get('anchors') or {})
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                            'quantifier': {'over': x['over'], 'text': x['text']},
                            'why_tests_cant': x['why'], 'anchors': a}) + '\n')
miss = set(ids) - set(REGISTRY), set(REGISTRY) - set(ids)
assert miss == (set(), set()), miss
man = {'version': 1,
       'setup_cmd': 'python3-vt -c "import mpmath" && mkdir -p evidence',
       'checks': [{'property': x['id'], 'quick_cmd': 'python3-vt -m sa %s' % x['id'],
                   'thorough_cmd': 'python3-vt -m sa %s --tier thorough' % x['id'],
                   'technique': x['technique'], 'level': 'other', 'level_note': x['note']}
                  for x in sorted(P, key=lambda x: x['id'])],
       'not_applicable': [{'property': x['id'], 'reason': x['reason']} for x in sorted(NA, key=lambda x: x['id'])],
       'notes': 'Static analysis only: the checks parse and abstractly interpret /repo\'s source; they never import or run it. '
                'Exit 2 means the analysis could not decide (unsupported construct) and no violation was found.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), s)
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
except FileNotFoundError:
    pass


def design():
    import glob
    here = os.path.dirname(os.path.abspath(__file__))
    rd = lambda n: open(os.path.join(here, n)).read()  # noqa
    out = [rd('design_head.md').rstrip('\n') + '\n']
    seeds = {}
    for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        seeds.setdefault(d['property'], []).append((m.split(os.sep)[-2], d))
    for x in sorted(P, key=lambda x: x['id']):
        r = REGISTRY[x['id']]
        out.append('### %s %s\n' % (x['id'], x['title']))
        out.append('*Specified:* %s\n' % x['statement'])
        out.append('*Decided by:* %s.\n' % x['technique'])
        out.append('*Rule and oracle:* %s\n' % r.rule)
        out.append('*Bounds and trust:* %s At least %d obligations. Quantified over %s.\n' % (x['note'], r.minimum, x['text']))
        out.append('*Cost:* %s.\n' % COST.get(x['id'], 'under 1 s'))
        out.append('*Beyond tests:* %s The rule holds for every value at once because it is decided on value numbers.\n' % x['why'])
        if x['id'] in seeds:
            out.append('*Planted:* %s.\n' % ', '.join(b for b, _ in seeds[x['id']]))
    out.append('### Not applicable\n')
    for x in sorted(NA, key=lambda x: x['id']):
        out.append('* **%s %s** - %s' % (x['id'], x['title'], x['reason']))
    out.append('\n## 4. Planted bugs\n')
    out.append(rd('design_seeds.md').rstrip('\n') + '\n')
    out.append('| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|')
    for pid in sorted(seeds):
        for b, d in seeds[pid]:
            out.append('| %s | %s | %s | %s | %s |' % (b, pid, d['what_it_breaks'], d['needs'], CAUGHT.get(b, 'by %s' % pid)))
    out.append(rd('design_tail.md').rstrip('\n'))
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


COST = {'C08': '3 s', 'C15': '5 s', 'C16': '4 s', 'C17': '9 s', 'C18': '40 s', 'C19': '50 s', 'C20': '40 s', 'C21': '65 s', 'C22': '90 s',
        'C23': '45 s', 'C25': '35 s', 'C26': '4 s', 'C27': '7 s', 'C28': '5 s', 'C31': '11 s', 'C33': '3 s', 'C37': '3 s', 'C38': '20 s'}
CAUGHT = {}
design()
print(len(P), 'claimed', len(NA), 'not applicable')
