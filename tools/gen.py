import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'checks')]
from specs import SPECS
from index import MODULES

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as file:
    for s in SPECS:
        assert len(s['title']) <= 80, (s['id'], len(s['title']))
        for path in s['files']:
            assert os.path.exists(os.path.join('/repo', path)), (s['id'], path)
        file.write(json.dumps({
            'id': s['id'], 'title': s['title'], 'statement': s['statement'],
            'quantifier': {'over': s['over'], 'text': s['text']},
            'why_tests_cant': s['why'],
            'anchors': {
                'files': s['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in s['mechanism']],
                'observe_at': s['observe'] or ['public api'],
                'hook_needed': None,
            },
        }) + '\n')

checks = []
for s in SPECS:
    assert s['id'] in MODULES, s['id']
    checks.append({
        'property': s['id'],
        'quick_cmd': f'VERIF_TIER=quick ./check {s["id"]}',
        'thorough_cmd': f'VERIF_TIER=thorough ./check {s["id"]}',
        'technique': s['technique'],
        'level': 'exploration',
        'level_note': s['level_note'] or 'Randomised search with an explicit oracle: no failure in the explored cases, not a proof of absence.',
    })
extra = set(MODULES) - {s['id'] for s in SPECS}
if extra:
    print('not in specs:', sorted(extra))
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as file:
    json.dump({
        'version': 1,
        'setup_cmd': 'python3-vt -B tools/setup.py',
        'hooks': {'guard': 'VERIF_HOOKS', 'enable': 'no hooks are needed, none were added; the checks import /repo directly'},
        'checks': checks,
        'not_applicable': [],
    }, file, indent = 1)
    file.write('\n')
print(len(checks), 'checks')
import jsonschema
for path, schema, lines in (('MANIFEST.json', 'MANIFEST', False), ('properties.jsonl', 'PROPERTIES', True)):
    schema = json.load(open(f'/root/.vp/{schema}.schema.json'))
    text = open(os.path.join(VERIF, path)).read()
    for part in (text.splitlines() if lines else [text]):
        jsonschema.validate(json.loads(part), schema)

# ---- DESIGN.md ----
import glob, importlib
os.environ.setdefault('VERIF_REPO', '/repo')
sys.path[:0] = ['/repo', os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')]
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
from design_notes import NOTES
import vsim
from vharness import Property
for module in sorted(set(MODULES.values())):
    importlib.import_module(module)
out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## Properties', '']
known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
for s in SPECS:
    property_ = Property.registry[s['id']]
    out += [f'### {s["id"]}: {s["title"]}', '', s['statement'], '']
    out += [f'* Over: {s["text"]}.', f'* Method: {s["technique"]}.', f'* Generated: {property_.rule}']
    out += ['* Sub checks: ' + ', '.join(f'`{sub.name}` ({sub.quick} quick / {sub.thorough} thorough cases)' for sub in property_.subs.values()) + '.']
    out += [f'* {NOTES[s["id"]]}' if s['id'] in NOTES else '* (no notes)']
    out += [f'* Why tests do not settle it: {s["why"]}']
    out += ['* Code: ' + ', '.join(f'`{path}`' for path in s['files']) + '.', '']
out += ['## Not applicable', '', 'Nothing listed is out of reach of the technique.', '', '## Known findings (left as they are)', '']
out += [f'* {f if isinstance(f, str) else json.dumps(f)}' for f in known['findings']] or ['None.']
out += ['', '## Defects repaired', '', 'Each one was found by (or while writing) the check of its property and is repaired by a `fix:` commit in /repo.', '']
out += [f'* {f[len("fixed: "):]}' for f in known['fixed']]
out += ['', '## Planted bugs', '', 'Each is detected by the quick check of its property, unless told otherwise in the last column.', '', '| id | property | breaks | needs | caught |', '|---|---|---|---|---|']
missed = {}
if os.path.exists(os.path.join(HERE, 'missed.json')):
    missed = json.load(open(os.path.join(HERE, 'missed.json')))
for path in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
    meta = json.load(open(path))
    id_ = os.path.basename(os.path.dirname(path))
    cells = [id_, meta['property'], meta['what_it_breaks'], meta['needs'], missed.get(id_, 'yes')]
    out.append('| ' + ' | '.join(cell.replace('|', '\\|').replace('\n', ' ') for cell in cells) + ' |')
with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as file:
    file.write('\n'.join(out) + '\n')
os._exit(0)
