"""Single source for properties.jsonl, MANIFEST.json and checks/meta.json.  Run: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, rule, technique, note,
         assumptions=(), observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, rule=rule, technique=technique, note=note,
                  assumptions=list(assumptions), observe=observe))


exec(open(os.path.join(HERE, 'tools', 'property_texts.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        mech = [dict(zip(('name', 'where'), x.split(' @ '))) for x in p['mechanism']]
        anchors = {'files': p['files'], 'mechanism': mech, 'hook_needed': None}
        if p['observe']:
            anchors['observe_at'] = list(p['observe'])
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f"bash check.sh {p['id']} quick",
        'thorough_cmd': f"bash check.sh {p['id']} thorough",
        'technique': p['technique'], 'level': 'exploration',
        'level_note': p['note']} for p in P],
    'not_applicable': [],
    'notes': 'No hooks in /repo: every monitor observes the public API. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
with open(os.path.join(HERE, 'checks', 'meta.json'), 'w') as f:
    json.dump({p['id']: {'rule': p['rule'], 'assumptions': p['assumptions']} for p in P}, f, indent=1)
    f.write('\n')
for p in P:
    for fn in p['files']:
        assert os.path.exists('/repo/' + fn), (p['id'], fn)
    n = sum(p['statement'].count(x) for x in ('. ',)) + 1
    assert n <= 3, (p['id'], n)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), s)
    jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(P))
except ImportError:
    pass
