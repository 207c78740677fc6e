"""writes properties.jsonl and MANIFEST.json (run by hand after editing; no check reads it)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique=None, level='model_checking',
         note='', done=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe or [], technique=technique, level=level, note=note, done=done))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1,
       'setup_cmd': f'{PY} check.py --selftest',
       'checks': [{'property': p['id'],
                   'quick_cmd': f'{PY} check.py {p["id"]} --tier quick',
                   'thorough_cmd': f'{PY} check.py {p["id"]} --tier thorough',
                   'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
                  for p in P if p['done']],
       'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in P if not p['done']],
       'notes': 'No hooks in /repo: every check drives public entry points and judges the generated output. '
                'The "fix:" commits in /repo repair genuine defects, see known_findings.txt and DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(P), 'properties;', sum(p['done'] for p in P), 'claimed')
