#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below
(run by hand when the table changes; both files are committed)"""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), technique=None, note=None, na=None, level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  state=state, observe=observe, technique=technique,
                  note=note, na=na, level=level))


exec(open(__file__.replace('gen.py', 'proptable.py')).read())

with open('properties.jsonl', 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'state': [dict(name=a, meaning=b, where=c)
                          for a, b, c in p['state']],
                'mechanism': [dict(name=a, where=b)
                              for a, b in p['mechanism']],
                'observe_at': list(p['observe']),
                'hook_needed': None}}) + '\n')

checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash check.sh {p['id']} quick",
        'thorough_cmd': f"bash check.sh {p['id']} thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': p['technique'],
        'level': p['level'],
        'level_note': p['note']})
with open('MANIFEST.json', 'w') as fh:
    json.dump({
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': checks,
        'not_applicable': na,
        'notes': 'Nothing in /repo is instrumented (no hooks). The checks run '
                 'the Python code of /repo directly; src.CLA, which the '
                 'repository does not ship, is replaced by mc/standin.'},
        fh, indent=1)
    fh.write('\n')
