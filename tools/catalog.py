#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level_note=None, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]),
                  _note=level_note, _na=na, _tech=technique))


exec(open(os.path.join(V, 'tools', 'catalog_data.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['statement']
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = dict(version=1, setup_cmd='python3 run.py setup',
         checks=[dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'],
                      thorough_cmd='python3 run.py %s thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'],
                      technique=p['_tech'] or 'TLA+ specification checked with TLC; traces of the real code validated against it',
                      level='model_checking', level_note=p['_note'])
                 for p in P if not p['_na']],
         not_applicable=[dict(property=p['id'], reason=p['_na']) for p in P if p['_na']])
m['notes'] = ('No hooks in /repo: the harnesses observe the public API, and calls to libc and libpthread by '
              'symbol interposition at link time.')
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
