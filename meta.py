#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, technique=None, level=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                  technique=technique, level=level, note=note, na=na))


from meta_table import fill
fill(prop)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']:
            a['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='bash yv/mk.sh build', checks=[], not_applicable=[],
         notes='No hooks: every check works on the unmodified sources. See DESIGN.md.')
for p in P:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                                technique=p['technique'], level=p['level'], level_note=p['note']))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
