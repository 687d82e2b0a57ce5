#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA
V = os.path.dirname(HERE)
with open(V + '/properties.jsonl', 'w') as fp:
    for p in PROPS + NA:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['forall']),
                 why_tests_cant=p['why'], anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])],
                                                      mechanism=[dict(name=a, where=b) for a, b in p.get('mechanism', [])],
                                                      observe_at=p.get('observe', []), hook_needed=None))
        assert len(d['title']) <= 80, d['title']
        fp.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[])
for p in PROPS:
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                            technique=p['technique'], level='other', level_note=p['level_note']))
for p in NA:
    m['not_applicable'].append(dict(property=p['id'], reason=p['reason']))
with open(V + '/MANIFEST.json', 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
