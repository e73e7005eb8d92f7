#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, level=None, technique=None, note=None, na=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, level=level, technique=technique, note=note, na=na, observe=observe)

PROPS = []
exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['qtext']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if p['observe']:
            o['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(o) + '\n')

man = dict(version=1, setup_cmd='bash /verif/setup.sh', checks=[], not_applicable=[],
           notes='Every check is one run of /verif/checker (Go, x/tools vendored) over the current source of /repo; no code of /repo is executed. Repairs of genuine defects are listed in known_findings.txt.')
for p in PROPS:
    if p['na']:
        man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        man['checks'].append(dict(property=p['id'], quick_cmd='bash run.sh %s' % p['id'],
                                  thorough_cmd='VERIF_TIER=thorough bash run.sh %s' % p['id'],
                                  technique=p['technique'], level=p['level'], level_note=p['note']))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
