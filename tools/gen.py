#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the tables in props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        rec = dict(id=p['id'], title=p['title'], statement=p['statement'],
                   quantifier=dict(over=p['over'], text=p['all']), why_tests_cant=p['why'],
                   anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                observe_at=p.get('observe', []), hook_needed=None))
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(rec) + '\n')
checks, na = [], []
for p in props.PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                           thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                           technique=p['technique'], level='other', level_note=p['note']))
json.dump(dict(version=1, setup_cmd="python3 -m compileall -q geostat", checks=checks, not_applicable=na,
               notes="All checks are static: they parse /repo's current source and never import or run it."),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
