#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.txt."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, tech=tech, note=note, na=na))
exec(open(os.path.join(V, 'tools', 'props.py')).read())
checks = {l.split()[0] for l in open(os.path.join(V, 'checks.txt')) if l.strip()}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps({"id": q['id'], "title": q['title'], "statement": q['statement'],
            "quantifier": {"over": q['over'], "text": q['qtext']}, "why_tests_cant": q['why'],
            "anchors": {"files": q['files'], "mechanism": [{"name": a, "where": b} for a, b in q['mech']]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
hk = os.path.join(V, 'tools', 'hooks.json')
if os.path.exists(hk):
    m["hooks"] = json.load(open(hk))
for q in P:
    if q['id'] in checks:
        m["checks"].append({"property": q['id'], "quick_cmd": f"bash run.sh {q['id']} quick",
            "thorough_cmd": f"bash run.sh {q['id']} thorough", "technique": q['tech'], "level": "model_checking",
            "level_note": q['note']})
    else:
        m["not_applicable"].append({"property": q['id'], "reason": q['na'] or "check not built yet"})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for q in P:
    assert len(q['title']) <= 80, q['title']
    for f in q['files']:
        assert os.path.exists('/repo/' + f), f
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        try: jsonschema.validate(json.loads(l), s)
        except Exception as e: print(l[:60], e.message)
except ImportError:
    pass
print(len(P), 'properties', len(m['checks']), 'checks')
