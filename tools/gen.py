"""Regenerate properties.jsonl, MANIFEST.json and DESIGN.md."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalogue as C  # noqa

na = {n['property']: n['reason'] for n in C.NA}
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in C.PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['tests'],
            anchors=dict(files=p['files'], mechanism=[
                dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
checks = [dict(
    property=p['id'], quick_cmd=f"./check {p['id']} --tier quick",
    thorough_cmd=f"./check {p['id']} --tier thorough",
    technique=p['technique'], level=p['level'], level_note=p['note'])
    for p in C.PROPS if p['id'] not in na]
json.dump(dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=C.NA),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
out = [open(os.path.join(HERE, 'design_head.md')).read()]
out.append('## Properties and how they are decided\n')
for p in C.PROPS:
    out.append(f"### {p['id']} — {p['title']}\n\n{p['statement']}\n")
    if p['id'] in na:
        out.append(f"*Not applicable:* {na[p['id']]}\n")
    else:
        out.append(f"*Decided by:* {p['technique']}. {p['design']}\n\n"
                   f"*Bounds and trust:* {p['note']}\n\n"
                   f"*Why tests cannot:* {p['tests']}\n")
tail = os.path.join(HERE, 'design_tail.md')
if os.path.exists(tail):
    rows = ['| Bug | Property | Needs | Found by | Missed at first |',
            '|---|---|---|---|---|']
    seeds = os.path.join(ROOT, 'seeded')
    for s in sorted(os.listdir(seeds)):
        m = json.load(open(os.path.join(seeds, s, 'meta.json')))
        rows.append(f"| {s} | {m['property']} | {m['needs']} | "
                    f"{C.FOUND.get(s, m['property'])} | "
                    f"{C.MISSED.get(s, '')} |")
    out.append(open(tail).read() + '\n'.join(rows) + '\n')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
