"""Writes DESIGN.md from tools/design_head.md, tools/design_text.py, the checks' META, the evidence of the last runs, known_findings.json
and the planted changes."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
from design_text import TEXT  # noqa: E402

props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
out = [open(HERE + '/tools/design_head.md').read().rstrip(), '']
known = json.load(open(HERE + '/known_findings.json'))['findings']
snap = HERE + '/tools/families.json'
fam = json.load(open(snap)) if os.path.exists(snap) else {}
for p in props:
    f = f"{HERE}/evidence/{p['id']}.json"
    if os.path.exists(f):
        d = json.load(open(f))
        fs = d['coverage'].get('families', {})
        old = fam.setdefault(p['id'], {}).get(d['tier'], {})
        if len(fs) >= len(old):
            fam[p['id']][d['tier']] = {k: {'cases': v['cases'], 'calls': v['implementation_calls'], 'what': v.get('what', '')} for k, v in fs.items()}
json.dump(fam, open(snap, 'w'), indent=1, sort_keys=True)
out += ['## Properties', '']
for p in props:
    src = ast.parse(open(f"{HERE}/checks/{p['id'].lower()}.py").read())
    meta = next(ast.literal_eval(n.value) for n in ast.walk(src) if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'META')
    o, r, left = TEXT[p['id']]
    out += [f"### {p['id']} {p['title']}", '', f"*Method:* {meta['technique']}.", '', f"*Bounds:* {meta['note']}", '', '*Oracle:* ' + ' '.join(o.split()), '',
            f'*Why the tests cannot settle it:* {r}', '']
    if left != '-':
        out += [f'*Left out:* {left}', '']
    t = fam[p['id']]
    names = list(t.get('quick', {}))
    names += [x for x in t.get('thorough', {}) if x not in names]
    out += ['| family | what is enumerated | cases quick | cases thorough |', '|---|---|---|---|']
    for n in names:
        q, th = t.get('quick', {}).get(n), t.get('thorough', {}).get(n)
        w = (q or th)['what'].replace('|', '/') or n
        out.append(f"| {n} | {w} | {q['cases'] if q else '-'} | {th['cases'] if th else 'larger'} |")
    fx = [k for k in known if k['property'] == p['id']]
    if fx:
        out += ['', 'Findings:', '']
        for k in fx:
            out.append(f"* repaired in {k['commit']}: {k['record'].split(' ', 3)[3]}" if k['status'] == 'fixed' else f"* **known finding {k['id']}**: {k['what']}")
    sd = sorted(glob.glob(f'{HERE}/seeded/*/meta.json'))
    mine = [(os.path.basename(os.path.dirname(s)), json.load(open(s))) for s in sd]
    mine = [(n, m) for n, m in mine if m['property'] == p['id']]
    if mine:
        out += ['', 'Planted changes (all caught by this check):', '']
        out += [f"* `{n}`: {m['what_it_breaks']} (needs {m['needs']})" for n, m in mine]
    out.append('')
out += [open(HERE + '/tools/design_tail.md').read().rstrip(), '']
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(out), 'lines')
