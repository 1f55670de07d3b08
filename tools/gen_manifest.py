"""Writes /verif/MANIFEST.json from checks/*.py (META of each check)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)['id'] for x in open(f'{HERE}/properties.jsonl')]
checks, na = [], []
NA = {}
for pid in props:
    path = f'{HERE}/checks/{pid.lower()}.py'
    meta = None
    if os.path.exists(path):
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == 'META':
                meta = ast.literal_eval(node.value)
            if meta:
                break
    if not meta:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check built yet; the property is in scope of the family')})
        continue
    checks.append({'property': pid, 'quick_cmd': f'bash check.sh {pid} --tier quick',
                   'thorough_cmd': f'bash check.sh {pid} --tier thorough',
                   'evidence_file': f'evidence/{pid}.json',
                   'technique': meta['technique'], 'level': 'model_checking',
                   'level_note': meta['note']})
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: threads are controlled by instrumenting the compiled code from outside. '
                'fix: commits in /repo are listed in known_findings.json and DESIGN.md.'}
json.dump(man, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
