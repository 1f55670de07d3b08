"""Writes known_findings.json (findings recorded rather than repaired, and the repairs)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
HASH = {line.split(' ', 1)[1]: line.split(' ', 1)[0] for line in log.splitlines()}
F = []


def fixed(prop, subject, what):
    F.append({'property': prop, 'status': 'fixed', 'commit': HASH[subject],
              'record': f'fixed: property={prop} {HASH[subject]} {what}'})


def known(id, prop, family, what, **match):
    F.append({'id': id, 'property': prop, 'status': 'known', 'family': family, 'what': what, **match})


fixed('C22', 'fix: terminate the f-string that keeps lam_tar_gyre (and aesolver) from importing',
      'importing lam_tar_gyre, hence aesolver, raised SyntaxError')
fixed('C05', 'fix: pairing functions accept plain tuples and integers, as documented',
      'cantor_pair((1, 2)) and every inverse with the default lowest integer raised TypeError')
fixed('C05', 'fix: inverse of the symmetric pairing function on and near the diagonal',
      'invert_symmetric_pair(symmetric_pair((b, b))) returned (0, b + 1) relative to the lowest integer')

known('K-C06-order', 'C06', 'symmetric-order',
      'symmetric product of sets given in non-ascending element order lists pairs twice (as (a, b) and (b, a)) '
      'or pairs that belong to one set only', cases_file='known/c06-order.json')
known('K-C06-range', 'C06', 'symmetric-range',
      'symmetric product of integer ranges whose CPython set order is not ascending (e.g. 15..16 with 15..16) '
      'lists pairs twice or lists pairs of one range only; an existing test expects the duplicate',
      cases_file='known/c06-range.json')

exec(open(f'{HERE}/tools/known_more.py').read()) if os.path.exists(f'{HERE}/tools/known_more.py') else None
json.dump({'findings': F}, open(f'{HERE}/known_findings.json', 'w'), indent=1)
print(len(F), 'entries')
