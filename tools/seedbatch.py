"""Development only: seedbatch.py FILE [ID...] plants the changes described in FILE one after the other (see mkseed.sh)."""
import os
import subprocess
import sys

ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True).stdout
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip())
    ok = True
    for f, a, b, *nth in s['edits']:   # nth: which of several matches (from 0)
        t = open('/repo/' + f).read()
        if t.count(a) != 1 and not nth:
            print(s['id'], f, 'matches', t.count(a))
            ok = False
            continue
        parts = t.split(a)
        k = nth[0] + 1 if nth else 1
        open('/repo/' + f, 'w').write(a.join(parts[:k]) + b + a.join(parts[k:]))
    if not ok:
        subprocess.run('git -C /repo checkout -q -- .', shell=True)
        continue
    subprocess.run(['/verif/tools/mkseed.sh', s['id'], s['prop'], s['needs'], s['breaks']])
    sys.stdout.flush()
