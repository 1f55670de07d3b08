"""Development tool, never run by a check: turns the failures dumped with MC_FREEZE=FILE of one
family into a known-cases table after they were judged to be one genuine defect.
usage: freeze.py DUMP FAMILY OUT [substring of the message]"""
import json
import sys
dump, fam, out = sys.argv[1:4]
sub = sys.argv[4] if len(sys.argv) > 4 else ''
t = {}
for line in open(dump):
    f, case, mid, msg = json.loads(line)
    if f == fam and sub in msg:
        t[case] = mid
json.dump(t, open(out, 'w'), indent=0, sort_keys=True)
print(len(t), 'cases')
