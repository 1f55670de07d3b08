#!/bin/bash
# Development only. With a planted change in /repo's working tree and demo.py written at /verif/seeded/ID/demo.py:
#   mkseed.sh ID PROPERTY 'needs' 'what it breaks'
# stores patch.diff, demo.sh and meta.json, then confirms build, stable tests, demo with and without the change, check.
id=$1; d=/verif/seeded/$id; mkdir -p "$d" /tmp/w
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in /repo"; exit 1; }
cat > "$d/demo.sh" <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/aes/env.sh
PYTHONPATH=$PKGPATH timeout 280 python -W ignore "$here/demo.py"
X
chmod +x "$d/demo.sh"; cp /verif/mc/stubs/simple_poller.py "$d/"
python3 - "$d" "$2" "$3" "$4" <<'X'
import json, sys
json.dump({'property': sys.argv[2], 'needs': sys.argv[3], 'what_it_breaks': sys.argv[4]}, open(sys.argv[1] + '/meta.json', 'w'), indent=1)
X
cd /repo
bash /opt/vp/build.sh > /tmp/w/b.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/w/b.log; git checkout -q -- .; exit 1; }
bash /opt/vp/test.sh /tmp/w/out.json > /tmp/w/t.log 2>&1; st=$(python3 /tmp/w/stab.py)
bash "$d/demo.sh" > /tmp/w/demo1.log 2>&1; r1=$?
(cd /verif && bash check.sh "$2" > /tmp/w/check.log 2>&1); rc=$?
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/w/b.log 2>&1
bash "$d/demo.sh" > /tmp/w/demo0.log 2>&1; r0=$?
echo "$id: tests $st; demo with change $r1 (want !=0), without $r0 (want 0); check $2 exit $rc: $(grep -m1 -- '->' /tmp/w/check.log | cut -c1-200)"
tail -2 /tmp/w/demo1.log; [ $r0 = 0 ] || tail -3 /tmp/w/demo0.log
