#!/bin/bash
# seedtest.sh ID [PROP...]: validates seeded/ID in a private mount namespace on a copy of /repo
# (clean demo, build, stable tests, demo with the patch) and runs the given checks against it.
# Nothing in /repo or /verif is changed.
id=$1; shift
V=${VR:-/verif}
S=$(mktemp -d /tmp/seedtest.XXXXXX)
trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/repo"; cp -a $V/seeded/$id "$S/bug"; mkdir "$S/verif"
(cd $V && cp -a $(ls | grep -v -e '^seeded$' -e '^evidence$') "$S/verif/"); mkdir -p "$S/verif/evidence"
rm -f "$S"/verif/build/manual
cat > "$S/in.sh" <<'IN'
S=$1; shift
mount --bind "$S/repo" /repo || exit 9
mount --bind "$S/verif" /verif || exit 9
cd /repo
bash /opt/vp/build.sh >"$S/b.log" 2>&1 || { echo "clean build failed"; exit 1; }
timeout 300 bash "$S/bug/demo.sh" >"$S/d0.log" 2>&1; echo "demo clean: $?"
git apply "$S/bug/patch.diff" || exit 1
git diff --stat | tail -1
bash /opt/vp/test.sh "$S/t.json" >"$S/t.log" 2>&1
python3 - "$S/t.json" <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1]))
print('stable tests missing:', sorted(b-set(t['passed'])))
PY
timeout 300 bash "$S/bug/demo.sh" >"$S/d1.log" 2>&1; echo "demo patched: $?"; tail -2 "$S/d1.log"
for p in "$@"; do
  timeout 900 python3 /verif/check.py --prop $p --tier quick --seed 1 >"$S/c.log" 2>&1; echo "check $p: $? $(grep -m1 VIOLATION "$S/c.log") $(grep -m1 -i 'kind' "$S/c.log" | cut -c1-150)"
done
IN
unshare -m bash "$S/in.sh" "$S" "$@"
