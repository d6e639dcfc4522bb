#!/bin/bash
# plant.sh ID [tests] [CHECK ...]: try one planted bug in a private copy of /repo, /opt/vp and /verif
# (mount namespace; nothing real is touched).  Prints: demo on clean tree, build, demo with the bug,
# stable tests (if asked), and what each named check says.
id=$1; shift
tests=0; [ "$1" = tests ] && { tests=1; shift; }
S=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$S/repo"; cp -a /opt/vp "$S/vp"; mkdir "$S/verif"; (cd /verif && cp -a check.py cpp vf tools known_findings.txt "$S/verif/"); cp -a "/verif/seeded/$id" "$S/demo"
rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
unshare -m bash -s -- "$S" "$id" "$tests" "$@" <<'IN'
S=$1; id=$2; tests=$3; shift 3
P=/verif/seeded/$id/patch.diff; cp "$P" "$S/p.diff"
mount --bind "$S/repo" /repo; mount --bind "$S/vp" /opt/vp; mount --bind "$S/verif" /verif
cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh > "$S/b0.log" 2>&1 || echo "$id: CLEAN BUILD FAILED"
timeout 300 bash "$S/demo/demo.sh" > "$S/d0.log" 2>&1; d0=$?
git apply "$S/p.diff" || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh > "$S/b1.log" 2>&1 || { echo "$id: BUILD FAILED"; tail -20 "$S/b1.log"; exit 1; }
timeout 300 bash "$S/demo/demo.sh" > "$S/d1.log" 2>&1; d1=$?
echo "$id: demo clean=$d0 bug=$d1"
[ $d0 = 0 ] || tail -15 "$S/d0.log"
[ $d1 != 0 ] || tail -15 "$S/d1.log"
if [ $tests = 1 ]; then
  bash /opt/vp/test.sh "$S/t.json" > "$S/t.log" 2>&1
  /usr/bin/python3 - "$S/t.json" "$id" <<'PY'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(sys.argv[1]))
stable = b.get('stable') or b.get('passed') or b
ok = set(r.get('passed', []))
bad = [t for t in stable if t not in ok]
print(f"{sys.argv[2]}: tests {len(stable)-len(bad)}/{len(stable)} stable pass; missing: {bad[:8]}")
import subprocess, os
for t in bad[:10]:  # again, alone (several runs side by side disturb each other's timing)
    m, _, n = t.partition("::")
    n = n.replace("127.0.0.1:PORT]", "") .split("[")[0]
    r = subprocess.run(["tini", "-s", "--", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=100", m.replace(".", "/") + ".py::" + n],
                       cwd="/repo/python", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(f"{sys.argv[2]}:   alone {t}: {'pass' if r.returncode == 0 else 'FAIL ' + r.stdout[-300:]}")
PY
fi
for c in "$@"; do
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py "$c" 2>&1); rc=$?
  echo "$id: $c rc=$rc $(echo "$out" | grep -E 'VIOLATION' | head -1 | cut -c1-60)"; [ $rc = 0 ] || echo "$out" | head -2 | cut -c1-400
done
IN
rm -rf "$S"
