#!/bin/bash
# try.sh ID: applies seeded/ID to a copy of /repo, which is mounted over /repo in a namespace of its own, and reports
# whether it builds, whether the stable tests pass and what the demonstration says with and without it.
# A second argument lists the checks to run against it there.
id=$1; checks=$2
V=${VERIF:-/verif}; S=/var/tmp/seed/$id
rm -rf "/var/tmp/seed/$id"; mkdir -p $S
cp -a /repo $S/repo
mkdir $S/demo; cp -a $V/seeded/$id/. $S/demo; rm -f $S/demo/patch.diff $S/demo/meta.json
# a build made under another path is of no use there: its makefiles name that path
X=; [ "$V" = /verif ] || X=--exclude=./build
mkdir $S/verif; (cd $V && tar c --exclude=./seeded --exclude=./.git $X .) | tar x -C $S/verif
cat > $S/in.sh <<'IN'
set -u
id=$1; checks=$2; S=/var/tmp/seed/$id
ip link set lo up
mount --bind $S/repo /repo
mount --bind $S/verif /verif
mount -t tmpfs none /tmp
cd /repo
bash $S/demo/demo.sh > $S/demo-clean.log 2>&1; echo "demo clean rc=$?" 
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if bash /opt/vp/test.sh $S/test.json > $S/test.log 2>&1; then :; fi
python3 - $S/test.json <<'PY'
import json,sys
base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
r=json.load(open(sys.argv[1]))
b=json.load(open("/opt/vp/BASELINE.json"))
if base is None: base=set(b.get("passed",[]))
print("tests: passed",len(set(r["passed"])&base),"of",len(base),"missing",sorted(base-set(r["passed"]))[:5])
PY
bash $S/demo/demo.sh > $S/demo-patched.log 2>&1; echo "demo patched rc=$?"
tail -2 $S/demo-patched.log
for c in $checks; do
  VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $c > $S/check-$c.log 2>&1; echo "check $c rc=$? $(grep -a VIOLATION $S/check-$c.log | head -1)"
done
IN
cp $V/seeded/$id/patch.diff $S/patch.diff
unshare -Urmn --propagation private bash $S/in.sh "$id" "$checks" 2>&1 | sed "s/^/[$id] /"
[ -n "${KEEP:-}" ] || rm -rf "/var/tmp/seed/$id/repo" "/var/tmp/seed/$id/verif"
