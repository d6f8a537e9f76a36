#!/bin/bash
# bash tools/bug.sh ID [quick|notest|checks "C01 C02"]: one planted bug in throw-away overlays of /repo, /opt and /verif.
# Needs the privilege to mount in a namespace of its own; only used while developing.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; mode=${2:-full}; props=$3
exec unshare -m bash -s "$here" "$id" "$mode" "$props" <<'IN'
here=$1; id=$2; mode=$3; props=$4
up=/tmp/bug_$id_$$; mkdir -p "$up"
mount -t tmpfs none "$up"
mkdir -p "$up"/{ru,rw,ou,ow,vu,vw,bug}
cp -r "$here/seeded/$id/." "$up/bug"
mount -t overlay overlay -o lowerdir=/repo,upperdir=$up/ru,workdir=$up/rw /repo
mount -t overlay overlay -o lowerdir=/opt,upperdir=$up/ou,workdir=$up/ow /opt
mount -t overlay overlay -o lowerdir="$here",upperdir=$up/vu,workdir=$up/vw "$here"
unset VIRTUAL_ENV
cd /repo
say() { echo "[$id] $*"; }
run_demo() { (cd /repo && timeout 300 bash "$up/bug/demo.sh" > "$up/demo.log" 2>&1); }
prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$up/bug/meta.json")
[ -n "$props" ] || props=$prop
if [ "$mode" != checks ]; then
  run_demo && say "demo clean ok" || { say "DEMO FAILS ON CLEAN TREE"; tail -5 "$up/demo.log"; }
fi
git -C /repo apply "$up/bug/patch.diff" || { say "PATCH DOES NOT APPLY"; exit 1; }
if grep -q '^+++ .*\.\(hpp\|cpp\)' "$up/bug/patch.diff"; then bash /opt/vp/build.sh > "$up/build.log" 2>&1 || { say "BUILD FAILS"; tail -20 "$up/build.log"; exit 1; }; fi
if [ "$mode" != checks ]; then
  run_demo && say "DEMO DOES NOT FAIL WITH PATCH" || say "demo fails with patch ok ($(tail -1 "$up/demo.log"))"
fi
if [ "$mode" = full ]; then
  bash /opt/vp/test.sh "$up/o.json" > "$up/test.log" 2>&1
  python3 - "$up/o.json" "$id" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))
def names(x):
    for k in ("passed","pass","stable"):
        if k in x: return set(x[k])
    return set(x)
miss=names(b)-names(o)
print(f"[{sys.argv[2]}] tests:", "all pass" if not miss else f"TESTS BREAK {sorted(miss)[:5]}")
P
fi
if [ "$mode" != notest ]; then
for p in $props; do
  ( cd "$here" && VERIF_SEED=1 timeout 900 ./check $p --tier quick > "$up/check.log" 2>&1; c=$?
    [ $c = 1 ] && say "CAUGHT by $p: $(grep -m1 '\[' "$up/check.log" | cut -c1-220)" || say "missed by $p (exit $c) $(tail -1 "$up/check.log" | cut -c1-200)" )
done
fi
cd /; umount -l /opt /repo "$here" 2>/dev/null; umount -l "$up"; 
IN
