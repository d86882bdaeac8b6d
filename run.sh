#!/bin/bash
# run.sh ID [-list | -item N]: build the harness for property ID from /repo's
# current working tree and run its exploration (VERIF_TIER=quick|thorough).
set -u
ID=${1:?usage: run.sh ID [-list|-item N]}
shift
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT=$here VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
T0=$SECONDS
. /opt/vp/env.sh
cd "$here/go" || exit 0
S=$(mktemp -d /tmp/verif-run.XXXXXXXX) || exit 0
cleanup() { case "$S" in /tmp/verif-run.????????) rm -rf "$S" ;; esac; }
trap cleanup EXIT
export VERIF_SCRATCH=$S

noanswer() { # the machinery could not decide: no alarm, but say so in the evidence
  mkdir -p "$here/evidence"
  python3 - "$here/evidence/$ID.json" "$ID" "$1" $((SECONDS - T0)) <<'PY'
import json, os, sys
out, pid, why, wall = sys.argv[1:5]
json.dump({"property": pid, "tier": os.environ["VERIF_TIER"], "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
  "level": "exploration", "violations": 0, "wall_s": int(wall), "assumptions": [],
  "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "exhaustive": False, "rule": "nothing explored: " + why, "samples": [why]}}, open(out, "w"), indent=1)
PY
  echo "$ID: no answer: $1"
  exit 0
}

# build NAME MAIN CONSTS [instr flags]: $S/NAME
build() {
  mkdir -p "$S/$1.ov"
  "$S/instr" -repo /repo -out "$S/$1.ov" -consts "$3" ${4:-} >"$S/$1.log" 2>&1 || return 1
  go build -overlay "$S/$1.ov/overlay.json" -tags cppbtree -o "$S/$1" "./cmd/$2" >>"$S/$1.log" 2>&1 || return 1
}
main() { build h "$@" || { head -c 3000 "$S/h.log"; noanswer "the harness does not build against this tree"; }; }

DB='moeingads.HPFileBufferSize=16384;moeingads.DefaultHPFileSize=65536;moeingads.StartReapThres=8;moeingads.MinKeptTwigs=2'
go build -o "$S/instr" ./cmd/instr >"$S/instr.log" 2>&1 || { cat "$S/instr.log"; noanswer "the instrumenter does not build"; }
case $ID in
C01|C02|C03|C04|C05|C07|C08|C09|C10|C11|C12|C21|C22|C23) main hdb "$DB" ;;
C06)
	main hdb "$DB"
	build alt hdb 'moeingads.HPFileBufferSize=131072;moeingads.DefaultHPFileSize=131072;moeingads.StartReapThres=8;moeingads.MinKeptTwigs=2;datatree.PreReadBufSize=1000' && export VERIF_ALT=$S/alt
	;;
C15) main kv "$DB" ;;
C20)
	main kv "$DB"
	go build -modfile=go.real.mod -tags cppbtree -o "$S/real" ./cmd/kvreal >"$S/real.log" 2>&1 && export VERIF_REAL=$S/real
	;;
C16|C17)
	main store "$DB;moeingads.RootCacheSizeLimit=1;store.EvictTryDist=2;rabbit.KeySize=1"
	if [ $ID = C17 ]; then
		build alt store "$DB;moeingads.RootCacheSizeLimit=1;store.EvictTryDist=2" && export VERIF_ALT=$S/alt
	fi
	;;
C18|C19)
	main hdb "$DB;moeingads.JobChanSize=2" -sched
	# the same overlay with the race detector (not in the harness and the scheduler)
	go build -race -gcflags='verif.local/...=-race=false' -overlay "$S/h.ov/overlay.json" -tags cppbtree -o "$S/race" ./cmd/hdb >"$S/race.log" 2>&1 && export VERIF_ALT=$S/race
	;;
C13|C14) main hdb "$DB;datatree.PreReadBufSize=40" ;;
*) noanswer "unknown property" ;;
esac

if [ $# -gt 0 ]; then "$S/h" "$ID" "$@"; exit $?; fi
timeout -k 10 $((880 - (SECONDS - T0))) "$S/h" "$ID"
rc=$?
case $rc in
0|1) exit $rc ;;
*) noanswer "exploration ended with status $rc" ;;
esac
