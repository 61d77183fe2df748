#!/bin/bash
# check.sh PROPERTY: builds the simulator around the code now in /repo and runs
# the simulations that decide the property. VERIF_SEED and VERIF_TIER are
# honoured; SIM_RUNS and SIM_SECONDS override the budget.
# check.sh replay FILE: replays a violation.
# check.sh build: only builds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
repo=${SIM_REPO:-/repo}/src
what=${1:?property}
out=${SIM_BUILD:-$here/build}
mkdir -p "$out" || exit 3
begin=$(date +%s.%N)
(
  flock 9
  cp "$repo/go.mod" "$repo/go.sum" "$out/" || exit 3
  (cd "$here/sim/gen" && GO111MODULE=off GOFLAGS= go build -o "$out/gen" .) || exit 3
  "$out/gen" -repo "$repo" -sim "$here/sim" -out "$out" -modfile "$out/go.mod" > "$out/gen.log" || { cat "$out/gen.log" >&2; exit 3; }
  cd "$repo" || exit 3
  go build -modfile "$out/go.mod" -overlay "$out/overlay.json" -o "$out/harness" ./verifsim/harness || exit 3
  if [ "$what" = P07 ] || [ "$what" = build ] || [ "$what" = replay ]; then
    CGO_ENABLED=1 go build -race -modfile "$out/go.mod" -overlay "$out/overlay.json" -o "$out/harness-race" ./verifsim/harness || exit 3
  fi
) 9> "$out/lock" || { echo "check.sh: the build failed" >&2; exit 3; }
built=$(echo "$(date +%s.%N) $begin" | awk '{print $1-$2}')
cd "$here" || exit 3
case $what in
  build) exit 0 ;;
  replay)
    bin=harness
    grep -q '"property": "P07"' "$2" && bin=harness-race
    exec "$out/$bin" replay "$2" ;;
esac
exec "$out/harness" check -property "$what" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" \
  -dir "$here" -build "$built" -racebin "$out/harness-race" -runs "${SIM_RUNS:-0}" -seconds "${SIM_SECONDS:-0}"
