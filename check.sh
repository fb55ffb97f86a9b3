#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current working tree
P=$1
D=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
mkdir -p "$D/bin" "$D/evidence" "$D/replays"
if ! (cd "$D/engine" && go build -o "$D/bin/ve" .) >"$D/replays/$P-build.txt" 2>&1; then
  cat "$D/replays/$P-build.txt"; echo "the engine does not build"; exit 2
fi
bash "$D/replay/overlay.sh" "$R" >"$D/bin/overlay-$P.json"
export VERIF_REPLAY=
if (cd "$R" && go build -overlay "$D/bin/overlay-$P.json" -o "$D/bin/replay-$P" ./zz_verif_replay) >"$D/replays/$P-build.txt" 2>&1; then
  VERIF_REPLAY="$D/bin/replay-$P"
else
  echo "the search program does not build against this tree (failing inputs will not be searched):"
  head -5 "$D/replays/$P-build.txt"
fi
exec "$D/bin/ve" check -prop "$P" -tier "${VERIF_TIER:-quick}" -repo "$R" -verif "$D"
