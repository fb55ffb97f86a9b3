#!/bin/bash
# writes the overlay that places the search program inside the module of /repo
D=$(cd "$(dirname "$0")" && pwd)
R=${1:-/repo}
echo '{"Replace": {'
sep=
for f in "$D"/src/*.go; do
  printf '%s "%s/zz_verif_replay/%s": "%s"' "$sep" "$R" "$(basename "$f")" "$f"
  sep=$',\n'
done
echo '}}'
