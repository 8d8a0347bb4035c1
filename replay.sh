#!/bin/bash
# replay.sh <replay file>: rebuild and run the one recorded case again; exit 1 if it still fails
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "${1:?usage: replay.sh FILE}")
read -r prop tier unit index < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["property"], d["tier"], d["unit"], d["index"])' "$f") || exit 2
VERIF_TIER=$tier exec "$here/run.sh" "$prop" one "$unit" "$index"
