#!/bin/bash
# run.sh <property> [args]: build the property's check against /repo's working tree and run it.
# exit 0 = held, 1 = violation (VIOLATION line on stdout), anything else = the check itself failed
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
prop=${1:?usage: run.sh PROPERTY}; shift
bin=$(printf %s "$prop" | tr 'A-Z' 'a-z')
mkdir -p "$here/evidence" "$here/replays" "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build-$bin.log"
ulimit -c 0
cd "$here/harness" || exit 2
built=
extra=; case "$prop" in C07|C28) extra=,portable;; esac
for feat in "hooks$extra" "hooks" "${extra#,}" ""; do
  if cargo build --offline --features "$feat" --bin "$bin" > "$log" 2>&1; then built=1; break; fi
done
if [ -z "$built" ]; then
  cat "$log" >&2
  echo "check $prop: build failed" >&2
  exit 2
fi
ulimit -v $((20 * 1024 * 1024))
export VERIF_HOOKS=$feat
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
