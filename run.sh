#!/bin/bash
# /verif/run.sh check PROP quick|thorough      - decide one property on /repo's working tree
# /verif/run.sh replay PROP TIER SPACE INDEX   - re-run one case of a space
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
case "${2:-}" in
  C01|C02|C03|C04|C05|C06|C07|C20) feat= ;;
  C15|C16|C17) feat=rt ;;
  *) feat=exec ;;
esac
cd "$here/harness" || exit 2
if ! cargo build --offline --features "$feat" >"$CARGO_TARGET_DIR.log" 2>&1; then
  if grep -q "^error" "$CARGO_TARGET_DIR.log"; then grep -A12 "^error" "$CARGO_TARGET_DIR.log" | head -60; else tail -20 "$CARGO_TARGET_DIR.log"; fi
  echo "harness build failed" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/mc" "$@"
