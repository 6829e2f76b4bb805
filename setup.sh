#!/bin/bash
# Builds the harness once from the committed files (every check rebuilds it from /repo's tree as well).
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness" && cargo build --offline --features exec 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
