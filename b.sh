#!/bin/bash
# dev helper: incremental build
. /verif/env.sh; cd /verif/harness; cargo build --offline --features "${1-exec}" 2>&1 | grep -E "^(error|warning: unused|warning: unre)" -A9 | head -${2:-60}
