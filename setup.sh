#!/bin/bash
# Warms the build cache; the checks rebuild everything themselves and do not depend on it.
VERIF=$(cd "$(dirname "$0")" && pwd)
ZK_WARM=1 bash "$VERIF/run.sh" C17 quick >/dev/null 2>&1
exit 0
