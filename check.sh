#!/bin/bash
# ./check.sh <property> [quick|thorough]
#                            builds the checker against /repo's working tree and checks the property
#                            (tier: the second argument, else VERIF_TIER, else quick; VERIF_SEED is recorded)
# ./check.sh replay <file>   runs one recorded execution again
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export RUQMC_DIR="$V"
B=$("$V/build.sh") || { echo "the checker does not build against /repo, see $V/target-nohook.log" >&2; exit 2; }
if [ "$1" = replay ]; then
    exec "$B" replay "$2"
fi
[ -n "$2" ] && export VERIF_TIER="$2"
exec "$B" check "$1"
