#!/bin/bash
# run.sh PROPERTY TIER [options]: builds the checker from the working tree of /repo and
# decides one property. See DESIGN.md.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
prop="$1" tier="$2"
shift 2
export VERIF_TIER="$tier"
what="" bin=mc
if [ "$prop" = C19 ]; then
	what=race bin=mc-race
	export GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
fi
"$root/build.sh" $what || { echo "build failed" >&2; exit 2; }
cd "$root" || exit 2
exec "$root/bin/$bin" -prop "$prop" -tier "$tier" -root "$root" "$@"
