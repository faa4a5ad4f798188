#!/bin/bash
# replay.sh FILE: runs the operations and faults of a replay file once more,
# in the build it names. Exit 3: it shows the violation; 0: it does not.
VERIF=$(cd "$(dirname "$0")" && pwd)
dir=$("$VERIF/build.sh") || exit 2
profile=$(sed -n 's/^# profile //p' "$1" | head -1)
exec "$dir/sim-${profile:-checked}" replay "$1"
