#!/bin/bash
# replay.sh DRIVER CONTRACT REPLAYFILE : rebuild the driver natively from /repo and re-run the recorded case
d=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d)
python3-vt -c "
import sys; sys.path.insert(0,'$d/engine'); import prove
print(prove.compile_native('$d/drivers/$1','$t/x')[1])"
ASAN_OPTIONS=detect_leaks=0 "$t/x" --replay "$2" "$3" --ms 600000
rc=$?
rm -rf "$t"
exit $rc
