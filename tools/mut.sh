#!/bin/bash
# tools/mut.sh PID file-under-include/thls/tops 'sed expression' : runs a check against a mutated scratch copy of the headers
d=$(mktemp -d /tmp/mut_XXXXXX); cp -a ${BASE:-/repo}/include $d/; f=$d/include/thls/tops/$2
cp $f $d/orig; sed -i "$3" $f; if cmp -s $f $d/orig; then echo "NO CHANGE: $3"; fi
diff $d/orig $f | grep '^>' | cut -c1-160
VP_REPO=$d python3 "$(dirname "$0")/../check.py" $1 ${@:4} | grep -v "^    at" | cut -c1-200 | tail -6; echo "exit ${PIPESTATUS[0]}"
rm -rf $d
