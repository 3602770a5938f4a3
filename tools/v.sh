#!/bin/bash
# v.sh Cxx [options]: the failing obligations of a check, shortened
cd /verif; python3-vt check.py "$@" -v 2>&1 | grep -v "^('.*, 0, [0-9.]*, {.*})" | grep -v exhausted | sed "s/'status'.*'detail'/../" | cut -c1-400 | awk '!s[$0]++' | head -${N:-25}
