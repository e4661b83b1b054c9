#!/bin/bash
# checkall.sh [ids]: runs the checks on /repo, three at a time (developer tool)
cd /verif
I=${*:-$(seq -f 'C%02g' 1 32)}
echo $I | tr ' ' '\n' | xargs -P 3 -I{} sh -c "python3-vt check.py {} 2>/dev/null | grep -E 'FAILED|VIOLATION|holds|failing input|error' | cut -c1-300"
