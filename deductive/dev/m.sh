#!/bin/bash
# m.sh FN [REGEX]: assemble with REGEX and verify only FN's module
cd /verif/deductive; (CV_NOVAC=1 timeout ${A:-12} python3 run.py all --nobase --only "${2:-$1}" >/dev/null 2>&1); cd /tmp/cvded/ded
m=$(grep -n "pub mod b[0-9]* {" -B1 all.rs | grep -A1 "fn:$1\$\|struct:$1\$" | grep -o "b[0-9]* {" | tr -d ' {')
timeout ${T:-100} verus --rlimit ${RL:-20} all.rs --verify-module $m --multiple-errors 30 2>&1 | grep -A${N:-7} "^error\|verification results" | head -${3:-150}
