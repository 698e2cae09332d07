#!/bin/bash
# v.sh ONLY-REGEX : verify matching functions only
cd /verif/deductive; CV_NOVAC=1 timeout ${T:-200} python3 run.py all --nobase --only "$1" 2>&1 | grep -v "aborting due" | grep -v '^$' | tail -${2:-70}
