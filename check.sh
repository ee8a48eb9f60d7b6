#!/bin/sh
# usage: check.sh <PROPERTY> <quick|thorough>   or   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec python3-vt -B -m vf.run "$@"
