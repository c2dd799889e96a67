#!/bin/sh
# replay.sh <check> <case seed> [build kind: dev, asan, tsan or miri]: runs one case again, verbosely
exec python3 "$(dirname "$0")/run.py" --replay "$1" "$2" "${3:-dev}"
