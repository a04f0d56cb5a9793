#!/bin/bash
# all.sh: run every check (quick) four at a time and print the last line of each
cd "$(dirname "$0")/.."
ls props/P??.py | sed 's/.*\(P..\).*/\1/' | xargs -P ${J:-6} -I{} sh -c 'python3 check.py {} quick > /tmp/all.{}.log 2>&1; echo "{} rc=$? $(tail -1 /tmp/all.{}.log | cut -c1-200)"' | sort
