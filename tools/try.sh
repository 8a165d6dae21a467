#!/bin/bash
# try.sh PATCH PROP...: applies a patch to /repo, runs the checks, undoes it
P=$(realpath "$1"); shift
git -C /repo apply "$P" || exit 3
for c in "$@"; do python3 /verif/check.py $c | tail -8; done
git -C /repo checkout -- .
