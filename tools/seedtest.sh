#!/bin/bash
# seedtest.sh ID: does seeded/ID apply, build, pass the tests and fail its demonstration? (run in a scratch copy bound over nothing: uses /tmp/seedw)
# The demo and tests name /repo through their working directory only.
set -u
S=/verif/seeded/$1; W=/tmp/seedw
. /opt/vp/env.sh; unset OLDPWD
rm -rf "$W"; cp -a /repo $W; cd $W
bash $S/demo.sh >/tmp/demo.out 2>&1 || { echo "demo fails on the unchanged tree"; tail -5 /tmp/demo.out; exit 1; }
git apply $S/patch.diff || exit 1
go build ./... || exit 1
go test ./... 2>&1 | grep -v 'no test files' | grep -v '^ok' | tail -15
bash $S/demo.sh >/tmp/demo.out 2>&1 && { echo "demo passes with the patch"; exit 1; }
echo "seed $1 ok: demo:"; tail -3 /tmp/demo.out
