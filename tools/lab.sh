#!/bin/bash
# lab.sh N: makes or refreshes /tmp/lab/N/{repo,verif} as copies of /repo and /verif (checks can run there with the copies mounted in place of the originals)
set -e
L=/tmp/lab/$1; mkdir -p $L/repo $L/verif
if [ ! -d $L/repo/.git ]; then rsync -a --exclude target /repo/ $L/repo/ 2>/dev/null || (cd /repo && tar cf - --exclude=./target . | (cd $L/repo && tar xf -)); fi
(cd $L/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq)
(cd /verif && tar cf - --exclude=./target --exclude=./evidence --exclude=./.git . | (cd $L/verif && tar xf -))
mkdir -p $L/verif/evidence
[ -d $L/verif/target ] || cp -a /verif/target $L/verif/target
