#!/bin/bash
# usage: mut.sh PROP FILE 's/old/new/' [govc flags] — runs a check against a mutated scratch copy
d=/tmp/mutrepo
[ -d $d ] || cp -a /repo $d
(cd $d && git checkout -q -- . && git pull -q /repo 2>/dev/null; git -C $d fetch -q /repo && git -C $d reset -q --hard FETCH_HEAD)
prop=$1; f=$2; ex=$3; shift 3
perl -0pi -e "$ex" $d/$f
git -C $d diff --stat | tail -1
(cd $d && git diff | grep '^[+-]' | grep -v '^+++\|^---')
. /opt/vp/env.sh
(cd $d && go build ./$(dirname $f)) || exit 9
VERIF_REPO=$d $(dirname $0)/../checks/run.sh $prop "$@"; echo "exit $?"
git -C $d checkout -q -- .
