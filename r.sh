#!/bin/bash
# dev helper: r.sh BIN "scenario:bounds[:arg]" ...   builds once, runs each
b=$1; shift
python3 /verif/mcbuild.py $b >/tmp/build.log 2>&1 || { tail -25 /tmp/build.log; exit 2; }
for x in "$@"; do IFS=: read -r s bo a <<<"$x"; /verif/b.sh $b $s "$bo" ${a:+--arg $a}; done
