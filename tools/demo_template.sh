#!/bin/bash
# Compiles the sources of the repository together with demo.c and runs the result.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
src=$(ls "$PWD"/src/*.c | grep -v -e _win.c -e conn_wsa_errno.c -e proxyd.c -e service.c)
gcc -g -O1 -w -D_GNU_SOURCE -DOPENELP_VERSION=demo -DOPENELP_API= -DPCRE2_CODE_UNIT_WIDTH=8 \
  -DHAVE_SYSLOG=1 -I"$PWD/include" -I"$d" @FLAGS@ "$d/demo.c" $src -o "$t/demo" -lpcre2-8 -lpthread
rc=$?
if [ $rc -eq 0 ]; then
  (cd "$t" && @ENV@ timeout -s KILL 120 ./demo)
  rc=$?
fi
rm -f "$t/demo" "$t/file"
rmdir "$t"
exit $rc
