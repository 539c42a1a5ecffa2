#!/bin/sh
# run with cwd /repo after the build; FLAGS and the program lie beside this file
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
flags=""
[ -f "$d/flags" ] && flags=$(cat "$d/flags")
${CC:-gcc} -w -g $flags -fno-strict-aliasing -I"$d" -Isrc/vm src/vm/vm.c "$d/demo.c" -o "$t/demo" -lpthread || exit 9
timeout 120 "$t/demo" > "$t/out" 2>"$t/err"
rc=$?
tail -5 "$t/err"
exit $rc
