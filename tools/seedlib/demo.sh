#!/bin/bash
# builds demo.c against the sources in the current directory (amelie checkout) and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
inc=()
for d in amelie/runtime amelie/server amelie/db; do
	inc+=(-I$d)
	for s in $d/*/; do inc+=(-I${s%/}); done
done
libs=$(cat "$here/libs" 2>/dev/null)
if ! clang -D_GNU_SOURCE -g -O1 -w -fsanitize=address -fno-omit-frame-pointer "${inc[@]}" -I. -I"$here" \
	"$here/demo.c" -o "$tmp/demo" -lm -lpthread $libs -Wl,--unresolved-symbols=ignore-all; then
	echo "demo does not build"
	exit 1
fi
cd "$tmp" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
