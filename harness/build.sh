#!/bin/bash
# build.sh REPO OUT asan|tsan PROGRAM...: compiles the engine's sources and the search programs into OUT.
set -u
REPO=$1; OUT=$2; KIND=$3; shift 3
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/$KIND"
case $KIND in
asan) SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined" ;;
tsan) SAN="-fsanitize=thread" ;;
esac
FL="-std=gnu++20 -O1 -g1 -w $SAN -pthread -I$REPO -I$REPO/PTN_Engine/include -I$REPO/PTN_Engine -I$REPO/PTN_Engine/ImportExport/include -I$REPO/PTN_Engine/ImportExport/XML/src -I$REPO/PTN_Engine/ImportExport"
{
	find "$REPO/PTN_Engine" -name '*.cpp' | while read -r f; do
		echo "$f $OUT/$KIND/$(echo "${f#"$REPO"/}" | tr / _).o lib"
	done
	for p in "$@"; do echo "$HERE/$p.cpp $OUT/$KIND/prog_$p.o prog"; done
} > "$OUT/$KIND/list"
xargs -P 8 -L 1 sh -c 'g++ '"$FL"' -c "$0" -o "$1" 2> "$1.log" || echo "cannot compile $0"' < "$OUT/$KIND/list"
rc=0
for p in "$@"; do
	g++ $SAN -pthread -o "$OUT/$KIND/$p" "$OUT/$KIND/prog_$p.o" "$OUT/$KIND"/PTN_Engine_*.o -lpugixml 2> "$OUT/$KIND/$p.link.log" || { echo "cannot link $p"; rc=1; }
done
exit $rc
