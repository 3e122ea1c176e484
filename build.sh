#!/bin/bash
# Builds build/dst from the repository's working tree.  A simulator source that no longer compiles against
# the tree only takes its own properties out; a library source that does not compile is fatal.
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset MAKEFLAGS MAKEFILES CXXFLAGS CPPFLAGS LDFLAGS CFLAGS
REPO=${DST_REPO:-/repo}
B=${DST_BUILD:-$PWD/build}
if [ "$REPO" != /repo ] && [ -z "$DST_BUILD" ]; then echo "DST_REPO needs its own DST_BUILD" >&2; exit 2; fi
mkdir -p "$B"
if ! make -s -C sim -j"$(nproc)" REPO="$REPO" B="$B" >"$B/make.log" 2>&1; then
    tail -20 "$B/make.log" >&2
    echo "build failed: see $B/make.log" >&2
    exit 2
fi
