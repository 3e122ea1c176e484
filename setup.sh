#!/bin/bash
# Builds the simulator once; every check rebuilds what it needs from /repo's working tree again.
cd "$(dirname "$0")" || exit 2
exec ./build.sh
