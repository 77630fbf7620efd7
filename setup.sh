#!/bin/bash
# Builds the engine and warms Go's build cache with one native replay build.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_engine || exit 1
./.bin/gosx -prop A01 -h ZZA01Ops -t 5 >/dev/null 2>&1
exit 0
