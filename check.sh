#!/bin/bash
# check.sh PROPERTY quick|thorough : builds the engine and decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_engine || { echo "engine does not build"; exit 2; }
exec ./.bin/gosx -prop "$1" -tier "${2:-quick}"
