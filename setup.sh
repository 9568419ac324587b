#!/bin/sh
# build the explorers once, so that later checks only rebuild what changed
cd "$(dirname "$0")" || exit 2
sh check.sh build && sh check.sh C24 build
