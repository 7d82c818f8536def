#!/bin/bash
# the assignment is ignored: the old error stays
# Exit 0 if the property holds in the tree in the current directory.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
timeout 250 g++ -std=c++20 -O1 -pthread -Iinclude -Isrc -I"$here" -I"$here/env" "$here/demo.cpp"  -o "$tmp/demo"
echo built
timeout 40 "$tmp/demo"
