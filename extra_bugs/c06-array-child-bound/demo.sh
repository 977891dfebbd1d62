#!/bin/bash
# Runs with cwd /repo.  Exit 0: the property held for this scenario.
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -g -w -fsanitize=address -I"$PWD/include" "$here/main.cc" -o "$tmp/demo" -lyaml -pthread || exit 3
export ASAN_OPTIONS=detect_leaks=1:abort_on_error=0
timeout 120 "$tmp/demo"
