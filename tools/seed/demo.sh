#!/bin/bash
# exit 0 when the property holds, run with the repository as current directory
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 3; trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -g -O0 SAN -w -I include -I "$here" "$here/demo.cpp" $(ls src/*.cpp) -o "$w/demo" || exit 3
LOCALEcd "$w"; for i in $(seq RUNS); do timeout 60 ./demo || exit $?; done
