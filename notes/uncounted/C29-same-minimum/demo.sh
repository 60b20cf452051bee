#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -I$R/test_runner/random_test_runner/include $here/demo.cpp -o $T/demo
timeout 20 $T/demo
