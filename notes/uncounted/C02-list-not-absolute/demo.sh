#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -I$R/openscenario/openscenario_interpreter/include -I$R/common/scenario_simulator_exception/include $here/demo.cpp -o $T/demo
timeout 20 $T/demo
