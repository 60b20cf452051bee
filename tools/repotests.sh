#!/bin/bash
# Validates the stand-ins: builds the repository's own tests (those the baseline cannot build) and runs them.
export VERIF_REPO_TESTS=1
cd /verif
names=$(python3 -c "
import vbuild,targets
print(*[n for n in targets.define(vbuild.R,vbuild.V,vbuild.GEN)[1] if n.startswith('rt_') and '$1' in n])")
python3 vbuild.py $names || exit 1
for n in $names; do echo "== $n"; (cd /tmp; ASAN_OPTIONS=detect_leaks=0 timeout 300 /verif/build/bin/$n 2>&1 | grep -E "FAILED|PASSED|ERROR|runtime error" | head -20); done
