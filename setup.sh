#!/bin/sh
# Builds what does not depend on /repo and runs the self-test of engine T.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
python3 - <<'P'
import check
for name, (eng, dep, own, extra) in check.BINS.items():
    for s in own:
        o, err = check.build_own(s, check.P_FLAGS if eng == "T" else check.S_FLAGS)
        assert o, err
P
clang++ -std=c++17 -O1 -g -fsanitize=thread -w -mllvm -tsan-instrument-func-entry-exit=0 -c engine/selftest.cpp -o build/selftest.o
clang++ -rdynamic build/selftest.o build/obj/mc_rt.cpp.*.o -o build/selftest
build/selftest > build/selftest.log 2>&1 || { cat build/selftest.log; exit 1; }
echo "engine self-test passed"
