#!/bin/bash
# mk.sh PID: build a harness for development
cd /verif && clang++-18 -O1 -g0 -std=c++20 -w -I/repo/src/library/include -I/repo/src/app/include -Icontracts/stubs -Iharness -Iharness/include -DBOOST_ALLOW_DEPRECATED_HEADERS -DBOOST_CHRONO_NO_LIB -DBOOST_SERIALIZATION_NO_LIB -DBOOST_THREAD_NO_LIB -DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL -D_USE_MATH_DEFINES harness/$1.cpp -o /tmp/h$1 "${@:2}" 2>&1 | grep -E "error|undefined" | cut -c1-300 | head -12
