#!/bin/bash
# Builds the repository's own C++ gtests against the stand-in dependencies and runs them (not a check; used
# to see that the fixes keep the existing tests passing). native_tests.sh [REPO]
set -e
R=${1:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); B=$(mktemp -d /tmp/nt.XXXXXX); cd "$B"
I="-I$V/stubs -I$V/src -I$R/src/api -I$R/src -I$R/src/xmss-alt -I$R/src/qrl -I$R/src/shasha -I$R/src/dilithium -I$R/src/kyber"
ls "$R"/src/xmss-alt/*.c "$R"/src/qrl/*.cpp "$R"/src/shasha/*.cpp "$R"/src/dilithium/*.cpp "$R"/src/kyber/*.cpp "$V"/src/mock_pq.cpp "$R"/tests/cpp/qrl/*.cpp "$R"/tests/cpp/shasha/*.cpp "$R"/tests/cpp/dilithium/dilithium_test.cpp "$R"/tests/cpp/kyber/kyber_test.cpp > list
xargs -a list -P8 -I{} sh -c 'g++ -x c++ -std=c++17 -O2 -w -pthread -DVERIF_DIR="\"'$V'\"" '"$I"' -c {} -o $(echo {} | tr / _).o'
g++ -pthread *.o $(ls "$V"/src/ref.o 2>/dev/null) -lgtest -lgtest_main -o t 2>link.log || { g++ -x c++ -std=c++17 -O2 -w $I -DVERIF_DIR="\"$V\"" -c "$V/src/ref.cpp" -o ref.o; g++ -pthread *.o -lgtest -lgtest_main -o t; }
./t 2>&1 | tail -5
cd /; rm -rf "$B"
