#!/bin/bash
# Runs the repository's own tests that need the solver's library against its stand-in (env/sleipnir).
D=$(mktemp -d /tmp/conf.XXXX); V=$(dirname "$(dirname "$(readlink -f "$0")")")
cd /repo
ls test/src/*.cpp test/src/*/*.cpp src/*.cpp src/*/*.cpp | grep -v RustFFI | xargs -P8 -I{} sh -c 'g++ -std=c++20 -O1 -Iinclude -Isrc -Itest/include -I'$V'/env/sleipnir -c {} -o '$D'/$(echo {} | tr / _).o 2>'$D'/$(echo {} | tr / _).log || echo "does not compile: {}"'
g++ $D/*.o -o $D/t -lCatch2Main -lCatch2 -lgtest -lgtest_main -lpthread 2>$D/link.log || g++ $D/*.o -o $D/t -lgtest -lgtest_main -lpthread 2>>$D/link.log || g++ $D/*.o -o $D/t -lCatch2Main -lCatch2 -lpthread 2>>$D/link.log || tail -5 $D/link.log
$D/t; tail -n 3 $D/*.log | head -40; rm -rf $D
