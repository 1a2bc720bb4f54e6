#!/bin/bash
# builds and runs the repository's offline tests from a scratch copy
W=$1; B=$W/_st; mkdir -p $B; cd $B; cp -r $W/tests/fixtures . 
( g++ -std=c++20 -O1 -w -I$W/include -I$W/src -DADA_TESTING=1 -c $W/src/idna.cpp -o idna.o ) || exit 2
for t in identifier mapping punycode raw_inflate safety to_ascii to_unicode; do
 ( g++ -std=c++20 -O1 -w -I$W/include -I$W/src -I$W/tests $W/tests/${t}_tests.cpp idna.o -lgtest -lgtest_main -pthread -o $t && ./$t >$t.log 2>&1; echo $? > $t.rc ) &
done; wait
for t in identifier mapping punycode raw_inflate safety to_ascii to_unicode; do
 [ "$(cat $t.rc)" = 0 ] || { echo "$t failed"; grep -E 'FAILED|Failure' $t.log | head -5; exit 1; }
done
