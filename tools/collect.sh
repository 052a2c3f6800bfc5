#!/bin/bash
# collect.sh exe seed to block : run a harness in blocks, restart after a crash, print VIOL lines and crash summaries
exe=$1; seed=$2; to=$3; blk=${4:-50}
export ASAN_OPTIONS=detect_leaks=0:exitcode=66 UBSAN_OPTIONS=print_stacktrace=1 SCOTCH_PTHREAD_NUMBER=1
seq 0 $blk $((to-1)) | xargs -P 8 -I{} bash -c 'timeout 300 '$exe' --seed '$seed' --from {} --to $(( {} + '$blk' )) 2>&1 | grep -a "^VIOL\|SUMMARY\|runtime error"; true'
