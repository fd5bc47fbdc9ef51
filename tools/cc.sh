#!/bin/bash
# tools/cc.sh src out.bc [flags...] : compiles one harness unit the way check.py does
src=$1; out=$2; shift 2
/usr/bin/clang++-18 -std=c++20 -O1 -w -DNDEBUG -gline-tables-only -fno-vectorize -fno-slp-vectorize -DTHLS_FW_UINT_ON_MASKED_UINT=1 -I/verif/harness -I${VP_REPO:-/repo}/include "$@" -emit-llvm -c -Xclang -disable-llvm-passes /verif/harness/$src -o ${out}.raw && opt-18 -passes='cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,adce,early-cse,simplifycfg,adce)' ${out}.raw -o $out
