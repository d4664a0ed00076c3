#!/bin/bash
# tools/bugrun.sh ID...: applies each planted bug to a scratch copy of the sources, runs its property's quick check from a scratch copy of /verif, and its demonstration with and without the bug (linked from objects, not the repository's own build).
# SRC=/work uses /work/repo and /work/verif in place of /repo and /verif.
W=/tmp/bugrun; S=${SRC:-}; mkdir -p $W/repo $W/verif $W/clean
LIBS="-lmpc -lmpfr -lgmp -lboost_serialization -lboost_log -lboost_log_setup -lboost_filesystem -lboost_thread -lboost_chrono -lboost_regex -lboost_program_options -lboost_system -pthread"
demo() { # repo verif
  (cd $2 && VERIF_REPO=$1 python3 check.py P08 --build-only > /dev/null 2>&1); clang++ -std=c++17 -O0 -w -DBOOST_LOG_DYN_LINK -I$2/harness/include -I$1/core/include -I$1/core/include/bertini2 -I/usr/include/eigen3 $S/verif/seeded/$id/demo.cpp $2/build/clang++-O0/lib_*.o $LIBS -o $W/demo && (cd $W && timeout 200 ./demo > $W/demo.out 2>&1; echo $?)
}
sync() { rsync -a --delete --checksum --exclude .git --exclude _build --exclude python --exclude test $S/repo/core $1/; }
rsync -a --exclude build --exclude .git --exclude seeded --exclude evidence $S/verif/ $W/verif/; mkdir -p $W/vclean; rsync -a --exclude build --exclude .git --exclude seeded --exclude evidence $S/verif/ $W/vclean/
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$S/verif/seeded/$id/meta.json'))['property'])")
  sync $W/clean; sync $W/repo
  (cd $W/repo && patch -p1 -s < $S/verif/seeded/$id/patch.diff) || { echo "$id: patch failed"; continue; }
  (cd $W/verif && VERIF_REPO=$W/repo VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $p > $W/$id.log 2>&1; echo "$id $p rc=$? $(grep -m1 VIOLATION $W/$id.log) $(grep -m1 'built in' $W/$id.log)")
  [ -z "$NODEMO" ] && echo "   demo with: $(demo $W/repo $W/verif) without: $(demo $W/clean $W/vclean)"
done
