#!/bin/bash
# harness/run.sh ID quick|thorough|replay FILE
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=${VERIF_DIR_OVERRIDE:-$(dirname "$PWD")}
export VERIF_SEED=${VERIF_SEED:-1}
case "$2" in
  quick|thorough) export VERIF_TIER=$2 ;;
esac
export CARGO_NET_OFFLINE=true
log=target/build.log; mkdir -p target
variants=
[ "$1" = P32 ] && variants="alloc none nonerel paranoid release"
san=
[ "$1" = P03 ] && san="asan miri"
for v in $san; do ./variant.sh $v & spids="$spids $v:$!"; done
for v in $variants; do ./variant.sh $v & pids="$pids $v:$!"; done
if ! cargo build --offline >$log 2>&1; then
  wait
  tail -40 $log; echo "cannot build the harness against /repo"; exit 2
fi
for p in $pids; do
  if ! wait ${p#*:}; then
    v=${p%:*}
    # only a compiler error says something about the library
    if grep -q '^error' target-$v/build.log && ! grep -q 'signal: ' target-$v/build.log; then
      P32_BROKEN="$P32_BROKEN $v"
    else
      tail -40 target-$v/build.log; echo "cannot build the $v variant"; exit 2
    fi
  fi
done
export P32_BROKEN
# without these, the check says so in its evidence
for p in $spids; do
  if wait ${p#*:}; then
    [ ${p%:*} = miri ] && export SAN_MIRI=1 || export SAN_ASAN=1
  fi
done
if [ "$2" = replay ]; then exec ./target/debug/harness replay "$3"; fi
exec ./target/debug/harness check "$1"
