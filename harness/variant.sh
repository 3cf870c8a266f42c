#!/bin/bash
# harness/variant.sh NAME: another build of the library, in target-NAME
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
t=target-$1; mkdir -p $t
case "$1" in
  alloc)    f="--no-default-features --features alloc" ;;
  none)     f="--no-default-features" ;;
  nonerel)  f="--no-default-features --release" ;;
  paranoid) f="--features paranoid" ;;
  release)  f="--release" ;;
  asan)     RUSTFLAGS=-Zsanitizer=address exec cargo +nightly build --offline --target x86_64-unknown-linux-gnu --target-dir $t >$t/build.log 2>&1 ;;
  miri)     MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" exec cargo +nightly miri run --offline --quiet --target-dir $t -- noop >$t/build.log 2>&1 ;;
esac
exec cargo build --offline --target-dir $t $f >$t/build.log 2>&1
