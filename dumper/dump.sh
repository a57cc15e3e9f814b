#!/bin/bash
# dump.sh OUT.json [PACKAGE CRATE]: extract the MIR of the harness crate + everything reachable in /repo, or of the functions of a binary of /repo
set -e
B=/verif/.build
mkdir -p $B
S=$(rustc +nightly --print sysroot)
if [ ! -x $B/dump ] || [ /verif/dumper/dump.rs -nt $B/dump ]; then
  rustc +nightly --edition 2021 -O /verif/dumper/dump.rs -o $B/dump.tmp -C link-arg=-Wl,-rpath,$S/lib >$B/dump.log 2>&1
  mv $B/dump.tmp $B/dump
fi
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTC_WORKSPACE_WRAPPER=$B/dump DV_CRATE=dvharness DV_OUT=$1
export DV_ALLOW="$(tr '\n' ';' < /verif/dumper/allow.txt)"
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Zub-checks=no"
unset RUSTC_WRAPPER
rm -f "$1"
if [ -n "$2" ]; then
  export DV_CRATE=$3 DV_TYPE=bin
  rm -rf "$B/mircli/debug/build/$2" "$B"/mircli/debug/.fingerprint/"$2"-*
  cd /repo
  cargo check --offline --locked -p $2 --bins --target-dir $B/mircli >$B/mircli.log 2>&1 || { tail -40 $B/mircli.log; exit 3; }
  test -s "$1"
  exit 0
fi
touch /verif/harness/src/main.rs
cd /verif/harness
cargo check --offline --locked --target-dir $B/mir >$B/mir.log 2>&1 || { tail -40 $B/mir.log; exit 3; }
test -s "$1"
