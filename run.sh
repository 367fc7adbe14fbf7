#!/bin/bash
# run.sh ID            check one property (VERIF_SEED, VERIF_TIER)
# run.sh replay FILE   re-execute a scenario file
# run.sh build         only build;  any other arguments go to wfsim
home=$(cd "$(dirname "$0")" && pwd)
export WFSIM_HOME=$home RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
b=$home/.build
case "$*" in C30*|selftest*|*" C30 "*|replay*C30-*) matchers=1 ;; esac
. "$home/tools/build.sh" || { echo "wfsim: build failed" >&2; exit 2; }
export WFSIM_NODES=$b/nodes/debug WFSIM_IO=$b/wfsim_io.so
case "$1" in
build) matchers=1; (. "$home/tools/build.sh") || echo "wfsim: no matchers" >&2; exit 0 ;;
C[0-9]*) exec "$sim/debug/wfsim" check "$1" ;;
*) exec "$sim/debug/wfsim" "$@" ;;
esac
