# Sourced by run.sh and setup.sh: builds simulator and nodes from /repo's working tree into .build.
mkdir -p "$b" || return 1
exec 9>"$b/lock"
flock 9
log=$b/build.log
# Cargo goes by timestamps; a tree laid down with old ones must be rebuilt all the same.
sum=$(cd /repo && find wayfinder wayfinder-cmd examples -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.routes' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat "$b/sum" 2>/dev/null)" ]; then
  for t in sim simm nodes; do
    find "$b/$t/debug" -maxdepth 2 \( -path '*/.fingerprint/wayfinder*' -o -path '*/.fingerprint/wfshim*' -o -path '*/.fingerprint/wfnodes*' -o -path '*/.fingerprint/wfsim*' \) -exec rm -rf {} + 2>/dev/null
  done
fi
(
  set -e
  cd "$home"
  if [ ! -e "$b/wfsim_io.so" ] || [ io/wfsim_io.c -nt "$b/wfsim_io.so" ]; then
    gcc -shared -fPIC -O2 -o "$b/wfsim_io.so.new" io/wfsim_io.c -ldl
    mv "$b/wfsim_io.so.new" "$b/wfsim_io.so"
  fi
  unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
  (cd nodes && CARGO_TARGET_DIR=$b/nodes cargo build --offline -q)
  if [ -n "$matchers" ]; then
    # What the generator makes of each route file, compiled into a simulator of its own.
    mkdir -p "$b/matchers"
    for r in "$home"/matchers/routes/*.routes; do
      m=$b/matchers/$(basename "$r" .routes).rs
      timeout 60 "$b/nodes/debug/wayfinder-cmd" "$r" >"$m.new"
      if cmp -s "$m.new" "$m"; then rm "$m.new"; else mv "$m.new" "$m"; fi
    done
    (cd sim && WFSIM_MATCHERS=$b/matchers RUSTC_WRAPPER=$home/tools/rustc-wrap.sh CARGO_TARGET_DIR=$b/simm cargo build --offline -q --features matchers)
    exit
  fi
  (cd sim && RUSTC_WRAPPER=$home/tools/rustc-wrap.sh CARGO_TARGET_DIR=$b/sim cargo build --offline -q)
) >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then tail -40 "$log" >&2; flock -u 9; return 1; fi
[ -n "$matchers" ] && sim=$b/simm || sim=$b/sim
echo "$sum" >"$b/sum"
flock -u 9
exec 9>&-
