#!/bin/bash
# Builds the simulator and the programs under test from /repo's working tree into /verif/build.
# usage: build.sh   (exit 2: it does not build)
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
VERIF=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
cd "$VERIF" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS= CARGO_TARGET_DIR="$VERIF/build/target"
unset CARGO_PROFILE_DEV_DEBUG
mkdir -p build
exec 9> build/lock
flock 9
# cargo compares time stamps; a tree that was copied or patched may carry old ones
stamp=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat build/repo.stamp 2>/dev/null)" != "$stamp" ]; then
  rm -f build/repo.stamp
  if [ -d build/target ]; then
    (cd sim && cargo clean --offline -q -p ratelmq -p ratelmq-sim) 9>&-
    if [ -d build/pw ]; then
      (cd /repo && CARGO_TARGET_DIR="$VERIF/build/pw" cargo clean --offline -q -p ratelmq -p ratelmq-passwd) 9>&-
    fi
  fi
fi
(cd sim && cargo build --offline -q --bin ratelmq-sim) 9>&- > build/sim.log 2>&1 || { cat build/sim.log >&2; echo "build failed" >&2; exit 2; }
# the program's own main function; without it only the check that runs it has no answer
(cd sim && cargo build --offline -q --bin ratelmq-main) 9>&- > build/main.log 2>&1 || { cat build/main.log >&2; rm -f build/target/debug/ratelmq-main; }
if [ build/etcshim.so -ot pwshim/etc.c ] || [ ! -f build/etcshim.so ]; then
  gcc -O1 -fPIC -shared -o build/etcshim.so.new pwshim/etc.c > build/shim.log 2>&1 || { cat build/shim.log >&2; exit 2; }
  mv build/etcshim.so.new build/etcshim.so
fi
if [ build/pwshim.so -ot pwshim/shim.c ] || [ ! -f build/pwshim.so ]; then
  gcc -O1 -fPIC -shared -o build/pwshim.so.new pwshim/shim.c > build/shim.log 2>&1 || { cat build/shim.log >&2; exit 2; }
  mv build/pwshim.so.new build/pwshim.so
fi
# the lock file is ignored by git there; the tool is a member of /repo's workspace
[ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
(cd /repo && CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_TARGET_DIR="$VERIF/build/pw" cargo build --offline -q -p ratelmq-passwd) 9>&- > build/pw.log 2>&1 || { cat build/pw.log >&2; echo "build of ratelmq-passwd failed" >&2; exit 2; }
echo "$stamp" > build/repo.stamp
exit 0
