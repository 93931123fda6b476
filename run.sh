#!/bin/bash
# usage: run.sh <property id> [--replay FILE | --facet NAME | --cases N]
# Builds the harness of the property from /repo's working tree and runs it.
# exit 0: held; exit 1: VIOLATION line; anything else: no answer.
id="$1"
root="$(cd "$(dirname "$0")" && pwd)"
case "$id" in
  C01|C02|C03) pkg=alg ;;
  C04|C05|C06|C07|C08) pkg=field ;;
  C09|C10|C11) pkg=curve ;;
  C12|C13|C14) pkg=merkle ;;
  C15|C16|C17) pkg=misc ;;
  C18|C19|C20|C21|C22|C23|C24|C25|C26|C27|C28|C29|C30) pkg=stark ;;
  C31) pkg=nostd ;;
  *) echo "unknown property '$id'"; exit 2 ;;
esac
export HOME=/root
export PATH=/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
# lints of the code under test are not our business; --cap-lints is needed to build it at all
export RUSTFLAGS="-C target-cpu=x86-64-v2 --cap-lints warn"
export CARGO_TARGET_DIR="$root/target"
export VERIF_ROOT="$root"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
mkdir -p "$root/logs" "$root/evidence" "$root/replay"
cd "$root/harness/$pkg" || exit 2
log="$root/logs/build-$pkg.log"
if ! cargo build --release --offline --locked >"$log" 2>&1; then
  grep -E -A12 '^error' "$log" | head -60
  echo "build of harness '$pkg' failed: no answer"
  exit 2
fi
limit=840
[ "$VERIF_TIER" = thorough ] && limit=10800
timeout -k 10 "$limit" "$root/target/release/$pkg" "$@" 2>"$root/logs/$id.err"
code=$?
[ $code = 0 ] || [ $code = 1 ] || echo "exit code $code: no answer"
exit $code
