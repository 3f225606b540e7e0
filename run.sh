#!/bin/bash
# run.sh setup | run.sh <property>
export HOME="${HOME:-/root}"
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
[ -d "$HOME/.rustup" ] || export HOME=/root
cd "$(dirname "$0")" || exit 2
export HWV_VERIF="${HWV_VERIF:-$PWD}"
H=hwv/target/release/hwv
build() { (cd hwv && cargo build --release --offline -q) || exit 2; }
case "$1" in
setup) build && exec "$H" setup ;;
"") echo "run.sh setup | run.sh <property>"; exit 2 ;;
*)
  if [ ! -x "$H" ]; then build && "$H" setup >/dev/null || exit 2; fi
  exec "$H" check "$1" ;;
esac
