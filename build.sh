#!/bin/bash
# Builds the simulator against /repo's current working tree (offline).
set -e
. /opt/vp/env.sh 2>/dev/null || true
export CARGO_TARGET_DIR=/verif/sim/target CARGO_NET_OFFLINE=true
cd /verif/sim
mkdir -p target ../out
# cargo compares times of modification; what counts here is the content
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.json' -o -name '*.tera' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat target/repo.sum 2>/dev/null)" != "$sum" ]; then
  cargo clean --offline -q -p ntex-amqp -p ntex-amqp-codec 2>/dev/null || true
  rm -f /verif/sim/target/repo.sum
fi
if ! cargo build --offline -q 2>target/build.log; then
  tail -n 60 target/build.log >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
echo "$sum" > target/repo.sum
