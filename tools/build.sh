#!/bin/bash
# builds the harness crate a property needs (or all of them) from /repo's working tree
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
. "$here/tools/env.sh"
build() { (cd "$here/$1" && cargo build --release --offline --locked -q 2>"$here/$1/build.log") || { tail -60 "$here/$1/build.log" >&2; return 1; }; }
case "${1:-all}" in
  C25) python3 "$here/conc/prep.py" && RUSTFLAGS=--cap-lints=allow build conc;;
  C27) RUSTFLAGS="--cap-lints=allow --cfg hyper_unstable_ffi" build ffi;;
  all) r=0
       for i in C01 C25 C27; do "$here/tools/build.sh" $i || r=1; done; exit $r;;
  *) build mc;;
esac
