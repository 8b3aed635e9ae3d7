#!/bin/bash
# usage: check.sh <property id> <quick|thorough>   builds the harness against /repo's working tree and runs one check
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/tools/env.sh"
"$here/tools/build.sh" "$1" >&2 || { echo "harness build failed" >&2; exit 3; }
bin="$here/mc/target/release/hmc"
case "$1" in
  C25) bin="$here/conc/target/release/hmc-conc";;
  C27) bin="$here/ffi/target/release/hmc-ffi";;
esac
exec "$bin" check "$1" "$2"
