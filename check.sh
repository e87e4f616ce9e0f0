#!/bin/bash
# check.sh <PID> [-tier thorough]: decide one property on /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 1
V=$(pwd)
id=$1
fail() {
  mkdir -p out evidence
  echo "[{\"rule\":\"build\",\"msg\":\"$1\"}]" > "out/$id.violations.json"
  echo "$1"
  echo "VIOLATION property=$id replay=$V/out/$id.violations.json"
  exit 1
}
./setup.sh > out.build.$$ 2>&1 || { cat out.build.$$; rm -f out.build.$$; fail "the analyser does not build"; }
rm -f out.build.$$
. /opt/vp/env.sh
export KYVELINT_VERIF=$V
exec "$V/bin/kyvelint" check "$@"
