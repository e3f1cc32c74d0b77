#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides a property from /repo's current source.
cd "$(dirname "$0")" || exit 1
here=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export HOME=${HOME:-/root}
. ./env.sh
bin=$(mktemp -d /tmp/scverify.XXXXXX)
trap 'rm -rf "$bin"' EXIT
if ! out=$(go build -o "$bin/scverify" ./cmd/scverify 2>&1); then
  echo "$out"
  echo "the checker doesn't build"
  exit 2
fi
"$bin/scverify" -repo "${SCV_REPO:-/repo}" -property "$prop" -tier "$tier" -out "$here/evidence" -known "$here/known-findings.txt"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # the analysis crashed: the property wasn't shown to hold
  echo "the analysis ended with status $rc"
  echo "VIOLATION property=$prop replay=$here/evidence/$prop.violations.txt"
  exit 1
fi
exit $rc
