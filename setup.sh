#!/bin/bash
# Builds the checker, to show that it does and to fill the build cache.
cd "$(dirname "$0")" || exit 1
. ./env.sh
exec go build -o /dev/null ./cmd/scverify
