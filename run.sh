#!/bin/bash
# run.sh <property> <quick|thorough>: builds the analyser and decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
bin=$(mktemp -d "${TMPDIR:-/tmp}/zkcheck.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
(cd checker && "$GOBIN_TOOL" build -o "$bin/zkcheck" ./cmd/zkcheck) || exit 2
"$bin/zkcheck" -prop "$1" -tier "${2:-quick}" -repo "${ZK_REPO:-/repo}" -root "$PWD"
