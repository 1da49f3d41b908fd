#!/bin/bash
# Builds the analyser once, to fail early and warm the build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence
bin=$(mktemp -d "${TMPDIR:-/tmp}/zkcheck.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
cd checker && "$GOBIN_TOOL" vet ./... && "$GOBIN_TOOL" build -o "$bin/zkcheck" ./cmd/zkcheck
