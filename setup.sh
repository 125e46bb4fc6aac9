#!/bin/bash
# Builds the framework once, which fills the build cache; every check builds again from /repo's working tree.
. /opt/vp/env.sh
work=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 1
trap 'case $work in /tmp/verif-build-*) rm -rf -- "$work" ;; esac' EXIT
cd "$(dirname "$0")/harness" || exit 1
cp go.mod go.sum "$work/"
go build -modfile="$work/go.mod" -o "$work/" ./cmd/... && go build -modfile="$work/go.mod" -race -o "$work/" ./cmd/filt
