#!/bin/bash
# run.sh PROP bounded|search TIER REPO : build the harness against REPO and run it
here="$(cd "$(dirname "$0")" && pwd)"
prop=$1; mode=$2; tier=$3; repo=$4
out="$(mktemp -d)"
trap 'rm -r -- "$out"' EXIT
sed "s#=> /repo#=> $repo#" "$here/go.mod" > "$out/go.mod"
cp "$here/go.sum" "$out/go.sum"
cd "$here" || exit 3
GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOPROXY=off go build -modfile="$out/go.mod" -o "$out/h" . || { echo "HARNESS-BUILD-FAILED"; exit 3; }
timeout -k 5 240 "$out/h" "$prop" "$mode" "$tier"
