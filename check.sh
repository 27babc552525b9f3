#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verify the contracts of PROPERTY against the code now in /repo
cd "$(dirname "$0")" || exit 3
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p .build evidence
(cd gov && GOFLAGS=-mod=vendor go build -o "../.build/gov.$$" .) || exit 3
mv -f ".build/gov.$$" .build/gov
exec .build/gov check -prop "$id" -spec "contracts/$id.gov" -repo /repo -evidence "evidence/$id.json" \
  -replay .build/replay -harness harness/run.sh -known known-findings.txt -tier "$tier"
