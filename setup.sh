#!/bin/bash
# builds the verifier and the replay harness once (each check builds again what it needs)
cd "$(dirname "$0")" || exit 3
mkdir -p .build
(cd gov && GOFLAGS=-mod=vendor GOTOOLCHAIN=local go build -o ../.build/gov .) || exit 3
exit 0
