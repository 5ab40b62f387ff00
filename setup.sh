#!/bin/bash
# Builds the generator once (checks rebuild it themselves) and warms the build cache.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GO111MODULE=on GOWORK=off GOPROXY=off GOFLAGS=-mod=readonly
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cd "$(dirname "$0")/govc" && go build -o /dev/null . && verus --version >/dev/null
