#!/bin/bash
# Compiles the harness once, so that the checks find their dependencies cached.
cd "$(dirname "$0")/harness" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
go version || exit 1
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
for pkg in delta index recdb helpers domain api proc; do
  go test -c -vet=off -o "$tmp/$pkg.test" ./$pkg || exit 1
done
for pkg in helpers domain api; do
  go test -c -race -vet=off -o "$tmp/$pkg.race" ./$pkg || exit 1
done
go build -buildvcs=false -o "$tmp/recengine" recengine
