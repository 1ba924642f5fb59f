# Go environment used by every script here (same toolchain as /opt/vp/env.sh).
export HOME=/root GOROOT=/opt/veriftools/go1.27.3
export PATH="$GOROOT/bin:$PATH"
export GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
