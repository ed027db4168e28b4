# Go environment of the sandbox (offline)
export HOME=/root GOTOOLCHAIN=local GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
