# Go environment of the simulation build: offline, nothing outside /verif written.
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod} GOCACHE=$here/.cache/go-build
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod GOTELEMETRY=off
