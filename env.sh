export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOSX_VERIF=$PWD GOSX_REPO=${GOSX_REPO:-/repo}
build_engine() {
	mkdir -p .bin evidence
	( flock 9; cd engine && go build -o ../.bin/gosx.new . && mv ../.bin/gosx.new ../.bin/gosx ) 9>.bin/lock
}
