#!/bin/bash
# run.sh setup | run.sh check <property> [quick|thorough] | run.sh replay <file>
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
build() {
	(
		flock 9
		cd "$here/engine" && go build -o "$here/bin/engine" .
	) 9>"$here/bin/.lock"
}
build || { echo "ERROR cannot build the engine"; exit 2; }
case "$1" in
setup) echo "engine built"; exit 0 ;;
check)
	tier=${3:-${VERIF_TIER:-quick}}
	exec "$here/bin/engine" -verif "$here" -prop "$2" -tier "$tier" "${@:4}" ;;
replay) exec "$here/bin/engine" -verif "$here" -replay "$2" ;;
*) echo "usage: run.sh setup|check|replay"; exit 2 ;;
esac
