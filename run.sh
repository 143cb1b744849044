#!/bin/bash
# run.sh build            build the checker (bin/gosym) from gosym/
# run.sh check PROP       decide one property on /repo's current tree
# run.sh ...              any other gosym command
D=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$D
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
build() {
	local out=$D/bin/gosym
	if [ -x "$out" ] && [ -z "$(find "$D/gosym" -newer "$out" -name '*.go' -print -quit)" ]; then
		return 0
	fi
	mkdir -p "$D/bin"
	local tmp=$D/bin/.gosym.$$
	(cd "$D/gosym" && GO111MODULE=on GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 \
		go build -o "$tmp" .) && mv -f "$tmp" "$out"
}
build || { echo "cannot build the checker" >&2; exit 3; }
[ "$1" = build ] && exit 0
exec "$D/bin/gosym" "$@"
