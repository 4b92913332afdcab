#!/bin/bash
# usage: ./run.sh <property> quick|thorough      run one check
#        ./run.sh replay <file>                  re-execute a saved failing case
#        ./run.sh setup                          warm the build cache
set -u
. /opt/vp/env.sh
export VK_ROOT="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=readonly
tool="$(mktemp -d /tmp/vtool-XXXXXX)" || exit 2
trap 'rm -rf -- "$tool"' EXIT
cd "$VK_ROOT/harness" || exit 2
go build -o "$tool/vrun" ./cmd/vrun || exit 2
if [ "${1:-}" = setup ]; then
	go test -c -vet=off -o "$tool/props.test" ./props || exit 2
	exit 0
fi
cd "$VK_ROOT" || exit 2
"$tool/vrun" "$@"
