#!/bin/bash
# Builds the checker and the command under test from the working tree of /repo.
# "build.sh race" builds the checker for concurrency instead: the library with scheduling
# points (in an overlay, outside /repo) and the race detector.
root="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$root/bin" "$root/work"
cd "$root/mc" || exit 2
if [ "${1:-}" = race ]; then
	go build -o "$root/bin/instr" ./cmd/instr || exit 2
	w="$root/work/instr"
	export CGO_ENABLED=1
	if "$root/bin/instr" /repo "$w" && go build -race -overlay "$w/overlay.json" -o "$root/bin/mc-race" .; then
		exit 0
	fi
	echo "building without scheduling points" >&2
	go build -race -o "$root/bin/mc-race" . || exit 2
	exit 0
fi
go build -o "$root/bin/mc" . || exit 2
cd /repo || exit 2
go build -mod=readonly -o "$root/bin/ssarules" ./cmd/ssarules || exit 2
