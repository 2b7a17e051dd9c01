#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [extra flags]
# Builds the harness against /repo's current working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export IVY_REPO=/repo
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
prop=$1; tier=${2:-quick}; shift; shift
bin=$(mktemp -d /tmp/vcbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
case $prop in
P06)
	(cd harness && go build -o "$bin/xform" ./cmd/xform && "$bin/xform" /repo/value "$bin" bubble &&
		go build -race -overlay "$bin/overlay.json" -o "$bin/vc" ./cmd/vcrace) || { echo "check error: the harness does not build against /repo" >&2; exit 2; }
	GORACE="halt_on_error=1 exitcode=66" "$bin/vc" -prop "$prop" -tier "$tier" "$@"
	exit $?
	;;
P05)
	# The persist package is instrumented (through an overlay) for the controlled scheduler.
	(cd harness && go build -o "$bin/xform" ./cmd/xform && "$bin/xform" /repo/value/persist "$bin" &&
		go build -race -overlay "$bin/overlay.json" -o "$bin/vc" ./cmd/vcrace) || { echo "check error: the harness does not build against /repo" >&2; exit 2; }
	GORACE="halt_on_error=1 exitcode=66" "$bin/vc" -prop "$prop" -tier "$tier" "$@"
	exit $?
	;;
esac
(cd harness && go build -o "$bin/vc" ./cmd/vc) || { echo "check error: the harness does not build against /repo" >&2; exit 2; }
if [ "$prop" = P20 ] || [ "$prop" = P33 ]; then
	# The command itself is run too.
	(cd harness && go build -o "$bin/ivy" robpike.io/ivy) || { echo "check error: ivy does not build" >&2; exit 2; }
	export IVY_BIN="$bin/ivy"
fi
"$bin/vc" -prop "$prop" -tier "$tier" "$@"
exit $?
