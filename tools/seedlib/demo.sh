#!/bin/bash
# Builds the server from the current directory, starts it on a scratch port with
# a scratch log folder, and runs demo.py against it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'kill $pid 2>/dev/null; rm -rf "$t"' EXIT
export GOPROXY=off GOFLAGS=-mod=mod
go build $BUILDFLAGS -o "$t/gredis" . || exit 3
port=$(python3 -c 'import socket;s=socket.socket();s.bind(("127.0.0.1",0));print(s.getsockname()[1])')
mkdir "$t/log"
"$t/gredis" -port $port -logdir "$t/log" -loglevel error $SERVERFLAGS >"$t/out" 2>&1 &
pid=$!
export DEMO_PORT=$port DEMO_OUT=$t/out DEMO_PID=$pid DEMO_LOG=$t/log
timeout 200 python3 "$here/demo.py"
rc=$?
exit $rc
