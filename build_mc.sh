#!/bin/bash
# build_mc.sh DIR: make in DIR an instrumented copy of /repo with the checker's
# runtime and the harnesses; prints nothing on success.
set -e
W=$1
V=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root} GOSUMDB=off
mkdir -p "$W"
(cd "$R" && find pkg cmd -name '*.go' ! -name '*_test.go' -print0 | tar --null -cf - -T - go.mod go.sum) | tar -xf - -C "$W"
# the entry point becomes an importable package
if [ -d "$W/cmd/monny" ]; then
  mkdir -p "$W/clientmain"
  for f in "$W"/cmd/monny/*.go; do
    sed 's/^package main/package clientmain/' "$f" > "$W/clientmain/$(basename "$f")"
  done
  printf 'package clientmain\n\n// Main is main.\nfunc Main() { main() }\n' > "$W/clientmain/export_main.go"
fi
rm -rf "$W/cmd"
# the retry library shares our virtual time
B=$(cd "$R" && go list -m -f '{{.Dir}}' github.com/cenkalti/backoff)
mkdir -p "$W/third/backoff"
for f in "$B"/*.go; do case $f in *_test.go) ;; *) cp "$f" "$W/third/backoff/";; esac; done
chmod -R u+w "$W"
[ -f "$W/third/backoff/go.mod" ] || printf 'module github.com/cenkalti/backoff\n\ngo 1.13\n' > "$W/third/backoff/go.mod"
printf '\nreplace github.com/cenkalti/backoff => ./third/backoff\n' >> "$W/go.mod"
mkdir -p "$W/mc"
cp -r "$V/mc/rt" "$V/mc/env" "$W/mc/"
if grep -rqE 'Try(R)?Lock\(' --include=*.go "$W/pkg" "$W/clientmain" 2>/dev/null; then
  sed -i 's/^var tryLocks = false/var tryLocks = true/' "$W/mc/rt/sync.go"
fi
rm -f "$W"/mc/rt/*_test.go "$W"/mc/env/*_test.go
cp -r "$V/harness" "$W/vh"
(cd "$V/mc" && go build -o "$W/instr.bin" ./instr)
cd "$W"
./instr.bin -w "$W" -env github.com/BTBurke/monny/pkg/monny,github.com/BTBurke/monny/pkg/monny/proc,github.com/BTBurke/monny/pkg/pb,github.com/BTBurke/monny/clientmain,github.com/BTBurke/monny/pkg/eventbus \
  -norace github.com/BTBurke/monny/pkg/pb,github.com/cenkalti/backoff ./pkg/... ./clientmain github.com/cenkalti/backoff 2> "$W/instr.log" || { cat "$W/instr.log" >&2; exit 2; }
