#!/bin/bash
# check.sh ID [-replay FILE] [-cover]: builds the monitors from /repo's working tree and
# runs the one for property ID. VERIF_TIER (quick, thorough) and VERIF_SEED
# select how much and what is explored.
set -u
id=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && { export PATH=$d:$PATH; break; }; done
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
unset GOPATH GOROOT GODEBUG GOMAXPROCS GOGC GOMEMLIMIT GORACE GOOS GOARCH GOEXPERIMENT 2>/dev/null
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
case $id in
C08) variants="default race" ;;
C09) variants="default race purego 386" ;;
C01 | C16) variants="default 386" ;;
*) variants="default" ;;
esac
cover=""
args=()
for a in "$@"; do
  if [ "$a" = -cover ]; then cover="-cover -coverpkg=github.com/jhump/gopoet,verif/harness"; else args+=("$a"); fi
done
bins=""
pids=()
for v in $variants; do
  case $v in
  default) flags="$cover" ;;
  race) flags="-race -gcflags=github.com/jhump/gopoet=-d=checkptr" ;;
  purego) flags="-tags=purego" ;;
  386) flags="" ;;
  esac
  (cd "$here/harness" && { [ $v = 386 ] && export GOARCH=386 CGO_ENABLED=0; go build $flags -o "$work/vh-$v" .; }) 2>"$work/build-$v.log" &
  pids+=($!)
  bins="$bins,$v=$work/vh-$v"
done
ok=1
for p in "${pids[@]}"; do wait "$p" || ok=0; done
if [ $ok = 0 ]; then
  cat "$work"/build-*.log >&2
  echo "INCONCLUSIVE property=$id the monitors do not build against /repo"
  exit 2
fi
# Where the kernel runs no 32-bit programs, that build is left out.
"$work/vh-386" -h >/dev/null 2>&1; [ $? = 126 ] && bins=${bins/,386=$work\/vh-386/}
cov=()
if [ -n "$cover" ]; then mkdir -p "$work/cov"; cov=(-covdir "$work/cov"); fi
"$work/vh-default" -prop "$id" -verif "$here" -bins "${bins#,}" "${cov[@]}" "${args[@]}"
rc=$?
if [ -n "$cover" ]; then
  (cd "$here/harness" && go tool covdata func -i="$work/cov" | grep jhump/gopoet/ | grep -v '100.0%')
fi
exit $rc
