#!/bin/bash
# check.sh C01 [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE            execute a replay file
# check.sh setup                  build the tools and the simulated program once
# check.sh show C01 FROM TO       print generated runs
set -u
OLDPWD_=$PWD
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export GOFLAGS= GO111MODULE=on GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=1
[ -n "${HOME:-}" ] || export HOME=/root
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
die() { echo "check.sh: $*" >&2; exit 2; }
# the Go environment of the repository's own build, if there is one
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=

# build FLAVOUR: plain | race
build() {
  (cd "$V/tools/instr" && go build -o "$WORK/instr" .) || die "the instrumenter does not build"
  local f="" b=""
  [ "$1" = race ] && { f="-stmts"; b="-race"; }
  "$WORK/instr" -repo "$REPO" -sim "$V/sim" -out "$WORK/ov" $f || die "the instrumenter failed on $REPO"
  (cd "$REPO" && go build $b -overlay "$WORK/ov/overlay.json" -o "$WORK/harness" ./zz_verif/harness) || die "the simulated program does not build"
}
flavour() { case " C12 C13 " in *" $1 "*) echo race;; *) echo plain;; esac; }

case "${1:-}" in
setup)
  build plain && build race && "$WORK/harness" list >/dev/null && echo "setup: ok" ;;
replay)
  f=$(cd "$OLDPWD_" && realpath "$2") || die "no such file: $2"
  id=$(sed -n 's/^ "check": "\(.*\)",$/\1/p' "$f" | head -1)
  build "$(flavour "$id")"
  "$WORK/harness" replay "$f" ;;
show)
  build "$(flavour "$2")"
  "$WORK/harness" show -check "$2" -from "$3" -to "$4" ${5:-} ;;
C*)
  tier=${2:-${VERIF_TIER:-quick}}
  build "$(flavour "$1")"
  "$WORK/harness" run -check "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" \
     -evidence "$V/evidence/$1.json" -replays "$V/replays" -known "$V/known_findings.txt" ;;
*) die "usage: check.sh C01 [quick|thorough] | replay FILE | setup | show ID FROM TO" ;;
esac
