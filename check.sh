#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property against /repo's working tree.
# check.sh replay FILE: run a saved failing case again.
# check.sh build: compile once (warms the build cache).
# Exit 0: held; 1: VIOLATION printed; 3: the check itself could not run.
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
unset GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GORACE
here=$(cd "$(dirname "$0")" && pwd) || exit 3
what=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
[[ $seed =~ ^[0-9]{1,18}$ ]] || seed=1

tmp=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT

build() { # build OUT [flags]
  local out=$1; shift
  (cd "$here/harness" && go build "$@" -o "$out" .) || { echo "check.sh: the harness does not build against /repo" >&2; exit 3; }
}

narrow() { GOARCH=386 CGO_ENABLED=0 build "$1"; } # for a machine with 32 bit words

prop=$what
if [ "$what" = replay ]; then
  prop=$(sed -n 's/^ *"Property": "\(.*\)",$/\1/p' "${2:?usage: check.sh replay FILE}" | head -1)
  [ -n "$prop" ] || { echo "check.sh: not a replay file: $2" >&2; exit 3; }
fi
race=()
[ "$prop" = C19 ] && race=(-race)
case $what in
build)
  build "$tmp/h"; build "$tmp/hr" -race; narrow "$tmp/hn"; exit 0 ;;
replay)
  if grep -q '^ *"Narrow": true' "$2"; then narrow "$tmp/h"; else build "$tmp/h" "${race[@]}"; fi
  "$tmp/h" replay -file "$2" ;;
*)
  build "$tmp/h" "${race[@]}"
  guided=()
  if [ "$tier" = thorough ] && [ "$prop" != C19 ]; then
    build "$tmp/hc" -cover -covermode=atomic "-coverpkg=./...,github.com/trim21/go-phpserialize/..."
    guided=(-guided "$tmp/hc")
  fi
  other=()
  case $prop:$tier in
  C05:*|C07:*|C10:*|C12:*|C22:*|C26:*|*:thorough)
    if [ "$prop" != C19 ]; then narrow "$tmp/hn"; other=(-narrow "$tmp/hn"); fi ;;
  esac
  "$tmp/h" run -prop "$prop" -tier "$tier" -seed "$seed" -verif "$here" "${guided[@]}" "${other[@]}" ;;
esac
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 3 ;; esac
