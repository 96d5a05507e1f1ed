#!/bin/bash
# check.sh PROPERTY TIER: builds the harness against /repo's working tree and
# decides one property. Exit 0: held; 1: VIOLATION; 3: error of the check.
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
DIR="$(cd "$(dirname "$0")" && pwd)"
PROP="$1"; TIER="${2:-quick}"
BIN="$(mktemp -d /tmp/verif-bin-XXXXXX)" || exit 3
trap 'rm -rf "$BIN"' EXIT
RACE=""
if [ "$PROP" = C22 ] || { [ "$PROP" = replay ] && grep -q '"property": *"C22"' "$2"; }; then RACE="-race"; fi
if ! ( cd "$DIR/harness" && go build $RACE -o "$BIN/verif" ./cmd/verif ) >"$BIN/log" 2>&1; then
  echo "CHECK ERROR: the harness does not build"; tail -30 "$BIN/log"; exit 3
fi
export VERIF_DIR="$DIR"
if [ "$PROP" = C23 ] || { [ "$PROP" = replay ] && grep -q '"property": *"C23"' "$2"; }; then
  if ! ( cd /repo && go build -o "$BIN/lisp" ./examples/lisp-repl ) >"$BIN/log" 2>&1; then
    echo "CHECK ERROR: the Lisp example does not build"; tail -30 "$BIN/log"; exit 3
  fi
  export VERIF_LISP="$BIN/lisp"
fi
if [ "$PROP" = replay ]; then "$BIN/verif" replay "$2"; exit $?; fi
"$BIN/verif" run "$PROP" "$TIER"
exit $?
