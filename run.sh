#!/bin/bash
# run.sh <ID> quick|thorough            check one property against /repo
# run.sh <ID> replay <contract> <seed>  rerun one recorded failing input
# run.sh setup                          build the verifier
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
. /opt/vp/env.sh
REPO=${VERIF_REPO:-/repo}
BIN=$VERIF/.bin/gover
build() {
	mkdir -p "$VERIF/.bin"
	(cd gover && go build -o "$BIN.$$" .) && mv "$BIN.$$" "$BIN"
}
if [ "$1" = setup ]; then build; exit $?; fi
if [ ! -x "$BIN" ] || [ -n "$(find gover -newer "$BIN" -name '*.go' -print -quit)" ]; then
	build || { echo "gover does not build"; exit 2; }
fi
ID=$1
case "$2" in
replay) exec "$BIN" -prop "$ID" -only "$3" -replay "$4" -verif "$VERIF" -repo "$REPO" ;;
thorough) exec "$BIN" -prop "$ID" -tier thorough -verif "$VERIF" -repo "$REPO" ;;
*) exec "$BIN" -prop "$ID" -tier quick -verif "$VERIF" -repo "$REPO" ;;
esac
