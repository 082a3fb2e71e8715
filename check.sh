#!/bin/bash
# Decides one property:  check.sh ID [quick|thorough]
# Builds the harness (and whatever it tests) from the working tree of /repo, then searches.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: trouble of the check itself.
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/bin"
bin=$here/bin/verif.$id.$$
race=
cli=
trap 'rm -f "$bin" "$bin.race" "$bin.cli"' EXIT
build() { ( cd "$1" && shift && go build "$@" ) || { echo "check.sh: the build failed" >&2; exit 2; }; }
build "$here/harness" -o "$bin" .
case $id in
P03) race=$bin.race
	( export CGO_ENABLED=1; build "$here/harness" -race -o "$race" . ) || exit 2 ;;
P28) cli=$bin.cli
	build /repo -o "$cli" ./cmd/libasciidoc ;;
esac
export VERIF_CLI=$cli
"$bin" run -prop "$id" -tier "$tier" -verif "$here" ${race:+-racebin "$race"}
