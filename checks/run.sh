#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]: decides the property on /repo's current source.
here="$(cd "$(dirname "$0")/.." && pwd)"
bin="$here/bin/kdcheck"
fail() {
	mkdir -p "$here/evidence"
	echo "$2" > "$here/evidence/$1.violations.txt"
	echo "$2"
	echo "VIOLATION property=$1 replay=$here/evidence/$1.violations.txt"
	exit 1
}
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -newer "$bin" \( -name '*.go' -o -name go.mod \) -print -quit)" ]; then
	bash "$here/checks/build.sh" >&2 || fail "$1" "undecided: the analyser does not build"
fi
# the project's go.mod is created by its build environment when it is not there
. /opt/vp/env.sh
"$bin" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$here"
rc=$?
[ $rc -le 1 ] || fail "$1" "undecided: the analyser ended with code $rc"
exit $rc
