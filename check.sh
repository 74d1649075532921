#!/bin/bash
# check.sh <property> [--case N]: builds the harness against /repo's working
# tree and runs the check of one property.
# VERIF_TIER=quick|thorough, VERIF_SEED=n
# exit 0: held, 1: VIOLATION printed, anything else: no verdict
id="$1"; shift
only=-1
[ "$1" = "--case" ] && only="$2"
here="$(cd "$(dirname "$0")" && pwd)"
export VH_ROOT="$here"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
tmp="$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX")" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
export VH_TMP="$tmp"
mkdir -p "$here/evidence"

# the module is built from a copy, so that go never rewrites committed files
cp -r "$here/harness" "$tmp/src" || exit 3
cd "$tmp/src" || exit 3
# development only: run against a scratch copy of the repository
[ -n "$VH_REPO" ] && sed -i "s#=> /repo\$#=> $VH_REPO#" go.mod

tags=verif
build() { # build <output> <package> [flags...]
	local o="$1" p="$2"; shift 2
	go build -tags "$tags" "$@" -o "$o" "$p"
}
if ! build "$tmp/vh" . 2>"$tmp/err"; then
	tags=noverif
	if ! build "$tmp/vh" . 2>"$tmp/err2"; then
		echo "BUILD FAILED"; cat "$tmp/err" "$tmp/err2"; exit 3
	fi
	echo "note: built without the verif tag"; cat "$tmp/err"
fi
need_cli=" C15 C16 C19 C21 C23 C24 "
case "$need_cli" in *" $id "*)
	build "$tmp/setup" github.com/bnb-chain/zkbnb-setup || exit 3
	export VH_CLI="$tmp/setup";;
esac
if [ "$id" = C17 ]; then
	build "$tmp/vh-race" . -race || exit 3
	export VH_RACE="$tmp/vh-race"
	GOARCH=386 CGO_ENABLED=0 build "$tmp/vh-386" . || exit 3
	export VH_386="$tmp/vh-386"
	build "$tmp/vlag-race" ./lag -race 2>/dev/null && export VH_LAGRACE="$tmp/vlag-race"
	build "$tmp/vpar-race" ./par -race 2>/dev/null && export VH_PARRACE="$tmp/vpar-race"
	if build "$tmp/vpar" ./par 2>"$tmp/errpar"; then export VH_PAR="$tmp/vpar"
	else echo "note: no direct calls of the work splitter"; fi
fi
if [ "$id" = C18 ] || [ "$id" = C17 ]; then
	# direct calls, unless these internal functions have another shape
	if build "$tmp/vlag" ./lag 2>"$tmp/errlag"; then export VH_LAG="$tmp/vlag"
	else echo "note: no direct calls of the conversion"; head -5 "$tmp/errlag"; fi
fi
if [ "$id" = C19 ]; then
	if build "$tmp/coef" ./coef 2>"$tmp/errcoef"; then export VH_COEF="$tmp/coef"
	else echo "note: no direct calls of the coefficients' generator"; fi
fi
"$tmp/vh" run -id "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -case "$only"
