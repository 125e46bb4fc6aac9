#!/bin/bash
# run.sh ID [-case N]: builds what the check of property ID needs from the repository's working tree, and runs it.
# VERIF_SEED, VERIF_TIER and VERIF_CASES choose the exploration; VERIF_REPO another tree.
. /opt/vp/env.sh
id=$1
repo=${VERIF_REPO:-/repo}
export VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}"
src=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
export TMPDIR=$work/tmp
mkdir "$TMPDIR"
cache=/var/tmp/gosstrak-fc-cache
[ -d $cache ] && had=1
finish() {
	cd /
	case $work in /tmp/verif-build-*) rm -rf -- "$work" ;; esac
	[ -n "$had" ] || rmdir $cache 2>/dev/null
}
trap finish EXIT
trap 'exit 2' INT TERM

# a module file of the run's own, so that nothing is written into the harness or the repository
sed "s|=> /repo|=> $repo|" "$src/harness/go.mod" > "$work/go.mod"
cp "$src/harness/go.sum" "$work/go.sum"
cp "$repo/go.mod" "$work/repo.mod"
cp "$repo/go.sum" "$work/repo.sum"
harness() { # package, flags
	(cd "$src/harness" && go build -modfile="$work/go.mod" -o "$work/check" "${@:2}" "./cmd/$1") || exit 2
}
tool() { # output, package, flags
	(cd "$repo" && go build -modfile="$work/repo.mod" -o "$work/$1" "${@:3}" "./$2") || exit 2
}
case $id in
R01)
	tool gosstrak-fc cmd/gosstrak-fc -race
	export VERIF_FC=$work/gosstrak-fc
	harness filt -race
	;;
F20) harness filt -race ;;
F*|R*)
	export VERIF_DATA=$repo/test/data
	harness filt
	;;
T07)
	tool sixenc2bin scheme/sixenc2bin
	export VERIF_SIX=$work/sixenc2bin
	harness tdt
	;;
T08) harness tdt -race ;;
T*) harness tdt ;;
M*) harness stat ;;
E*)
	tool gosstrak-fc cmd/gosstrak-fc
	tool ale-ec cmd/ale-ec
	export VERIF_FC=$work/gosstrak-fc VERIF_EC=$work/ale-ec
	harness fc
	;;
G02)
	tool dataset test
	tool dataset-race test -race
	export VERIF_DATASET=$work/dataset VERIF_DATASET_RACE=$work/dataset-race
	harness dataset
	;;
G*)
	tool gobtags cmd/gobtags
	echo "{\"Replace\": {\"$repo/cmd/gobtags/verif_hook.go\": \"$src/overlay/gobtags_hook.go\"}}" > "$work/overlay.json"
	tool gobtags-hooked cmd/gobtags -overlay "$work/overlay.json"
	export VERIF_GOBTAGS=$work/gobtags VERIF_GOBTAGS_HOOKED=$work/gobtags-hooked
	harness gobtags
	;;
*)
	echo "unknown property $id" >&2
	exit 2
	;;
esac
"$work/check" "$@"
