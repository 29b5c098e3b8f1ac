#!/bin/bash
# run.sh ID            rebuild the harness against /repo's working tree and run one check
# run.sh build [V...]  build harness variants only
# run.sh vh ARGS       build the lite variant and run it with ARGS
V="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh || exit 2
unset GOFLAGS GOCOVERDIR GODEBUG
export GOFLAGS=-mod=mod
build() {
    local tags=
    case $1 in
    lite) tags="-tags no_license" ;;
    race) tags="-tags no_license -race" ;;
    full) ;;
    *) echo "unknown variant $1"; return 2 ;;
    esac
    mkdir -p "$V/.build/$1"
    if [ $1 = lite ]; then
        (cd "$V/harness" && go build -o "$V/.build/lite/" ./ckpt ./gitshim && go build -tags no_license -o "$V/.build/lite/ripsrc" github.com/pinpt/ripsrc) || { echo "BUILD-ERROR: harness variant $1"; return 2; }
    fi
    (cd "$V/harness" && go build $tags -o "$V/.build/$1/vh" .) || { echo "BUILD-ERROR: harness variant $1"; return 2; }
}
case $1 in
build)
    shift
    for v in ${@:-lite race full}; do build $v || exit 2; done
    exit 0 ;;
vh)
    shift
    build lite || exit 2
    exec "$V/.build/lite/vh" "$@" ;;
esac
# the variant a check wants is the word after its id in harness/builds.txt
v=$(awk -v id="$1" '$1 == id { print $2 }' "$V/harness/builds.txt")
build "${v:-lite}" || exit 2
export VERIF_DIR="$V"
"$V/.build/${v:-lite}/vh" check "$1"
