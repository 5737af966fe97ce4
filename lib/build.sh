#!/bin/bash
# build.sh DEST CC "VCFLAGS" TARGET...   builds /repo's current sources (a copy of them) into DEST with the given flags.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
dest=$1 cc=$2 flags=$3; shift 3
unset MAKEFLAGS MAKEOBJDIR MAKEOBJDIRPREFIX CC CFLAGS LD AR
mkdir -p "$dest"
cd "$dest"
cp -a "$repo/src" "$repo/include" "$repo/pc" .
mkdir -p vpmk build/bin build/lib; ln -sfn "$repo/share" share
sed -E -e '/^\.MAKEFLAGS:/d' -e '/^\.SYSPATH:/d' -e '/^SUBDIR \+= (tests|man|theft|fuzz)/d' \
    -e "s|^\.include <subdir\.mk>|.include \"$here/rules.mk\"|" -e '/^\.include </d' "$repo/Makefile" > vpmk/top.mk
(cd "$repo"; find src include pc -name Makefile) | while read -r f; do
    mkdir -p "vpmk/${f%/Makefile}"
    sed -E -e '/^\.include "[./]*share\/mk\/top\.mk"/d' "$repo/$f" > "vpmk/${f%/Makefile}/sub.mk"
done
exec bmake -r -j"${VERIF_JOBS:-8}" -f vpmk/top.mk CC="$cc" VCFLAGS="$flags" VKEEP="$here/keep.txt" NODOC=1 "$@"
