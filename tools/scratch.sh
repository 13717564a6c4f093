#!/bin/bash
# Makes (or refreshes) a scratch copy of /repo in $1 and of this machinery in $2 whose
# checks judge $1 instead of /repo. Used by mutants.py and refactors.py.
set -e
R=$1 V=$2
mkdir -p "$R" "$V"
rsync -a --delete --exclude target /repo/ "$R/" 2>/dev/null || { rm -rf "$R"; cp -a /repo "$R"; }
for d in sim sut npmsim tools; do rm -rf "${V:?}/$d"; cp -a /verif/$d "$V/"; done
cp -a /verif/check.sh /verif/known-findings* "$V/"
sed -i "s#\"/repo/#\"$R/#" "$V/sut/Cargo.toml" "$V/sut/build.rs"
sed -i "s#:/repo/#:$R/#" "$V/sut/rustc-wrapper.sh"
sed -i "s#/repo\b#$R#g" "$V/check.sh"
[ -d "$V/build" ] || cp -a /verif/build "$V/"
