#!/bin/bash
# against.sh PATCH|-m MUTANTFILE=TARGET  PROP... : runs quick checks against a changed copy of /repo, mounted over /repo
# in a private namespace, with a private copy of /verif. Development tool.
src=$1; [ "$src" = -m ] || src=$(realpath "$src"); shift
w=$(mktemp -d /tmp/against.XXXX)
cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/{check.sh,checks.json,known-findings.txt,properties.jsonl,MANIFEST.json,gosym,harness,bin,tools} $w/verif/
if [ "$src" = -m ]; then cp "${1%%=*}" "$w/${1##*=}"; shift; else git -C $w/repo apply "$src" || exit 2; fi
unshare -Ur -m bash -c '
mount --bind '$w'/repo /repo && mount --bind '$w'/verif /verif || exit 2
cd /verif; mkdir -p evidence
for p in "$@"; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p quick > /tmp/against.out.$$ 2>&1; rc=$?; echo "$p rc=$rc $(grep -m1 VIOLATION /tmp/against.out.$$)"; [ $rc = 0 ] || grep -v "^  note" /tmp/against.out.$$ | head -${LINES_OUT:-4}; [ -z "$SHOW" ] || { head -1 /tmp/against.out.$$ | grep -o "[0-9]* traces.*"; grep "note" /tmp/against.out.$$ | head -$SHOW; }; done; rm -f /tmp/against.out.$$' x "$@"
rm -rf $w
