#!/bin/bash
# check.sh PROPERTY: builds the verifier from /verif/vc and checks one property
# of the code in /repo (or $REPO). Exit 0: holds; 1: VIOLATION; else: error.
set -u
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/vc" && go build -o "$tmp/vc" .) || { echo "the verifier does not build"; exit 2; }
"$tmp/vc" check "$1"
