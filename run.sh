#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property on /repo's tree
# run.sh replay FILE                 re-run the case of a reported violation
set -u
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOPROXY=off GOFLAGS=-buildvcs=false GOTOOLCHAIN=local
prop=$1
if [ "$prop" = replay ]; then
  file=$2
  want=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -1)
else
  want=$prop
  export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
fi
export VERIF_DIR=$here VERIF_SEED=${VERIF_SEED:-1}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
race=
case $want in C26) race=-race; export CGO_ENABLED=1 ;; *) export CGO_ENABLED=0 ;; esac
arch=$(go env GOHOSTARCH)
case $want-$arch in C28-amd64) arch=386 ;; C28-arm64) arch=arm ;; esac
cp -r "$here/harness" "$tmp/src" || exit 2
overlay=
if [ -n "$race" ]; then
  # a build in which goroutines hesitate where their order could matter
  mkdir "$tmp/perturb"
  repo=$(cd "$tmp/src" && go list -m -f '{{.Dir}}' github.com/ZZMarquis/gm) &&
    (cd "$tmp/src" && CGO_ENABLED=0 go run ./perturb "$repo" "$tmp/perturb") &&
    (cd "$tmp/src" && go build $race -overlay "$tmp/perturb/overlay.json" -o "$tmp/vh" . 2>/dev/null) &&
    overlay=1 && export VH_DELAY_SITES=$(cat "$tmp/perturb/sites")
fi
if [ -z "$overlay" ] && ! (cd "$tmp/src" && GOARCH=$arch go build $race -o "$tmp/vh" .) ; then
  echo "cannot build the harness against /repo" >&2
  exit 2
fi
if [ $want = C31 ]; then
  # a build whose clock starts in 2009 and skips what it sleeps
  (cd "$tmp/src" && go build -tags faketime -o "$tmp/vhc" . 2>/dev/null) && export VH_CLOCK=$tmp/vhc
fi
if [ "$prop" = replay ]; then
  "$tmp/vh" replay "$file"
else
  "$tmp/vh" check "$prop"
fi
exit $?
