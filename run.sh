#!/bin/bash
# run.sh PROPERTY [CASE]  - builds the checker and btrfscue from /repo's
# current tree and runs the exploration of one property.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
prop=$1; only=$2
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
unset BTRFSCUE_METADATA GODEBUG
base=/tmp
[ -d /dev/shm ] && [ -w /dev/shm ] && [ "$(df -k --output=avail /dev/shm 2>/dev/null | tail -1)" -gt 4000000 ] 2>/dev/null && base=/dev/shm
scratch=$(mktemp -d "$base/vh.XXXXXXXX") || exit 2
cleanup() { rm -rf -- "$scratch"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
chmod 0755 "$scratch"
{
  printf '{"Replace":{'
  sep=
  for f in "$verif"/harness/*.go; do
    printf '%s"%s/internal/zzverif/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=,
  done
  for f in "$verif"/harness/shim/*/*.go; do
    printf ',"%s/internal/%s/%s":"%s"' "$repo" "$(basename "$(dirname "$f")")" "$(basename "$f")" "$f"
  done
  printf '}}'
} > "$scratch/overlay.json"
cd "$repo" || exit 2
build() {
  go build -overlay "$scratch/overlay.json" -o "$scratch/vh" ./internal/zzverif &&
  case $prop in
  C09|C18)
    # Second stage: the checker linked against an instrumented copy.
    mkdir "$scratch/instr" &&
    "$scratch/vh" instrument "$repo" "$scratch/instr" "$scratch/overlay.json" &&
    if [ $prop = C18 ]; then
      # Executions happen in worker processes with the race detector.
      CGO_ENABLED=1 go build -race -overlay "$scratch/overlay.json" -o "$scratch/vhw" ./internal/zzverif &&
      chmod 0755 "$scratch/vhw"
    else
      go build -overlay "$scratch/overlay.json" -o "$scratch/vh" ./internal/zzverif
    fi ;;
  esac &&
  go build -o "$scratch/fm/fusermount" "$verif/harness/fm/main.go" &&
  go build -o "$scratch/btrfscue" ./cmd/btrfscue
}
if ! build > "$scratch/build.log" 2>&1; then
  cat "$scratch/build.log"; exit 2
fi
chmod 0755 "$scratch/vh" "$scratch/btrfscue" "$scratch/fm" "$scratch/fm/fusermount"
mkdir -p "$verif/evidence"
"$scratch/vh" -prop "$prop" -tier "$tier" -seed "$seed" -scratch "$scratch" \
  -verif "$verif" -repo "$repo" -bin "$scratch/btrfscue" ${only:+-only "$only"}
rc=$?
exit $rc
