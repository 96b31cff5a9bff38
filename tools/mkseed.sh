#!/bin/bash
# mkseed.sh ID: turns the edit made in the working tree /tmp/seed (a worktree
# of /repo) into /verif/seeded/ID (main.go and meta.json are there already)
# and confirms it.
id=$1; d=/verif/seeded/$id
git -C /tmp/seed diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "$id: no change"; exit 1; }
for f in enc.go nodes.go lib.go fuse.go; do grep -q "NOLIB" "$d/main.go" || cp /verif/tools/demolib/$f "$d/"; done
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Run in /repo after the build. The program beside this file exits with 0 if
# the property holds for its example.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
{
  printf '{"Replace":{'
  s=
  for f in "$here"/*.go; do
    printf '%s"%s/internal/zzdemo/%s":"%s"' "$s" "$PWD" "$(basename "$f")" "$f"
    s=,
  done
  printf '}}'
} > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./internal/zzdemo || exit 2
"$t/demo"
D
gofmt -l "$d"
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
bash /opt/vp/build.sh || exit 1
timeout 300 bash "$d/demo.sh" > /tmp/demo.clean 2>&1; c=$?
git apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh' EXIT
bash /opt/vp/build.sh || { echo "$id: does not build"; exit 1; }
bash /opt/vp/test.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1
timeout 300 bash "$d/demo.sh" > /tmp/demo.bug 2>&1; b=$?
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(tail -1 /tmp/seedtest.log)
echo "$id: clean=$c bug=$b tests=$t :: $(tail -1 /tmp/demo.bug | cut -c1-150)"
[ $c = 0 ] || cat /tmp/demo.clean | tail -5
if [ -z "$NOCHECK" ]; then
bash /verif/run.sh "$p" 2>&1 | cut -c1-260 | tail -3
fi
