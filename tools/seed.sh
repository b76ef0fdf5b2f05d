#!/bin/bash
# tools/seed.sh ID: turns the uncommitted change in the scratch worktree /tmp/wt into a planted bug /verif/seeded/ID
# (whose main.go, meta.json exist already) after confirming that it builds, passes the tests, and that its demo fails
# with it and passes without. tools/seed.sh -i creates the worktree.
set -u
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
wt=/tmp/wt
if [ "$1" = -i ]; then
  git -C /repo worktree prune; git -C /repo worktree add --detach -f $wt HEAD >/dev/null; exit
fi
d=/verif/seeded/$1
cd $wt || exit 1
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp /verif/harness/ps.go /verif/harness/server.go "$d/"; cp /verif/tools/demo_util.go.txt "$d/util.go"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Exit 0 if the code in the current directory behaves, nonzero if not.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d"/
cp go.sum "$d"/
printf 'module demo\ngo 1.21\nrequire github.com/mindstand/go-bolt v0.0.0\nreplace github.com/mindstand/go-bolt => %s\n' "$PWD" > "$d"/go.mod
grep gotime go.mod | sed 's/^[[:space:]]*\(require\)\?[[:space:]]*/require /' >> "$d"/go.mod
cd "$d"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o demo .
timeout 100 ./demo
D
chmod +x "$d/demo.sh"
go build ./... && go vet . >/dev/null 2>&1
go test -short -vet=off -count=1 ./... > /tmp/wt.test 2>&1
fails=$(grep -E '^(--- FAIL|FAIL|panic)' /tmp/wt.test | head -5)
(cd /repo && go test -short -vet=off -count=1 ./... 2>&1 | grep -E '^--- FAIL' | sed 's/ (.*//' | sort) > /tmp/base.fail
grep -E '^--- FAIL' /tmp/wt.test | sed 's/ (.*//' | sort > /tmp/wt.fail
diff /tmp/base.fail /tmp/wt.fail >/dev/null || { echo "tests differ: $fails"; exit 1; }
bash "$d/demo.sh" > /tmp/demo.out 2>&1; with=$?
git stash -q; bash "$d/demo.sh" > /tmp/demo0.out 2>&1; without=$?; git stash drop -q
git checkout -q -- .
echo "demo with: $with ($(tail -1 /tmp/demo.out)), without: $without ($(tail -1 /tmp/demo0.out))"
[ $with -ne 0 ] && [ $without -eq 0 ] && echo "KEPT $1"
