#!/usr/bin/env python3
"""run.py REPOCOPY VERIFCOPY OUT SEED COUNT [FILEPREFIX]: applies sampled small
changes one after another and notes which check notices each first."""
import os, random, subprocess, sys, time
repo, verif, out, seed, count = sys.argv[1:6]
pre = sys.argv[6] if len(sys.argv) > 6 else ""
MAP = {
 "cmd/ls.go": "C15 C08 C19", "cmd/recover.go": "C11 C13 C12 C14 C19 C08", "cmd/recon.go": "C07 C26 C05 C06 C19",
 "cmd/mount.go": "C16 C17 C19", "cmd/dump_index.go": "C25 C08", "cmd/identify.go": "C10 C26", "cmd/root.go": "C05 C19 C15",
 "cmd/completion.go": "C19", "cmd/btrfscue/": "C05 C25 C19", "internal/identify": "C09 C10 C26",
 "internal/rescuefs": "C17 C16 C19 C08 C18", "pkg/btrfs/btrfs.go": "C20 C21 C22 C16 C11 C15 C08",
 "pkg/btrfs/index/file_segments.go": "C11 C17 C14 C12", "pkg/btrfs/index/index_store.go": "C01 C02 C03 C04 C05 C25 C18 C15 C08",
 "pkg/btrfs/index/key_format.go": "C21 C25", "pkg/btrfs/leaf.go": "C20 C07 C08 C10", "pkg/btrfs/": "C20 C21 C22 C02 C07 C08",
 "pkg/coding": "C10", "pkg/ioutil": "C24 C26", "pkg/uuid": "C23 C10 C07",
}
def sh(cmd, cwd=repo, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"
files = [f for f in sh("git ls-files '*.go'")[1].split() if not f.endswith("_test.go") and f.startswith(pre)]
all_ = []
for f in files:
    n = int(sh(f"/tmp/mutate {f}")[1])
    all_ += [(f, i) for i in range(n)]
rnd = random.Random(int(seed))
rnd.shuffle(all_)
done, per = 0, {}
env = "GOTOOLCHAIN=local GOPROXY=off GOFLAGS='-mod=mod -buildvcs=false'"
for f, i in all_:
    if done >= int(count): break
    sh("git checkout -q -- .")
    sh(f"/tmp/mutate {f} {i}")
    if sh(f"{env} go build ./... && {env} go vet ./cmd/... ./pkg/... ./internal/...")[0] and sh(f"{env} go build ./...")[0]: continue
    if sh(f"{env} timeout 60 go test ./... -skip TestMakeSampleOffsets")[0]: continue
    done += 1
    m = next(v for k, v in MAP.items() if f.startswith(k))
    res, t0 = "SURVIVED", time.time()
    log = []
    for c in m.split():
        rc, o = sh(f"VERIF_REPO={repo} nice bash {verif}/run.sh {c}")
        if rc == 1:
            res = "killed by " + c; break
        if rc != 0: log.append(f"{c}: rc {rc}")
    d = sh("git diff -U0")[1].split("\n")
    d = " ".join(l for l in d if l[:1] in "+-" and l[:3] not in ("+++", "---") or l[:2] == "@@")
    with open(out, "a") as h:
        h.write(f"{res} {f} {i} {' '.join(log)} {time.time()-t0:.0f}s :: {d[:400]}\n")
sh("git checkout -q -- .")
