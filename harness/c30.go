package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// C30: results that cannot be written.
func init() {
	register(&Prop{ID: "C30", Level: "model_checking",
		Rule: "every system call of a scan that writes, extends, truncates or flushes the metadata (11 scans, up to several commits) and every one of a recovery that creates, writes, removes or " +
			"closes something in the destination fails in turn, alone and with all later ones, with 3 kinds of errors; every write of a listing, dump or identification, and all of them; " +
			"the result is compared with that of an undisturbed run; non-trivial: distinct (command, failing call, outcome)",
		Assumptions: []string{"a system call that fails has no effect", "a write error that the kernel only detects after the file was closed cannot be known to the program"},
		Run:         runC30})
}

// failedCall is a system call that was made to fail.
type failedCall struct{ name, path string }

var (
	reInjected = regexp.MustCompile(`^(?:\d+ +)?(\w+)\((.*?)\) *= .*\(INJECTED\)`)
	reFdPath   = regexp.MustCompile(`^(?:AT_FDCWD|\d+)<([^>]*)>`)
	reQuoted   = regexp.MustCompile(`"([^"]*)"`)
)

// runFail runs the real program with failing system calls. filter are further
// options for strace, inject is "calls:error=...:when=..." or "". The calls are
// counted if there is nothing to inject.
func (e *Env) runFail(filter []string, calls, inject, out string, args ...string) (Res, []failedCall, map[string]int) {
	log := e.Path("fail.log")
	os.Remove(log)
	a := append([]string{"-f", "-y", "-s", "0", "-o", log, "-e", "trace=" + calls}, filter...)
	if inject != "" {
		a = append(a, "-e", "inject="+inject)
	}
	c := exec.Command("strace", append(append(a, e.r.Bin), args...)...)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	if out != "" {
		f, err := os.OpenFile(out, os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		c.Stdout = f
	}
	c.Dir = e.Dir
	c.Env = append(os.Environ(), "BTRFSCUE_METADATA=", "TZ=UTC", "GOMAXPROCS=1")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	r := Res{}
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(wallLimit, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	err := c.Wait()
	if !t.Stop() {
		r.Hung = "did not terminate within 180 s"
	}
	r.Stdout, r.Stderr = so.String(), se.String()
	if err != nil {
		r.Exit = -1
		if c.ProcessState != nil {
			r.Exit = c.ProcessState.ExitCode()
		}
	}
	b, _ := os.ReadFile(log)
	var failed []failedCall
	n := map[string]int{}
	pending := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		pid := strings.SplitN(l, " ", 2)[0]
		if i := strings.Index(l, " <unfinished ...>"); i > 0 {
			pending[pid] = l[:i]
			continue
		}
		if i := strings.Index(l, " resumed>"); i > 0 {
			l = pending[pid] + l[i+len(" resumed>"):]
		}
		if f := strings.Fields(l); len(f) > 1 {
			if i := strings.Index(f[1], "("); i > 0 {
				n[f[1][:i]]++
			}
		}
		m := reInjected.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		p := ""
		if q := reQuoted.FindAllStringSubmatch(m[2], -1); len(q) > 0 && strings.HasSuffix(m[1], "at") {
			p = q[len(q)-1][1]
			if d := reFdPath.FindStringSubmatch(m[2]); d != nil && !strings.HasPrefix(p, "/") {
				p = filepath.Join(d[1], p)
			}
		} else if d := reFdPath.FindStringSubmatch(m[2]); d != nil {
			p = d[1]
		}
		failed = append(failed, failedCall{m[1], p})
	}
	return r, failed, n
}

const metaCallsC30 = "pwrite64,write,writev,pwritev,pwritev2,ftruncate,fallocate,fsync,fdatasync,msync"

// storeC30 checks scans whose metadata cannot be written.
func storeC30(e *Env, sc scenC06, inject string) (vi *Violation, injected int, total int) {
	dir := e.rmDest("s30")
	os.Mkdir(dir, 0777)
	os.Chmod(dir, 0777)
	meta := filepath.Join(dir, "meta")
	want := newModel(sc.pre...)
	for _, b := range sc.its {
		want.put(b.its...)
	}
	if sc.has {
		writeIndexAs(meta, sc.bs, sc.pre)
		os.Chmod(meta, 0666)
	}
	img := e.imageOnce(sc)
	args := []string{"recon", "--metadata=" + meta, "--progress=false", "--verbose=false", fmt.Sprintf("--block-size=%d", sc.bs), "--id=" + fsid1.String(), img}
	in := inject
	if in != "" {
		in = metaCallsC30 + ":" + in
	}
	res, failed, n := e.runFail([]string{"-P", meta}, metaCallsC30, in, "", args...)
	e.r.Trace(1)
	for _, k := range n {
		total += k
	}
	what := fmt.Sprintf("scan %s, %s", sc.name, inject)
	done := func() string { return cmpItems(meta, want, nil) }
	switch {
	case res.Hung != "" || res.crashed():
		v := viol("%s: %s", what, short(res.brief(), 400))
		v.Hung = res.Hung != ""
		return v, len(failed), total
	case len(failed) == 0 && res.Exit != 0:
		return viol("%s: %s", what, short(res.brief(), 400)), 0, total
	case len(failed) > 0 && res.Exit == 0 && strings.HasSuffix(inject, "+"):
		return viol("%s: %d calls failed, from %s on, but the scan reports success; then: %s", what, len(failed), failed[0].name, done()), len(failed), total
	case res.Exit == 0:
		if s := done(); s != "" {
			return viol("%s: the scan reports success although %v failed: %s", what, failed, s), len(failed), total
		}
	case strings.TrimSpace(res.Stderr) == "":
		return viol("%s: the scan fails without a message", what), len(failed), total
	}
	if len(failed) == 0 {
		return nil, 0, total
	}
	// What was there before still is, and nothing else.
	its, err := readIndex(meta)
	if err != nil && sc.has {
		return viol("%s: the metadata does not open any more: %v", what, err), len(failed), total
	}
	if err == nil {
		has := map[string]bool{}
		for _, it := range its {
			has[fmt.Sprint(it.Owner, it.K, it.Gen)] = true
			w := want.lookup(it.Owner, it.K, it.Gen)
			ok := w != nil && w.Gen == it.Gen && string(w.Data) == string(it.Data)
			for i := 0; !ok && i < len(sc.pre); i++ {
				p := sc.pre[i]
				ok = p.Owner == it.Owner && p.K == it.K && p.Gen == it.Gen && string(p.Data) == string(it.Data)
			}
			if !ok {
				return viol("%s: the metadata holds %v %v, which neither the image nor the earlier metadata has", what, it.Owner, it.K), len(failed), total
			}
		}
		for _, p := range sc.pre {
			if !has[fmt.Sprint(p.Owner, p.K, p.Gen)] {
				return viol("%s: item %v %v that was stored before is lost", what, p.Owner, p.K), len(failed), total
			}
		}
		// A new file without a valid first page may be refused.
		res = recon(e, img, meta, sc.bs, fsid1)
		if res.crashed() || res.Exit != 0 {
			return viol("%s: scanning again fails: %s", what, short(res.brief(), 300)), len(failed), total
		}
		if s := done(); s != "" {
			return viol("%s: after scanning again: %s", what, s), len(failed), total
		}
	}
	e.r.Outcome(fmt.Sprint(sc.name, failed[0].name, len(failed), len(its)))
	return nil, len(failed), total
}

const destCallsC30 = "pwrite64,write,writev,pwritev,ftruncate,truncate,fallocate,mkdir,mkdirat,symlink,symlinkat,unlink,unlinkat,rename,renameat,renameat2,link,linkat,openat,close,fsync,fdatasync,copy_file_range,sendfile"

// groups of calls that are failed together or apart
var destGroupsC30 = []string{"pwrite64,write,writev,pwritev,copy_file_range,sendfile", "ftruncate,truncate,fallocate", "mkdir,mkdirat", "symlink,symlinkat", "unlink,unlinkat,rename,renameat,renameat2",
	"openat", "close", "fsync,fdatasync"}

type worldC30 struct {
	its  []It
	im   *Image
	meta string
	pre  bool
}

func mkC30(e *Env) *worldC30 {
	w := &worldC30{meta: e.Path("ix30")}
	at := uint64(13 * mib)
	x := func(off, n uint64) ext {
		x := ext{Off: off, Disk: at, Num: n}
		at += n
		return x
	}
	w.its = append(fsItems(
		fileN("a-three", 300, 3*S-5, x(0, S), x(S, S), x(2*S, S)),
		inlineN("b-inline", 301, "some inline data"),
		linkN("c-link", 302, "a-three"),
		dirN("d-dir", 303, fileN("e-inner", 304, S, x(0, S)), linkN("f-inner", 305, "six"), dirN("g-empty", 306), fileN("h-empty", 307, 0)),
		fileN("i-large", 308, 2*mib+7, x(0, mib+S), x(mib+S, mib)),
		fileN("j-hole", 309, 5*S),
		subvolN("k-vol", 400, fileN("a-three", 300, S, x(0, S)), inlineN("l-inline", 301, "in the volume")),
	), chunkItem(13*mib, 4*mib, 1, 0))
	emitTree(&w.its, 500, &node{Ft: ftDir, Kids: []*node{fileN("m-orphan", 300, S, x(0, S)), linkN("n-link", 301, "x")}})
	writeIndex(w.meta, 16384, w.its)
	w.im = e.NewImage("img30", 4*mib)
	w.im.Write(0, pat(13*mib, 4*mib))
	chownAll(e.Path("ix30"))
	return w
}

// dest prepares the destination.
func (w *worldC30) dest(e *Env, pre bool) string {
	d := e.rmDest("d30")
	if pre {
		for _, p := range []string{"", "/d-dir", "/k-vol"} {
			os.Mkdir(d+p, 0777)
		}
		for _, p := range []string{"a-three", "b-inline", "d-dir/e-inner", "k-vol/l-inline", "c-link"} {
			os.WriteFile(filepath.Join(d, p), []byte("earlier content of "+p), 0666)
		}
		os.Symlink("elsewhere", d+"/d-dir/f-inner")
		os.Symlink("nowhere", d+"/j-hole")
		chownAll(d)
	}
	return d
}

// recoverC30 recovers with failing calls.
func (w *worldC30) recover(e *Env, pre bool, calls, inject string) (*Violation, []failedCall, map[string]int) {
	dest := w.dest(e, pre)
	before := map[string]fent{}
	if pre {
		before = readTree(dest)
	}
	in := inject
	if in != "" {
		in = calls + ":" + in
	}
	// Only calls on what is in the destination fail.
	filter := []string{"-P", dest}
	for p := range refRecover(w.its, w.im.Read, before, true).tree {
		if p != "." {
			filter = append(filter, "-P", filepath.Join(dest, p))
		}
	}
	res, failed, n := e.runFail(filter, destCallsC30, in, "", "recover", "--metadata="+w.meta, "--verbose=false", "--clobber=true", w.im.Path, dest)
	e.r.Trace(1)
	what := fmt.Sprintf("recovery (destination exists: %v), %s", pre, in)
	if res.Hung != "" || res.crashed() {
		v := viol("%s: %s", what, short(res.brief(), 400))
		v.Hung = res.Hung != ""
		return v, failed, n
	}
	ref := refRecover(w.its, w.im.Read, before, true)
	want, got := ref.tree, readTree(dest)
	hurt := map[string]bool{} // entries with a failed call
	closed := map[string]bool{}
	fatal := false
	for _, f := range failed {
		rel, err := filepath.Rel(dest, f.path)
		if err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
			// The metadata, the image, or something of the system
			fatal = fatal || f.name == "openat" || f.path == ""
			continue
		}
		hurt[rel] = true
		if f.name == "close" || strings.HasSuffix(f.name, "sync") {
			if fi, ok := want[rel]; ok && fi.Mode.IsRegular() {
				closed[rel] = true
			}
		}
	}
	under := func(p string) string {
		for q := p; ; q = filepath.Dir(q) {
			if hurt[q] {
				return q
			}
			if q == "." || q == "/" {
				return ""
			}
		}
	}
	if res.Exit != 0 {
		// It gave up: all right if the whole operation was impossible.
		if strings.TrimSpace(res.Stderr) == "" {
			return viol("%s: failed without a message", what), failed, n
		}
		if fatal || hurt["."] {
			return nil, failed, n
		}
		if len(failed) == 0 {
			return viol("%s: %s", what, short(res.brief(), 400)), failed, n
		}
	}
	if hurt["."] && strings.TrimSpace(res.Stderr) == "" {
		return viol("%s: no message although the destination cannot be used", what), failed, n
	}
	var names []string
	for p := range want {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		g, ok := got[p]
		same := ok && diffTree(map[string]fent{p: want[p]}, map[string]fent{p: g}) == ""
		q := under(p)
		if q == "" {
			if !same {
				return viol("%s: failed calls %v, but %q is affected: %s; stderr %q", what, failed, p, diffTree(map[string]fent{p: want[p]}, map[string]fent{p: g}), short(res.Stderr, 300)), failed, n
			}
			continue
		}
		if (!same || closed[p]) && !strings.Contains(res.Stderr, filepath.Join(dest, q)) {
			return viol("%s: failed calls %v, no warning names %q, which is not recovered completely; stderr %q", what, failed, q, short(res.Stderr, 300)), failed, n
		}
	}
	for p := range got {
		// A subvolume whose place cannot be created may go to a directory of its own.
		if _, ok := want[p]; !ok && under(p) == "" && !(hurt["k-vol"] && strings.HasPrefix(p, "subvol_400")) {
			return viol("%s: failed calls %v, but %q was created", what, failed, p), failed, n
		}
	}
	for _, f := range failed {
		e.r.Outcome(fmt.Sprint(pre, f.name, strings.TrimPrefix(f.path, dest), len(failed)))
	}
	return nil, failed, n
}

func runC30(r *Runner) {
	var mu sync.Mutex
	worlds := map[*Env]*worldC30{}
	world := func(e *Env) *worldC30 {
		mu.Lock()
		w := worlds[e]
		mu.Unlock()
		if w == nil || !exists(w.meta) {
			w = mkC30(e)
			mu.Lock()
			worlds[e] = w
			mu.Unlock()
		}
		return w
	}
	te := newEnv(r, "C30-count")
	defer te.close()
	errs := []string{"ENOSPC", "EIO", "EDQUOT"}
	nInj := 0
	count := func(n int) {
		mu.Lock()
		nInj += n
		mu.Unlock()
	}
	r.ForEach(func(yield func(Case) bool) {
		// Listings.
		for _, c := range outputsC30 {
			c := c
			if !yield(Case{"output/" + c.name, func(e *Env) *Violation { return outputC30(e, world(e), c, count) }}) {
				return
			}
		}
		// Recoveries.
		for _, pre := range []bool{false, true} {
			for gi, g := range destGroupsC30 {
				pre, g := pre, g
				v, _, n := world(te).recover(te, pre, "", "")
				if v != nil {
					yield(Case{fmt.Sprintf("recover/%v/clean", pre), func(e *Env) *Violation { v, _, _ := world(e).recover(e, pre, "", ""); return v }})
					return
				}
				total := 0
				for _, c := range strings.Split(g, ",") {
					total += n[c]
				}
				for i := 1; i <= total; i++ {
					for _, more := range []string{"", "+"} {
						i, more := i, more
						if !yield(Case{fmt.Sprintf("recover/%v/%d/%d%s", pre, gi, i, more), func(e *Env) *Violation {
							for ei, er := range errs {
								if ei > 0 && r.Quick() && i%len(errs) != ei-1 {
									continue
								}
								e.r.State(1)
								v, f, _ := world(e).recover(e, pre, g, fmt.Sprintf("error=%s:when=%d%s", er, i, more))
								e.r.Trans(len(f))
								count(len(f))
								if v != nil {
									return v
								}
							}
							return nil
						}}) {
							return
						}
					}
				}
			}
		}
		// Scans.
		for _, sc := range scensC06(r.Thorough()) {
			sc := sc
			v, _, total := storeC30(te, sc, "")
			if v != nil || total == 0 {
				if v == nil {
					continue
				}
				if !yield(Case{"scan/" + sc.name + "/clean", func(e *Env) *Violation { v, _, _ := storeC30(e, sc, ""); return v }}) {
					return
				}
				continue
			}
			step := 1
			limit := 40
			if r.Thorough() {
				limit = 400
			}
			for total/step > limit {
				step++
			}
			for i := 1; i <= total; i++ {
				if i%step != 0 && i > 8 && i < total-8 {
					continue
				}
				i := i
				if !yield(Case{fmt.Sprintf("scan/%s/%d", sc.name, i), func(e *Env) *Violation {
					for mi, more := range []string{"+", ""} {
						er := errs[(i+mi)%len(errs)]
						e.r.State(1)
						v, n, _ := storeC30(e, sc, fmt.Sprintf("error=%s:when=%d%s", er, i, more))
						e.r.Trans(n)
						count(n)
						if v != nil {
							return v
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
	})
	r.Note("calls that failed", nInj)
}

type outC30 struct {
	name string
	args func(w *worldC30) []string
}

var outputsC30 = []outC30{
	{"ls", func(w *worldC30) []string {
		return []string{"ls", "--metadata=" + w.meta, "--verbose=false", "/", "/d-dir"}
	}},
	{"ls-recursive", func(w *worldC30) []string {
		return []string{"ls", "--metadata=" + w.meta, "--verbose=false", "--recursive", "--inode"}
	}},
	{"ls-file", func(w *worldC30) []string {
		return []string{"ls", "--metadata=" + w.meta, "--verbose=false", "/a-three", "/d-dir/e-inner"}
	}},
	{"dump-index", func(w *worldC30) []string {
		return []string{"dump-index", "--metadata=" + w.meta, "--verbose=false"}
	}},
	{"identify", func(w *worldC30) []string {
		return []string{"identify", "--block-size=65536", "--verbose=false", "--progress=false", "--machine=false", "--sample-fraction=1", "--min-occurrence=1", "--min-blocks=2000", "IMAGE"}
	}},
	{"completion", func(w *worldC30) []string { return []string{"completion"} }},
}

func outputC30(e *Env, w *worldC30, c outC30, count func(int)) *Violation {
	args := c.args(w)
	if args[len(args)-1] == "IMAGE" {
		im := e.NewImage("ids30", 64<<20+120*65536)
		defer im.Close()
		for i := 0; i < 12; i++ {
			off := uint64(i+3) * 65536
			im.Write(off, encLeaf(65536, []UUID{fsid1, fsid2}[i%2], off, oFS, 9, []It{{oFS, K{300, tInode, 0}, 9, encInode(inodeT{Size: 1, Mode: 0100644, Nlink: 1})}}))
		}
		args[len(args)-1] = im.Path
	}
	const calls = "write,writev,pwrite64"
	filter := []string{"--trace-fds=1"}
	clean, _, n := e.runFail(filter, calls, "", "", args...)
	if clean.Exit != 0 || clean.crashed() || len(clean.Stdout) < 30 {
		return viol("%v: %s", args, short(clean.brief(), 300))
	}
	run := func(inject, out string) *Violation {
		in := inject
		if in != "" {
			in = calls + ":" + in
		}
		res, f, _ := e.runFail(filter, calls, in, out, args...)
		e.r.State(1)
		e.r.Trace(1)
		e.r.Trans(len(f))
		count(len(f))
		what := fmt.Sprintf("%v with failing output (%s%s)", args, inject, out)
		if res.Hung != "" || res.crashed() {
			v := viol("%s: %s", what, short(res.brief(), 300))
			v.Hung = res.Hung != ""
			return v
		}
		if res.Exit == 0 && (out != "" || res.Stdout != clean.Stdout) {
			return viol("%s reports success, but wrote %d of %d bytes", what, len(res.Stdout), len(clean.Stdout))
		}
		if res.Exit != 0 && strings.TrimSpace(res.Stderr) == "" {
			return viol("%s fails without a message", what)
		}
		e.r.Outcome(fmt.Sprint(c.name, inject, out))
		return nil
	}
	if v := run("", "/dev/full"); v != nil {
		return v
	}
	total := 0
	for _, k := range n {
		total += k
	}
	for i := 1; i <= total; i++ {
		for _, x := range []string{"ENOSPC:when=%d", "ENOSPC:when=%d+", "EIO:when=%d"} {
			if e.r.Quick() && total > 40 && i > 5 && i < total-5 && i%(total/20) != 0 {
				continue
			}
			if v := run("error="+fmt.Sprintf(x, i), ""); v != nil {
				return v
			}
		}
	}
	return nil
}
