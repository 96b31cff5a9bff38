package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// C06: crash consistency of scans.
func init() {
	register(&Prop{ID: "C06", Level: "fault_enumeration",
		Rule: "for 11 (thorough 15) scans by the real binary (new file, existing file, repeated, 0 to 45000 items, items over several database pages, replaced versions) the complete log of " +
			"writes, truncations, syncs and name changes; crash states: every prefix of the log; and in every interval between syncs all subsets of the pending operations if at most " +
			"10 (thorough 14), otherwise each one dropped, each one alone, every suffix and (thorough) every pair dropped; each pending write torn at every sector, first or last part " +
			"surviving, with all, none and only the previous of the other operations; non-trivial: distinct file contents",
		Assumptions: []string{"disks write sectors of 512 bytes atomically and do not lose data that was flushed", "a flushed new file keeps its name",
			"a torn very first write, before any metadata exists, may leave a file that is refused"},
		Run: runC06})
	calls["c06dump"] = c06dump
}

// c06dump prints whether the metadata opens and the digest of its items.
func c06dump(a []string) (code int) {
	debug.SetPanicOnFault(true)
	defer func() {
		if p := recover(); p != nil {
			fmt.Printf("panic %v\n", p)
		}
	}()
	its, err := readIndex(a[0])
	if err != nil {
		fmt.Printf("refused %v\n", err)
		return 0
	}
	fmt.Println("items", len(its), digestC06(its))
	return 0
}

func itemSum(it rawIt) string {
	h := sha256.New()
	fmt.Fprintln(h, it.Owner, it.K, it.Gen, it.Off, it.Size, len(it.Data))
	h.Write(it.Data)
	return string(h.Sum(nil))
}

func digestC06(its []rawIt) string {
	var s []string
	for _, it := range its {
		s = append(s, itemSum(it))
	}
	sort.Strings(s)
	h := sha256.Sum256([]byte(strings.Join(s, "")))
	return hex.EncodeToString(h[:])
}

// A file system in memory: names refer to files, files hold bytes.
type simFS struct {
	names map[string]int
	data  map[int][]byte
}

func newSimFS() *simFS { return &simFS{map[string]int{}, map[int][]byte{}} }

func (s *simFS) clone() *simFS {
	c := newSimFS()
	for k, v := range s.names {
		c.names[k] = v
	}
	for k, v := range s.data {
		c.data[k] = append([]byte{}, v...)
	}
	return c
}

// fsOp is a change that becomes durable with a sync of its file.
type fsOp struct {
	kind  string // write, trunc, create, unlink, rename, sync
	ino   int
	off   int64
	data  []byte
	size  int64
	name  string
	name2 string
}

func (s *simFS) apply(o fsOp) {
	switch o.kind {
	case "write":
		b := s.data[o.ino]
		if n := o.off + int64(len(o.data)); int64(len(b)) < n {
			b = append(b, make([]byte, n-int64(len(b)))...)
		}
		copy(b[o.off:], o.data)
		s.data[o.ino] = b
	case "trunc":
		b := s.data[o.ino]
		if int64(len(b)) < o.size {
			b = append(b, make([]byte, o.size-int64(len(b)))...)
		}
		s.data[o.ino] = b[:o.size]
	case "create":
		s.names[o.name] = o.ino
		if s.data[o.ino] == nil {
			s.data[o.ino] = []byte{}
		}
	case "unlink":
		delete(s.names, o.name)
	case "rename":
		if i, ok := s.names[o.name]; ok {
			delete(s.names, o.name)
			s.names[o.name2] = i
		}
	}
}

func (o fsOp) String() string {
	switch o.kind {
	case "write":
		return fmt.Sprintf("write(%d,%d)", o.off, len(o.data))
	case "trunc":
		return fmt.Sprintf("truncate(%d)", o.size)
	}
	return o.kind
}

var reCall = regexp.MustCompile(`^(\d+) +(\w+)\((.*)\) += (-?\d+)(?:<([^>]*)>)?`)

func unhexC06(s string) string {
	// Strings are printed as "\x12\x34...".
	s = strings.Trim(s, "\"")
	b, _ := hex.DecodeString(strings.ReplaceAll(s, "\\x", ""))
	return string(b)
}

// tracedRun executes the real binary and returns the changes it made in the
// directory of the metadata file.
func (e *Env) tracedRun(meta string, args ...string) (Res, []fsOp, string) {
	log := e.Path("c06.log")
	os.Remove(log)
	calls := "pwrite64,write,writev,pwritev,pwritev2,ftruncate,truncate,fsync,fdatasync,sync,syncfs,sync_file_range,msync,openat,open,creat,close,dup,dup2,dup3," +
		"fallocate,rename,renameat,renameat2,unlink,unlinkat,link,linkat,symlinkat,lseek,copy_file_range,sendfile,splice,mmap"
	a := append([]string{"-f", "-xx", "-s", "268435456", "-y", "--seccomp-bpf", "-e", "trace=" + calls, "-o", log, e.r.Bin}, args...)
	c := exec.Command("strace", a...)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	c.Dir = e.Dir
	c.Env = append(os.Environ(), "BTRFSCUE_METADATA=", "TZ=UTC")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	r := Res{}
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(wallLimit, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	err := c.Wait()
	if !t.Stop() {
		r.Hung = "did not terminate within 180 s"
	}
	r.Stdout, r.Stderr = so.String(), se.String()
	if err != nil {
		r.Exit = -1
		if c.ProcessState != nil {
			r.Exit = c.ProcessState.ExitCode()
		}
	}
	b, _ := os.ReadFile(log)
	os.Remove(log)
	ops, why := parseLogC06(string(b), filepath.Dir(meta))
	return r, ops, why
}

// parseLogC06 turns the log of system calls into operations on the files of
// a directory. why is not empty if the log has something it does not model.
func parseLogC06(log, dir string) (ops []fsOp, why string) {
	unfinished := map[string]string{}
	inos := map[string]int{} // by name
	fdIno := map[string]int{}
	fdPos := map[string]int64{}
	fdApp := map[string]bool{}
	fdSync := map[string]bool{}
	next := 1
	mine := func(p string) bool { return strings.HasPrefix(p, dir+"/") && !strings.HasSuffix(p, ".log") }
	for _, l := range strings.Split(log, "\n") {
		if i := strings.Index(l, " <unfinished ...>"); i > 0 {
			if f := strings.Fields(l); len(f) > 0 {
				unfinished[f[0]] = l[:i]
			}
			continue
		}
		if i := strings.Index(l, "<... "); i > 0 {
			pid := strings.Fields(l)[0]
			if j := strings.Index(l, " resumed>"); j > 0 {
				l = unfinished[pid] + l[j+len(" resumed>"):]
				delete(unfinished, pid)
			}
		}
		m := reCall.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		ret, _ := strconv.ParseInt(m[4], 10, 64)
		if ret < 0 {
			continue
		}
		args := strings.Split(m[3], ", ")
		arg := func(i int) string {
			if i < len(args) {
				return args[i]
			}
			return ""
		}
		num := func(i int) int64 {
			v, _ := strconv.ParseInt(arg(i), 0, 64)
			return v
		}
		fd := arg(0)
		if i := strings.Index(fd, "<"); i > 0 {
			fd = fd[:i]
		}
		ino, known := fdIno[fd]
		name := func(i int) string {
			s := arg(i)
			p := unhexC06(s)
			if p != "" && p[0] != '/' {
				p = filepath.Join(dir, p)
			}
			return p
		}
		write := func(off int64, data string) {
			if int64(len(data)) > ret {
				data = data[:ret]
			}
			ops = append(ops, fsOp{kind: "write", ino: ino, off: off, data: []byte(data)})
			if fdSync[fd] {
				ops = append(ops, fsOp{kind: "sync", ino: ino})
			}
		}
		switch m[2] {
		case "openat", "open", "creat":
			i := 0
			if m[2] == "openat" {
				i = 1
			}
			p, flags := name(i), arg(i+1)
			if !mine(p) {
				delete(fdIno, m[4])
				continue
			}
			if inos[p] == 0 {
				inos[p] = next
				next++
				ops = append(ops, fsOp{kind: "create", ino: inos[p], name: p})
			}
			fdIno[m[4]], fdPos[m[4]] = inos[p], 0
			fdApp[m[4]] = strings.Contains(flags, "O_APPEND")
			fdSync[m[4]] = strings.Contains(flags, "O_SYNC") || strings.Contains(flags, "O_DSYNC")
			if strings.Contains(flags, "O_TRUNC") || m[2] == "creat" {
				ops = append(ops, fsOp{kind: "trunc", ino: inos[p]})
			}
		case "close":
			delete(fdIno, fd)
		case "dup", "dup2", "dup3":
			if known {
				fdIno[m[4]] = ino
			}
		case "pwrite64":
			if known {
				write(num(3), unhexC06(arg(1)))
			}
		case "write":
			if known {
				if fdApp[fd] {
					return nil, "appending"
				}
				write(fdPos[fd], unhexC06(arg(1)))
				fdPos[fd] += ret
			}
		case "lseek":
			if known {
				fdPos[fd] = ret
			}
		case "ftruncate":
			if known {
				ops = append(ops, fsOp{kind: "trunc", ino: ino, size: num(1)})
			}
		case "truncate":
			if p := name(0); mine(p) {
				ops = append(ops, fsOp{kind: "trunc", ino: inos[p], size: num(1)})
			}
		case "fsync", "fdatasync":
			if known {
				ops = append(ops, fsOp{kind: "sync", ino: ino})
			}
		case "sync", "syncfs":
			ops = append(ops, fsOp{kind: "sync", ino: -1})
		case "rename", "renameat", "renameat2":
			p, q := name(0), name(1)
			if m[2] != "rename" {
				p, q = name(1), name(3)
			}
			if mine(p) || mine(q) {
				ops = append(ops, fsOp{kind: "rename", ino: -2, name: p, name2: q})
				inos[q] = inos[p]
				delete(inos, p)
			}
		case "unlink", "unlinkat":
			p := name(0)
			if m[2] == "unlinkat" {
				p = name(1)
			}
			if mine(p) {
				ops = append(ops, fsOp{kind: "unlink", ino: -2, name: p})
				delete(inos, p)
			}
		case "mmap":
			if f := arg(4); strings.Contains(arg(2), "PROT_WRITE") && strings.Contains(arg(3), "MAP_SHARED") {
				if i := strings.Index(f, "<"); i > 0 {
					f = f[:i]
				}
				if _, ok := fdIno[f]; ok {
					return nil, "writable shared mapping"
				}
			}
		case "sync_file_range", "msync":
		case "writev", "pwritev", "pwritev2", "fallocate", "link", "linkat", "symlinkat", "copy_file_range", "sendfile", "splice":
			if known || mine(name(1)) || mine(name(2)) || mine(name(3)) {
				return nil, m[2]
			}
		}
	}
	return ops, ""
}

// scenC06 is one scan.
type scenC06 struct {
	name string
	bs   int
	pre  []It // items stored before, nil: no file
	has  bool
	its  []blk
	long bool
}

func itemsN(n, from int, size int, gen uint64) []It {
	var out []It
	for i := 0; i < n; i++ {
		d := make([]byte, size)
		patInto(d, uint64(from+i)*131+gen)
		out = append(out, It{oFS, K{uint64(256 + from + i), 24, uint64(i % 7)}, gen, d})
	}
	return out
}

// blksOf places items in leaves one after the other from the given offset.
func blksOf(bs int, off uint64, its []It) (out []blk) {
	for _, l := range packLeaves(bs, its) {
		out = append(out, blk{off: off, data: encLeaf(bs, fsid1, off, oFS, l[0].Gen, l), its: l})
		off += uint64(bs)
	}
	return out
}

func scensC06(thorough bool) []scenC06 {
	small := itemsN(40, 0, 30, 5)
	out := []scenC06{
		{name: "new-small", bs: 16384, its: blksOf(16384, 1<<20, small)},
		{name: "new-empty", bs: 16384},
		{name: "existing-small", bs: 16384, has: true, pre: small, its: blksOf(16384, 1<<20, itemsN(60, 30, 50, 6))},
		{name: "existing-same", bs: 16384, has: true, pre: small, its: blksOf(16384, 1<<20, small)},
		{name: "existing-nothing-new", bs: 16384, has: true, pre: small},
		{name: "existing-replace", bs: 16384, has: true, pre: small, its: blksOf(16384, 1<<20, itemsN(40, 0, 31, 5))},
		{name: "new-large-items", bs: 65536, its: blksOf(65536, 1<<20, append(itemsN(3, 0, 60000, 5), itemsN(5, 10, 9000, 5)...))},
		{name: "existing-large-items", bs: 65536, has: true, pre: itemsN(6, 0, 20000, 5), its: blksOf(65536, 1<<20, itemsN(6, 3, 21000, 5))},
		{name: "new-10001", bs: 65536, its: blksOf(65536, 1<<20, itemsN(10001, 0, 0, 5)), long: true},
		{name: "existing-20500", bs: 65536, has: true, pre: itemsN(3000, 9000, 1, 4), its: blksOf(65536, 1<<20, itemsN(20500, 0, 1, 5)), long: true},
		{name: "existing-replace-11000", bs: 65536, has: true, pre: itemsN(11000, 0, 1, 5), its: blksOf(65536, 1<<20, itemsN(11000, 0, 2, 5)), long: true},
	}
	if thorough {
		out = append(out, scenC06{name: "new-10000", bs: 65536, its: blksOf(65536, 1<<20, itemsN(10000, 0, 0, 5)), long: true},
			scenC06{name: "new-10002", bs: 65536, its: blksOf(65536, 1<<20, itemsN(10002, 0, 0, 5)), long: true},
			scenC06{name: "new-45000", bs: 65536, its: blksOf(65536, 1<<20, itemsN(45000, 0, 20, 5)), long: true},
			scenC06{name: "existing-45000-interleaved", bs: 65536, has: true, pre: itemsN(30000, 10000, 12, 5), its: blksOf(65536, 1<<20, itemsN(45000, 0, 12, 6)), long: true})
	}
	return out
}

// runTrace is a traced scan with everything needed to build crash states.
type runTrace struct {
	sc      scenC06
	bad     *Violation
	skip    string
	initial *simFS
	meta    string
	ops     []fsOp
	epochs  []epochC06
	fin     string // digest of the complete scan
}

// epochC06 is an interval between syncs.
type epochC06 struct {
	base    *simFS // durable state
	ops     []fsOp // pending operations
	allowed map[string]int
	min     int // committed content at the end of the interval
	first   int // number of operations before this interval
}

func (t *runTrace) read(e *Env, s *simFS, path string) (string, string) {
	os.Remove(path)
	i, ok := s.names[t.meta]
	if !ok {
		return "missing", ""
	}
	os.WriteFile(path, s.data[i], 0666)
	os.Chmod(path, 0666)
	res := e.Call("c06dump", path)
	if res.crashed() {
		return "crash", short(res.brief(), 300)
	}
	f := strings.SplitN(strings.TrimSpace(res.Stdout), " ", 2)
	if len(f) < 2 {
		return "crash", "no answer"
	}
	return f[0], f[1]
}

const noFileC06 = -1

// trace runs the scan and determines its commit points.
func traceC06(e *Env, sc scenC06) *runTrace {
	t := &runTrace{sc: sc}
	dir := e.Path("t")
	os.RemoveAll(dir)
	os.Mkdir(dir, 0777)
	os.Chmod(dir, 0777)
	t.meta = filepath.Join(dir, "meta")
	im := e.imageWith("imgT", sizeFor(sc.bs), sc.its)
	defer im.Close()
	t.initial = newSimFS()
	if sc.has {
		writeIndexAs(t.meta, sc.bs, sc.pre)
		os.Chmod(t.meta, 0666)
		b, _ := os.ReadFile(t.meta)
		t.initial.names[t.meta], t.initial.data[1] = 1, b
	}
	res, ops, why := e.tracedRun(t.meta, "recon", "--metadata="+t.meta, "--progress=false", "--verbose=false", fmt.Sprintf("--block-size=%d", sc.bs), "--id="+fsid1.String(), im.Path)
	if res.Exit != 0 || res.crashed() {
		t.bad = viol("%s: scan failed: %s", sc.name, short(res.brief(), 300))
		return t
	}
	if why != "" {
		t.skip = "unmodelled system call: " + why
		return t
	}
	if sc.has {
		// The first open "creates" the file that is there already.
		if len(ops) > 0 && ops[0].kind == "create" && ops[0].name == t.meta {
			ops = ops[1:]
		} else {
			for i := range ops {
				if ops[i].kind == "create" && ops[i].name == t.meta {
					ino := ops[i].ino
					t.initial.names[t.meta], t.initial.data[ino] = ino, t.initial.data[1]
					if ino != 1 {
						delete(t.initial.data, 1)
					}
					ops = append(append([]fsOp{}, ops[:i]...), ops[i+1:]...)
					break
				}
			}
		}
	}
	t.ops = ops
	// Conformance of the log: replaying it gives the real file.
	s := t.initial.clone()
	for _, o := range ops {
		s.apply(o)
	}
	real, _ := os.ReadFile(t.meta)
	if !bytes.Equal(s.data[s.names[t.meta]], real) {
		t.skip = "the log does not reproduce the file"
		return t
	}
	// Contents visible at every point if only the process stops.
	want := newModel(sc.pre...)
	for _, b := range sc.its {
		want.put(b.its...)
	}
	s = t.initial.clone()
	type vis struct {
		at  int
		dig string
	}
	var seq []vis
	var prevItems map[string]string
	tmp := e.Path("v")
	note := func(at int) *Violation {
		k, d := t.read(e, s, tmp)
		if k != "items" {
			if len(seq) > 0 {
				return viol("%s: when the process stops after operation %d (%v) the metadata does not open any more: %s %s", sc.name, at, lastOp(ops, at), k, d)
			}
			return nil
		}
		d = strings.Fields(d)[1]
		if len(seq) > 0 && seq[len(seq)-1].dig == d {
			return nil
		}
		seq = append(seq, vis{at, d})
		its, err := readIndex(tmp)
		if err != nil {
			return viol("%s: %v", sc.name, err)
		}
		cur := map[string]string{}
		for _, it := range its {
			id := fmt.Sprint(it.Owner, it.K, it.Gen)
			cur[id] = itemSum(it)
			w := want.lookup(it.Owner, it.K, it.Gen)
			ok := w != nil && w.Gen == it.Gen && bytes.Equal(w.Data, it.Data)
			if !ok && sc.has {
				for _, p := range sc.pre {
					if p.Owner == it.Owner && p.K == it.K && p.Gen == it.Gen && bytes.Equal(p.Data, it.Data) {
						ok = true
						break
					}
				}
			}
			if !ok {
				return viol("%s: after operation %d the metadata holds %s, which neither the image nor the earlier metadata has", sc.name, at, id)
			}
		}
		for id := range prevItems {
			if cur[id] == "" {
				return viol("%s: when the process stops after operation %d (%v), item %s that was stored before is lost", sc.name, at, lastOp(ops, at), id)
			}
		}
		prevItems = cur
		return nil
	}
	if t.bad = note(0); t.bad != nil {
		return t
	}
	for i, o := range ops {
		s.apply(o)
		if o.kind != "sync" {
			if t.bad = note(i + 1); t.bad != nil {
				return t
			}
		}
	}
	if len(seq) == 0 {
		t.bad = viol("%s: the metadata does not open after the scan", sc.name)
		return t
	}
	t.fin = seq[len(seq)-1].dig
	if d := cmpItems(t.meta, want, nil); d != "" {
		t.bad = viol("%s: after the scan: %s", sc.name, d)
		return t
	}
	// A content is committed once the scan goes on to change the file after it
	// has become visible, or has ended.
	committedAt := func(n int, end bool) int {
		c := noFileC06
		for j, v := range seq {
			k := v.at // operations applied when it became visible
			done := k == 0
			for x := k; x < n && !done; x++ {
				if ops[x].kind != "sync" {
					done = true
				}
			}
			if done || end && n == len(ops) {
				c = j
			}
		}
		return c
	}
	visibleBy := func(n int) map[string]int {
		m := map[string]int{}
		for j, v := range seq {
			if v.at <= n {
				m[v.dig] = j
			}
		}
		return m
	}
	// Intervals: a sync makes the pending operations of its file and all name
	// changes durable.
	durable := t.initial.clone()
	var pend []fsOp
	first := 0
	flush := func(n int, end bool) {
		if len(pend) > 0 || end {
			t.epochs = append(t.epochs, epochC06{durable.clone(), append([]fsOp{}, pend...), visibleBy(n), committedAt(n, end), first})
		}
	}
	for i, o := range ops {
		if o.kind != "sync" {
			pend = append(pend, o)
			continue
		}
		flush(i, false)
		var rest []fsOp
		for _, p := range pend {
			if p.ino == o.ino || o.ino == -1 || p.kind == "create" || p.kind == "rename" || p.kind == "unlink" {
				durable.apply(p)
			} else {
				rest = append(rest, p)
			}
		}
		pend = rest
		first = i + 1
	}
	flush(len(ops), true)
	// Only names created after the last state that is durable.
	return t
}

func lastOp(ops []fsOp, at int) fsOp {
	if at == 0 {
		return fsOp{kind: "start"}
	}
	return ops[at-1]
}

func writeIndexAs(path string, bs int, its []It) {
	os.Remove(path)
	ix, err := openIx(path, uint(bs), fsid1, max64, false)
	if err != nil {
		panic(err)
	}
	for _, it := range its {
		insertIt(ix, it)
	}
	ix.Commit()
	ix.Close()
}

// crash is one crash state of an interval: which pending operations reach the
// disk, and how much of one of them.
type crashC06 struct {
	keep       []bool
	torn       int // index of a torn write, or -1
	from, upto int // the part of it that survives
}

func (c crashC06) String() string {
	var lost []string
	n := 0
	for i, k := range c.keep {
		if !k && i != c.torn {
			n++
			if len(lost) < 12 {
				lost = append(lost, fmt.Sprint(i))
			}
		}
	}
	s := fmt.Sprintf("%d of %d pending operations lost (%s)", n, len(c.keep), strings.Join(lost, " "))
	if c.torn >= 0 {
		s += fmt.Sprintf(", of operation %d only bytes %d to %d written", c.torn, c.from, c.upto)
	}
	return s
}

func crashesC06(ops []fsOp, thorough, long bool, yield func(crashC06)) {
	k := len(ops)
	all := func(v bool) []bool {
		b := make([]bool, k)
		for i := range b {
			b[i] = v
		}
		return b
	}
	set := func(b []bool, v bool, is ...int) []bool {
		b = append([]bool{}, b...)
		for _, i := range is {
			b[i] = v
		}
		return b
	}
	max := 10
	if thorough {
		max = 14
	}
	if k <= max {
		for m := 0; m < 1<<k; m++ {
			b := make([]bool, k)
			for i := range b {
				b[i] = m>>i&1 != 0
			}
			yield(crashC06{keep: b, torn: -1})
		}
	} else {
		for n := 0; n <= k; n++ {
			b := all(false)
			for i := 0; i < n; i++ {
				b[i] = true
			}
			yield(crashC06{keep: b, torn: -1})
			b2 := all(true)
			for i := 0; i < n; i++ {
				b2[i] = false
			}
			yield(crashC06{keep: b2, torn: -1})
		}
		for i := 0; i < k; i++ {
			yield(crashC06{keep: set(all(true), false, i), torn: -1})
			yield(crashC06{keep: set(all(false), true, i), torn: -1})
			if thorough && k <= 120 {
				for j := 0; j < i; j++ {
					yield(crashC06{keep: set(all(true), false, i, j), torn: -1})
				}
			}
		}
	}
	for i, o := range ops {
		if o.kind != "write" || len(o.data) <= 512 {
			continue
		}
		n := len(o.data) / 512
		var cuts []int
		for c := 1; c < n; c++ {
			if long && !thorough {
				if c == n/2 {
					cuts = append(cuts, c*512)
				}
			} else if n <= 40 || c < 9 || c > n-9 || c&(c-1) == 0 || thorough && c%8 == 0 {
				cuts = append(cuts, c*512)
			}
		}
		before := all(false)
		for j := 0; j < i; j++ {
			before[j] = true
		}
		for _, c := range cuts {
			for x, b := range [][]bool{set(all(true), false, i), all(false), before} {
				if x > 0 && long && !thorough {
					continue
				}
				yield(crashC06{keep: b, torn: i, upto: c})
				yield(crashC06{keep: b, torn: i, from: c, upto: len(o.data)})
			}
		}
	}
}

func (ep *epochC06) build(c crashC06) *simFS {
	s := ep.base.clone()
	for i, o := range ep.ops {
		if i == c.torn {
			o.off += int64(c.from)
			o.data = o.data[c.from:c.upto]
			s.apply(o)
		} else if c.keep[i] || o.kind == "create" && anyKept(ep.ops, c, o.ino) {
			s.apply(o)
		}
	}
	return s
}

// anyKept: data of a file that has no name is not seen; only states in which
// the file exists are of interest once some of its data was kept.
func anyKept(ops []fsOp, c crashC06, ino int) bool {
	for i, o := range ops {
		if o.ino == ino && o.kind != "create" && (c.keep[i] || i == c.torn) {
			return true
		}
	}
	return false
}

func runC06(r *Runner) {
	te := newEnv(r, "C06-trace")
	defer te.close()
	var mu sync.Mutex
	nOps, nEpochs, skipped := 0, 0, []string{}
	seenAll := map[string]bool{}
	r.ForEach(func(yield func(Case) bool) {
		for _, sc := range scensC06(r.Thorough()) {
			if r.Only != "" && !strings.HasPrefix(r.Only, sc.name+"/") {
				continue
			}
			t := traceC06(te, sc)
			if t.bad != nil {
				sc := sc
				if !yield(Case{sc.name + "/trace", func(e *Env) *Violation { return traceC06(e, sc).bad }}) {
					return
				}
				continue
			}
			if t.skip != "" {
				skipped = append(skipped, sc.name+": "+t.skip)
				continue
			}
			nOps += len(t.ops)
			nEpochs += len(t.epochs)
			for i := range t.epochs {
				ep := &t.epochs[i]
				var batch []crashC06
				part := 0
				emit := func() bool {
					b, p, i := batch, part, i
					batch = nil
					part++
					return yield(Case{fmt.Sprintf("%s/%d/%d", sc.name, i, p), func(e *Env) *Violation {
						for _, c := range b {
							if v := crashCheckC06(e, t, i, c, &mu, seenAll); v != nil {
								return v
							}
						}
						return nil
					}})
				}
				stop := false
				crashesC06(ep.ops, r.Thorough(), sc.long, func(c crashC06) {
					if stop {
						return
					}
					batch = append(batch, c)
					if len(batch) == 64 {
						stop = !emit()
					}
				})
				if stop || len(batch) > 0 && !emit() {
					return
				}
			}
			// Binding of the log to real crashes: kill the real process.
			for n := 1; n <= 40; n++ {
				sc, n := sc, n
				if sc.long && n > 12 && !r.Thorough() {
					break
				}
				if !yield(Case{fmt.Sprintf("%s/kill/%d", sc.name, n), func(e *Env) *Violation { return killC06(e, t, n) }}) {
					return
				}
			}
		}
	})
	r.Note("operations in logs", nOps)
	r.Note("intervals", nEpochs)
	if len(skipped) > 0 {
		r.Note("not explored", skipped)
		fmt.Println("C06: not explored:", strings.Join(skipped, "; "))
	}
}

func crashCheckC06(e *Env, t *runTrace, i int, c crashC06, mu *sync.Mutex, seen map[string]bool) *Violation {
	ep := &t.epochs[i]
	s := ep.build(c)
	e.r.State(1)
	h := sha256.New()
	fmt.Fprintln(h, t.sc.name, ep.min, len(ep.allowed))
	ino, ok := s.names[t.meta]
	fmt.Fprintln(h, ok)
	h.Write(s.data[ino])
	key := string(h.Sum(nil))
	mu.Lock()
	dup := seen[key]
	mu.Unlock()
	if dup {
		return nil
	}
	what := func() string { return fmt.Sprintf("%s, interval %d (%s): %v", t.sc.name, i, opsString(ep.ops), c) }
	p := e.Path("c")
	k, d := t.read(e, s, p)
	e.r.Trans(1)
	e.r.Trace(1)
	rescan := true
	switch {
	case k == "crash" && ep.min == noFileC06 && ep.first == 0:
		rescan = false
	case k == "crash":
		return viol("%s: reading the metadata crashes: %s", what(), d)
	case k == "items":
		f := strings.Fields(d)
		j, ok := ep.allowed[f[1]]
		if !ok && !(ep.min == noFileC06 && f[0] == "0") {
			return viol("%s: the metadata holds %s items that were not the content at any commit point", what(), f[0])
		}
		if ok && j < ep.min {
			return viol("%s: the metadata holds %s items, the content of commit point %d although %d was complete", what(), f[0], j, ep.min)
		}
	default: // refused, missing, panic
		if ep.min != noFileC06 {
			return viol("%s: the metadata does not open: %s %s", what(), k, d)
		}
		// The very first write may be torn.
		rescan = ep.first > 0 || k == "missing"
	}
	e.r.Outcome(key)
	// Long scans are repeated only for prefixes and suffixes of the log, quick.
	if rescan && (!t.sc.long || e.r.Thorough() || c.torn < 0 && (monotone(c.keep) || i%8 == 0)) {
		res := recon(e, e.imageOnce(t.sc), p, t.sc.bs, fsid1)
		if res.crashed() || res.Exit != 0 {
			v := viol("%s: scanning again fails: %s", what(), short(res.brief(), 300))
			v.Hung = res.Hung != ""
			return v
		}
		res = e.Call("c06dump", p)
		if f := strings.Fields(res.Stdout); len(f) != 3 || f[2] != t.fin {
			return viol("%s: scanning again gives another content: %s", what(), short(res.Stdout, 100))
		}
		e.r.Trace(1)
	}
	mu.Lock()
	seen[key] = true
	mu.Unlock()
	return nil
}

func opsString(ops []fsOp) string {
	var s []string
	for i, o := range ops {
		if i == 8 {
			s = append(s, "...")
			break
		}
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

// killC06 kills the real process at its n-th write or sync and compares the
// file with the states the log predicts.
func killC06(e *Env, t *runTrace, n int) *Violation {
	dir := e.Path("k")
	os.RemoveAll(dir)
	os.Mkdir(dir, 0777)
	os.Chmod(dir, 0777)
	meta := filepath.Join(dir, "meta")
	if i, ok := t.initial.names[t.meta]; ok {
		os.WriteFile(meta, t.initial.data[i], 0666)
		os.Chmod(meta, 0666)
	}
	img := e.imageOnce(t.sc)
	c := exec.Command("strace", "-f", "--seccomp-bpf", "-o", "/dev/null", "-e", "trace=pwrite64,fdatasync,fsync,ftruncate",
		"-e", fmt.Sprintf("inject=pwrite64,fdatasync,fsync,ftruncate:signal=KILL:when=%d", n),
		e.r.Bin, "recon", "--metadata="+meta, "--progress=false", "--verbose=false", fmt.Sprintf("--block-size=%d", t.sc.bs), "--id="+fsid1.String(), img)
	c.Dir = e.Dir
	c.Env = append(os.Environ(), "BTRFSCUE_METADATA=", "TZ=UTC")
	if os.Getuid() == 0 {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	c.Run()
	e.r.State(1)
	res := e.Call("c06dump", meta)
	f := strings.Fields(res.Stdout)
	what := fmt.Sprintf("%s: killed at its write or sync number %d", t.sc.name, n)
	if res.crashed() || len(f) == 0 {
		return viol("%s: reading the metadata crashes: %s", what, short(res.brief(), 300))
	}
	if f[0] == "items" {
		last := t.epochs[len(t.epochs)-1]
		if _, ok := last.allowed[f[2]]; !ok && f[1] != "0" {
			return viol("%s: the metadata holds %s items that were not the content at any commit point", what, f[1])
		}
	} else if t.sc.has {
		return viol("%s: the metadata does not open: %s", what, res.Stdout)
	}
	res = recon(e, img, meta, t.sc.bs, fsid1)
	if res.crashed() || res.Exit != 0 {
		return viol("%s: scanning again fails: %s", what, short(res.brief(), 300))
	}
	res = e.Call("c06dump", meta)
	if f := strings.Fields(res.Stdout); len(f) != 3 || f[2] != t.fin {
		return viol("%s: scanning again gives another content: %s", what, short(res.Stdout, 100))
	}
	e.r.Trans(1)
	e.r.Trace(1)
	e.r.Outcome(what)
	return nil
}

// monotone: the pending operations that survive are a prefix or a suffix.
func monotone(keep []bool) bool {
	n := 0
	for i := 1; i < len(keep); i++ {
		if keep[i] != keep[i-1] {
			n++
		}
	}
	return n <= 1
}

// imageOnce writes the image of a scan once for each worker.
func (e *Env) imageOnce(sc scenC06) string {
	name := "img-" + sc.name
	if _, err := os.Stat(e.Path(name)); err == nil {
		return e.Path(name)
	}
	old, _ := filepath.Glob(e.Path("img-*"))
	for _, o := range old {
		os.Remove(o)
	}
	f, err := os.OpenFile(e.Path(name+".tmp"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	f.Truncate(sizeFor(sc.bs))
	for _, b := range sc.its {
		f.WriteAt(b.data, int64(b.off))
	}
	os.Rename(e.Path(name+".tmp"), e.Path(name))
	return e.Path(name)
}
