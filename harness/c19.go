package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

// C19: image and metadata are only read.
func init() {
	register(&Prop{ID: "C19", Level: "model_checking",
		Rule: "every command with every kind of argument, on writable and on read-only image and metadata, while other readers hold the files, observed by content, " +
			"mode, times and by every system call on the two files; all modifying FUSE requests of 26 kinds on 11 kinds of nodes, opens with all 192 flag " +
			"combinations, all attribute masks, all pairs of modifying requests on handles of every open mode; non-trivial: distinct request kinds and replies",
		Assumptions: []string{"the kernel's side of the FUSE protocol is played by the explorer"},
		Run:         runC19})
}

var fixedTime = time.Unix(1600000000, 0)

// guard remembers the state of the files that must not change.
type guard struct {
	paths []string
	st    []syscall.Stat_t
	sum   [][32]byte

	anyCtim bool // links may have been removed
}

func fileSum(p string) [32]byte {
	f, err := os.Open(p)
	if err != nil {
		return [32]byte{}
	}
	defer f.Close()
	// The rest of images is a hole.
	b, _ := io.ReadAll(io.LimitReader(f, 8*mib))
	return sha256.Sum256(b)
}

func newGuard(paths ...string) *guard {
	g := &guard{paths: paths}
	for _, p := range paths {
		// Any change shows in the modification time.
		os.Chtimes(p, fixedTime, fixedTime)
		var st syscall.Stat_t
		syscall.Stat(p, &st)
		g.st = append(g.st, st)
		g.sum = append(g.sum, fileSum(p))
	}
	return g
}

func (g *guard) check(full bool) string {
	for i, p := range g.paths {
		var st syscall.Stat_t
		if err := syscall.Stat(p, &st); err != nil {
			return fmt.Sprintf("%s is gone: %v", filepath.Base(p), err)
		}
		w := g.st[i]
		if st.Ino != w.Ino {
			return filepath.Base(p) + " was replaced by another file"
		}
		if st.Size != w.Size {
			return fmt.Sprintf("the size of %s changed from %d to %d", filepath.Base(p), w.Size, st.Size)
		}
		if st.Mode != w.Mode || st.Uid != w.Uid || st.Gid != w.Gid {
			return fmt.Sprintf("the mode or owner of %s changed", filepath.Base(p))
		}
		if st.Mtim != w.Mtim || st.Ctim != w.Ctim && !g.anyCtim {
			return fmt.Sprintf("%s was modified (its times changed)", filepath.Base(p))
		}
		if st.Blocks != w.Blocks {
			return filepath.Base(p) + " was written to"
		}
		if full && fileSum(p) != g.sum[i] {
			return "the content of " + filepath.Base(p) + " changed"
		}
	}
	return ""
}

// c19Files makes an image that recon can scan and a metadata file.
func c19Files(e *Env, writable bool) (img, meta string, its []It) {
	its = append(append([]It{}, chunkItem(0, 6*mib, 1, 0)), fsItems(
		dirN("d", 310, inlineN("f", 300, "content of f"), dirN("e", 311)),
		linkN("l", 301, "d/f"), fileN("empty", 302, 0),
		fileN("data", 303, 3*S, ext{Off: 0, Disk: mib, Num: S}, ext{Off: S, Num: S}, ext{Off: 2 * S, Disk: 2 * mib, Num: S}),
		&node{Name: "fifo", Ft: ftFifo, Ino: 304}, &node{Name: "chr", Ft: ftChr, Ino: 305},
		subvolN("v", 400, inlineN("f", 300, "in v")))...)
	im := rcvImage(e)
	if err := os.Truncate(im.Path, 72*mib); err != nil {
		panic(err)
	}
	im.Close()
	img, meta = im.Path, e.Path("meta.db")
	writeIndex(meta, 4096, its)
	for _, p := range []string{img, meta} {
		if writable {
			os.Chown(p, nobody, nobody)
			os.Chmod(p, 0644)
		} else {
			os.Chown(p, 0, 0)
			os.Chmod(p, 0444)
		}
	}
	return
}

var (
	reSys  = regexp.MustCompile(`^(?:\d+ +)?(\w+)\((.*)\) *= (-?\d+|\?)`)
	badSys = regexp.MustCompile(`^(p?writev?(64|2)?|ftruncate|truncate|fallocate|f?chmod(at2?)?|f?chown(at)?|utimensat|unlink(at)?|rename(at2?)?|f?setxattr|f?removexattr|link(at)?|copy_file_range|sendfile|mknod(at)?|creat|fdatasync|fsync)$`)
)

// syscallsOn runs a command and returns all system calls on a path that are
// not those of a mere reader. image locks must not exclude readers.
func (e *Env) syscallsOn(path string, image bool, args ...string) (Res, string) {
	log := e.Path("strace.log")
	os.Remove(log)
	r := e.straceLog(path, log, args...)
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(b), "\n") {
		m := reSys.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		switch {
		case badSys.MatchString(m[1]):
			return r, l
		case m[1] == "open" || m[1] == "openat" || m[1] == "openat2":
			if strings.Contains(m[2], "O_WRONLY") || strings.Contains(m[2], "O_RDWR") ||
				strings.Contains(m[2], "O_TRUNC") {
				// O_CREAT without O_TRUNC leaves an existing file as it is.
				return r, l
			}
		case m[1] == "flock":
			if image && strings.Contains(m[2], "LOCK_EX") || !image && strings.Contains(m[2], "LOCK_EX") {
				return r, l
			}
		case m[1] == "fcntl":
			if strings.Contains(m[2], "F_WRLCK") {
				return r, l
			}
		case m[1] == "mmap":
			if strings.Contains(m[2], "PROT_WRITE") && strings.Contains(m[2], "MAP_SHARED") {
				return r, l
			}
		}
	}
	return r, ""
}

type c19Cmd struct {
	name string
	scan bool // writes the metadata file
	args func(img, meta, dest string) []string
}

func c19Cmds() []c19Cmd {
	ls := func(m string, rec bool, p ...string) []string {
		return append([]string{"ls", "--metadata=" + m, "--verbose=false", fmt.Sprintf("--recursive=%v", rec), fmt.Sprintf("--inode=%v", rec)}, p...)
	}
	dump := func(m string) []string { return []string{"dump-index", "--metadata=" + m, "--verbose=false"} }
	rec := func(m string, clobber bool, i, d string) []string {
		return []string{"recover", "--metadata=" + m, "--verbose=false", fmt.Sprintf("--clobber=%v", clobber), i, d}
	}
	return []c19Cmd{
		{"ls", false, func(i, m, d string) []string { return ls(m, false, "/") }},
		{"ls -r", false, func(i, m, d string) []string { return ls(m, true, "/", "/d", "/none", "/v/f") }},
		{"dump-index", false, func(i, m, d string) []string { return dump(m) }},
		{"recover", false, func(i, m, d string) []string { return rec(m, false, i, d) }},
		{"recover --clobber", false, func(i, m, d string) []string { return rec(m, true, i, d) }},
		{"identify", false, func(i, m, d string) []string {
			return []string{"identify", "--progress=false", "--verbose=false", "--metadata=", "--machine=true", "--block-size=4096",
				"--min-blocks=10", "--max-blocks=1000000", "--sample-fraction=0.0001", "--min-occurrence=1", i}
		}},
		{"recon", true, func(i, m, d string) []string {
			return []string{"recon", "--metadata=" + m, "--progress=false", "--verbose=false", "--block-size=4096", "--id=" + fsid1.String(), i}
		}},
		// The image given as metadata.
		{"ls image", false, func(i, m, d string) []string { return ls(i, true, "/") }},
		{"dump-index image", false, func(i, m, d string) []string { return dump(i) }},
		{"recover image", false, func(i, m, d string) []string { return rec(i, true, i, d) }},
		{"recover metadata", false, func(i, m, d string) []string { return rec(m, true, m, d) }},
	}
}

func runC19(r *Runner) {
	r.ForEach(func(yield func(Case) bool) {
		add := func(id string, f func(e *Env) *Violation) bool { return yield(Case{id, f}) }
		for _, c := range c19Cmds() {
			c := c
			for _, writable := range []bool{true, false} {
				writable := writable
				id := fmt.Sprintf("cmd/%s/writable=%v", c.name, writable)
				if !add(id, func(e *Env) *Violation { return c19Command(e, c, writable) }) {
					return
				}
				if !add(id+"/syscalls", func(e *Env) *Violation { return c19Syscalls(e, c, writable) }) {
					return
				}
			}
		}
		if !add("recon-image-as-metadata", func(e *Env) *Violation {
			img, _, _ := c19Files(e, true)
			g := newGuard(img)
			e.CLI("recon", "--metadata="+img, "--progress=false", "--verbose=false", "--block-size=4096", "--id="+fsid1.String(), img)
			if d := g.check(true); d != "" {
				return viol("recon with the image given as metadata: %s", d)
			}
			return nil
		}) {
			return
		}
		for _, in := range []string{"data", "l", "d/f", "v/f", "empty"} {
			for which := 0; which < 2; which++ {
				for _, how := range []string{"moved", "hardlink", "symlink"} {
					for _, clobber := range []bool{false, true} {
						in, which, how, clobber := in, which, how, clobber
						if !add(fmt.Sprintf("recover-onto/%s/%d/%s/%v", in, which, how, clobber), func(e *Env) *Violation {
							return c19Onto(e, in, which, how, clobber)
						}) {
							return
						}
					}
				}
			}
		}
		// Other readers and the mount at the same time.
		if !add("shared", c19Shared) {
			return
		}
		for _, writable := range []bool{true, false} {
			for _, real := range []bool{false, true} {
				writable, real := writable, real
				if !add(fmt.Sprintf("mount/open-flags/%v/%v", writable, real), func(e *Env) *Violation { return c19Open(e, writable, real) }) {
					return
				}
				if !add(fmt.Sprintf("mount/requests/%v/%v", writable, real), func(e *Env) *Violation { return c19Requests(e, writable, real) }) {
					return
				}
			}
		}
		for _, with := range []string{"nothing", "file", "dir", "dangling"} {
			for _, real := range []bool{false, true} {
				with, real := with, real
				if !add(fmt.Sprintf("mount/gone/%s/%v", with, real), func(e *Env) *Violation { return c19Gone(e, with, real) }) {
					return
				}
			}
		}
		for _, node := range []string{"metadata", "rescue/data", "rescue/d/f", "rescue/empty"} {
			for mode := 0; mode < 3; mode++ {
				node, mode := node, mode
				if !add(fmt.Sprintf("mount/handles/%s/%d", node, mode), func(e *Env) *Violation { return c19Handles(e, node, uint32(mode)) }) {
					return
				}
			}
		}
	})
}

func c19Command(e *Env, c c19Cmd, writable bool) *Violation {
	img, meta, its := c19Files(e, writable)
	dest := e.rmDest("dest")
	paths := []string{img, meta}
	if c.scan {
		os.Chmod(meta, 0644)
		os.Chown(meta, nobody, nobody)
		paths = paths[:1]
	}
	g := newGuard(paths...)
	for i := 0; i < 2; i++ {
		res := e.CLI(c.args(img, meta, dest)...)
		e.r.Trace(1)
		e.r.Trans(1)
		if d := g.check(true); d != "" {
			return viol("%s: %s", c.name, d)
		}
		if res.crashed() {
			return viol("%s: %s", c.name, res.brief())
		}
		if !strings.Contains(c.name, "image") && !strings.Contains(c.name, "metadata") {
			if res.Exit != 0 || strings.Contains(res.Stderr, "permission denied") || strings.Contains(res.Stderr, "read-only") {
				return viol("%s does not work with files that can only be read: %s", c.name, res.brief())
			}
			if c.name == "ls" && !strings.Contains(res.Stdout, "data") || c.name == "dump-index" && !strings.Contains(res.Stdout, "(303 INODE_ITEM 0)") {
				return viol("%s does not show the recorded files: %s", c.name, short(res.Stdout, 300))
			}
		}
	}
	if strings.HasPrefix(c.name, "recover") && !strings.Contains(c.name, "image") && !strings.Contains(c.name, "metadata") {
		b, err := os.ReadFile(filepath.Join(dest, "data"))
		want, _ := view{newModel(its...)}.content(oFS, 303, func(off, n uint64) ([]byte, bool) { return pat(off, n), true })
		if err != nil || !bytes.Equal(b, want) {
			return viol("%s: the recovered file is wrong: %v", c.name, err)
		}
	}
	e.r.State(1)
	e.r.Outcome(c.name + fmt.Sprint(writable))
	return nil
}

// c19Onto recovers into a directory that holds the image or the metadata where
// a file is to be recovered.
func c19Onto(e *Env, in string, which int, how string, clobber bool) *Violation {
	img, meta, its := c19Files(e, true)
	dest := e.rmDest("dest")
	p := filepath.Join(dest, in)
	for q := filepath.Dir(p); len(q) >= len(dest); q = filepath.Dir(q) {
		if err := os.MkdirAll(q, 0755); err != nil {
			panic(err)
		}
		os.Chown(q, nobody, nobody)
	}
	var err error
	src := []*string{&img, &meta}[which]
	switch how {
	case "moved":
		err = os.Rename(*src, p)
		*src = p
	case "hardlink":
		err = os.Link(*src, p)
	case "symlink":
		err = os.Symlink(*src, p)
	}
	if err != nil {
		panic(err)
	}
	g := newGuard(img, meta)
	res := e.CLI("recover", "--metadata="+meta, "--verbose=false", fmt.Sprintf("--clobber=%v", clobber), img, dest)
	e.r.Trace(1)
	e.r.State(1)
	if res.crashed() {
		return viol("%s", res.brief())
	}
	if how != "moved" {
		// Removing another link to the file is no modification.
		g.anyCtim = true
	}
	if d := g.check(true); d != "" {
		return viol("recover to a directory that has the file at %q: %s", in, d)
	}
	for _, q := range []string{"data", "d/f", "v/f"} {
		if q == in {
			continue
		}
		v := view{newModel(its...)}
		owner, ino := uint64(oFS), uint64(300)
		if q == "data" {
			ino = 303
		} else if q == "v/f" {
			owner = 400
		}
		want, _ := v.content(owner, ino, func(off, n uint64) ([]byte, bool) { return pat(off, n), true })
		if b, err := os.ReadFile(filepath.Join(dest, q)); err != nil || !bytes.Equal(b, want) {
			return viol("%q is not recovered: %v", q, err)
		}
	}
	e.r.Outcome(fmt.Sprint(in, which, how, clobber, res.Exit))
	return nil
}

func c19Syscalls(e *Env, c c19Cmd, writable bool) *Violation {
	img, meta, _ := c19Files(e, writable)
	dest := e.rmDest("dest")
	if c.scan {
		os.Chmod(meta, 0644)
		os.Chown(meta, nobody, nobody)
	}
	for _, p := range []string{img, meta} {
		if p == meta && c.scan {
			continue
		}
		_, bad := e.syscallsOn(p, p == img, c.args(img, meta, dest)...)
		e.r.Trace(1)
		if bad != "" {
			return viol("%s does more than read %s: %s", c.name, filepath.Base(p), short(bad, 200))
		}
	}
	return nil
}

// c19Shared runs all inspection commands while the files are mounted and while
// other processes hold shared locks on them.
func c19Shared(e *Env) (vi *Violation) {
	img, meta, _ := c19Files(e, false)
	var fds []int
	for _, p := range []string{img, meta} {
		fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			panic(err)
		}
		defer syscall.Close(fd)
		if err := syscall.Flock(fd, syscall.LOCK_SH); err != nil {
			panic(err)
		}
		fds = append(fds, fd)
	}
	g := newGuard(img, meta)
	var m *Mnt
	defer catch(&m, &vi)
	var res Res
	if m, res = e.Mount(true, "mount", "--metadata="+meta, "--verbose=false", img); m == nil {
		return viol("mounting files that others read fails: %s", res.brief())
	}
	if err := syscall.Flock(fds[0], syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
		return viol("the mounted image is locked: %v", err)
	}
	syscall.Flock(fds[0], syscall.LOCK_SH)
	for _, c := range c19Cmds() {
		if c.scan || strings.Contains(c.name, "image") || strings.Contains(c.name, "metadata") {
			continue
		}
		res := e.CLI(c.args(img, meta, e.rmDest("dest"))...)
		if res.Exit != 0 {
			return viol("%s fails while the files are mounted: %s", c.name, res.brief())
		}
		if d := g.check(true); d != "" {
			return viol("%s: %s", c.name, d)
		}
		e.r.Trans(1)
	}
	return nil
}

// c19Mount mounts the test files and returns a check of the complete view.
func c19Mount(e *Env, writable, real bool) (*Mnt, *guard, func() *Violation) {
	img, meta, its := c19Files(e, writable)
	g := newGuard(img, meta)
	metaBytes, _ := os.ReadFile(meta)
	m, res := e.Mount(real, "mount", "--metadata="+meta, "--verbose=false", img)
	if m == nil {
		panic(mntDead{"mounting fails: " + res.brief()})
	}
	v := view{newModel(its...)}
	im := &Image{Path: img, Size: 72 * mib}
	var err error
	if im.f, err = os.Open(img); err != nil {
		panic(err)
	}
	return m, g, func() *Violation {
		if d := g.check(true); d != "" {
			return viol("%s", d)
		}
		x := m.Walk("rescue")
		if x.err != 0 {
			return viol("looking up the rescue directory: %v", x.err)
		}
		if vi := v.walk(m, vref{oFS, 256, ftDir}, x, "rescue", 10); vi != nil {
			return vi
		}
		for _, d := range []string{"rescue/data", "rescue/d/f", "rescue/empty", "rescue/v/f"} {
			i := strings.LastIndex(d, "/")
			p := m.Walk(d[:i])
			ref, _ := v.resolve(strings.TrimPrefix(d[:i], "rescue"))
			if vi := checkFile(m, v, im, p.node, ref, d[i+1:], false); vi != nil {
				return vi
			}
		}
		// The metadata file reads as what it is.
		l, err := m.List(1, 4096, false)
		if err != 0 || strings.Join(gotNames(l), " ") != `"metadata":8 "rescue":4` {
			return viol("listing the mount point: %v %v", gotNames(l), err)
		}
		y := m.Walk("metadata")
		if y.err != 0 || y.attr.Size != uint64(len(metaBytes)) || y.attr.Mode&0222 != 0 || y.attr.Mode&0170000 != 0100000 {
			return viol("the metadata file shows as mode %o size %d (%v)", y.attr.Mode, y.attr.Size, y.err)
		}
		fh, err := m.Open(y.node, 0)
		if err != 0 {
			return viol("opening the metadata file: %v", err)
		}
		// Replies with file contents are spliced, sockets take at most 16 pages.
		var b []byte
		for {
			var p []byte
			if p, err = m.Read(y.node, fh, uint64(len(b)), 32<<10); err != 0 || len(p) == 0 {
				break
			}
			b = append(b, p...)
		}
		m.Release(y.node, fh)
		if err != 0 || !bytes.Equal(b, metaBytes) {
			return viol("the metadata file reads as something else: %v", err)
		}
		m.Forget(y.node, 1)
		e.r.State(1)
		return nil
	}
}

// c19Nodes are the kinds of nodes requests are sent to.
var c19Nodes = []string{"", "rescue", "rescue/d", "rescue/d/e", "rescue/v", "rescue/data", "rescue/d/f", "rescue/empty",
	"rescue/l", "rescue/fifo", "rescue/chr", "metadata"}

func c19Open(e *Env, writable, real bool) (vi *Violation) {
	var m *Mnt
	defer catch(&m, &vi)
	m, g, full := c19Mount(e, writable, real)
	bits := []uint32{syscall.O_CREAT, syscall.O_EXCL, syscall.O_TRUNC, syscall.O_APPEND, syscall.O_SYNC, syscall.O_NONBLOCK}
	for _, p := range c19Nodes {
		x := m.Walk(p)
		if x.err != 0 {
			return viol("looking up %s: %v", p, x.err)
		}
		for acc := uint32(0); acc < 3; acc++ {
			for mask := 0; mask < 1<<uint(len(bits)); mask++ {
				fl := acc
				for i, b := range bits {
					if mask>>uint(i)&1 == 1 {
						fl |= b
					}
				}
				fh, err := m.Open(x.node, fl)
				e.r.Trans(1)
				e.r.Outcome(fmt.Sprint(p, fl, err))
				if d := g.check(false); d != "" {
					return viol("opening %q with flags %#o: %s", p, fl, d)
				}
				if err == 0 {
					w := make([]byte, 44)
					le.PutUint64(w, fh)
					le.PutUint32(w[16:], 4)
					wr := m.Req(opWrite, x.node, w)
					if d := g.check(false); d != "" {
						return viol("writing to %q opened with flags %#o: %s", p, fl, d)
					}
					if wr.err == 0 {
						return viol("writing to %q opened with flags %#o reports success", p, fl)
					}
					m.Release(x.node, fh)
				}
			}
		}
	}
	return full()
}

// modReq is a modifying request.
type modReq struct {
	name string
	op   uint32
	body func(p string, node, other, fh uint64) []byte
}

func modReqs() []modReq {
	u32 := func(v ...uint32) []byte {
		b := make([]byte, 4*len(v))
		for i, x := range v {
			le.PutUint32(b[4*i:], x)
		}
		return b
	}
	u64 := func(v ...uint64) []byte {
		b := make([]byte, 8*len(v))
		for i, x := range v {
			le.PutUint64(b[8*i:], x)
		}
		return b
	}
	cat := func(b ...[]byte) []byte { return bytes.Join(b, nil) }
	setattr := func(valid uint32, fh, size uint64) []byte {
		b := make([]byte, 88)
		le.PutUint32(b, valid)
		le.PutUint64(b[8:], fh)
		le.PutUint64(b[16:], size)
		le.PutUint64(b[32:], 12345)
		le.PutUint64(b[40:], 23456)
		le.PutUint32(b[68:], 0100777)
		le.PutUint32(b[76:], nobody)
		le.PutUint32(b[80:], nobody)
		return b
	}
	var out []modReq
	put := func(name string, op uint32, f func(p string, node, other, fh uint64) []byte) {
		out = append(out, modReq{name, op, f})
	}
	for v := uint32(1); v < 1<<9; v++ {
		v := v
		put(fmt.Sprintf("SETATTR %#x", v), opSetattr, func(_ string, n, o, fh uint64) []byte { return setattr(v, fh, 1) })
	}
	for _, sz := range []uint64{0, 1, 4096, 1 << 40, max64} {
		sz := sz
		put(fmt.Sprintf("SETATTR size %d", sz), opSetattr, func(_ string, n, o, fh uint64) []byte { return setattr(8, 0, sz) })
		put(fmt.Sprintf("SETATTR size %d by handle", sz), opSetattr, func(_ string, n, o, fh uint64) []byte { return setattr(8|64, fh, sz) })
	}
	for _, name := range []string{"new", "f", "d", "e", "data", "l", "rescue", "metadata"} {
		name := name
		for _, mode := range []uint32{0100644, 010644, 020644, 0140644} {
			mode := mode
			put(fmt.Sprintf("MKNOD %s %o", name, mode), opMknod, func(_ string, n, o, fh uint64) []byte {
				return cat(u32(mode, 0, 0, 0), cstr(name))
			})
		}
		put("MKDIR "+name, opMkdir, func(_ string, n, o, fh uint64) []byte { return cat(u32(0755, 0), cstr(name)) })
		put("UNLINK "+name, opUnlink, func(_ string, n, o, fh uint64) []byte { return cstr(name) })
		put("RMDIR "+name, opRmdir, func(_ string, n, o, fh uint64) []byte { return cstr(name) })
		put("SYMLINK "+name, opSymlink, func(_ string, n, o, fh uint64) []byte { return cat(cstr(name), cstr("target")) })
		for _, to := range []string{"new", "f", "metadata"} {
			to := to
			put("RENAME "+name+" "+to, opRename, func(_ string, n, o, fh uint64) []byte { return cat(u64(n), cstr(name), cstr(to)) })
			put("RENAME "+name+" elsewhere "+to, opRename, func(_ string, n, o, fh uint64) []byte { return cat(u64(o), cstr(name), cstr(to)) })
			for fl := uint32(0); fl < 3; fl++ {
				fl := fl
				put(fmt.Sprint("RENAME2 ", name, " ", to, fl), 45, func(_ string, n, o, fh uint64) []byte {
					return cat(u64(o), u32(fl, 0), cstr(name), cstr(to))
				})
			}
		}
		put("LINK "+name, opLink, func(_ string, n, o, fh uint64) []byte { return cat(u64(o), cstr(name)) })
		for _, fl := range []uint32{0, 1, 2, syscall.O_CREAT | 2, syscall.O_CREAT | syscall.O_TRUNC | 1, syscall.O_CREAT | syscall.O_EXCL | 2} {
			fl := fl
			put(fmt.Sprintf("CREATE %s %#o", name, fl), opCreate, func(_ string, n, o, fh uint64) []byte {
				return cat(u32(fl, 0100666, 0, 0), cstr(name))
			})
		}
	}
	for _, x := range []string{"user.new", "user.a", "security.selinux", "system.posix_acl_access"} {
		x := x
		for fl := uint32(0); fl < 3; fl++ {
			fl := fl
			put(fmt.Sprintf("SETXATTR %s %d", x, fl), opSetxattr, func(_ string, n, o, fh uint64) []byte {
				return cat(u32(5, fl), cstr(x), []byte("value"))
			})
		}
		put("REMOVEXATTR "+x, opRemovexattr, func(_ string, n, o, fh uint64) []byte { return cstr(x) })
	}
	for mask := uint32(0); mask < 8; mask++ {
		mask := mask
		put(fmt.Sprint("ACCESS ", mask), opAccess, func(_ string, n, o, fh uint64) []byte { return u32(mask, 0) })
	}
	put("STATFS", opStatfs, func(_ string, n, o, fh uint64) []byte { return nil })
	return append(out, handleReqs()...)
}

// handleReqs are requests that need an open file.
func handleReqs() []modReq {
	var out []modReq
	put := func(name string, op uint32, f func(p string, node, other, fh uint64) []byte) {
		out = append(out, modReq{name, op, f})
	}
	for _, off := range []uint64{0, 1, 4096, 1 << 40} {
		for _, n := range []int{0, 1, 4096, 60000} {
			off, n := off, n
			put(fmt.Sprintf("WRITE %d at %d", n, off), opWrite, func(_ string, _, _, fh uint64) []byte {
				b := make([]byte, 40+n)
				le.PutUint64(b, fh)
				le.PutUint64(b[8:], off)
				le.PutUint32(b[16:], uint32(n))
				return b
			})
		}
		for _, mode := range []uint32{0, 1, 3, 0x10} {
			off, mode := off, mode
			put(fmt.Sprintf("FALLOCATE %#x at %d", mode, off), opFallocate, func(_ string, _, _, fh uint64) []byte {
				b := make([]byte, 32)
				le.PutUint64(b, fh)
				le.PutUint64(b[8:], off)
				le.PutUint64(b[16:], 8192)
				le.PutUint32(b[24:], mode)
				return b
			})
		}
	}
	for _, sz := range []uint64{0, 10, 1 << 20} {
		for _, v := range []uint32{8 | 64, 1 | 64, 6 | 64, 0x30 | 64, 0x1b0 | 64} {
			sz, v := sz, v
			put(fmt.Sprintf("SETATTR %#x size %d by handle", v, sz), opSetattr, func(_ string, _, _, fh uint64) []byte {
				b := make([]byte, 88)
				le.PutUint32(b, v)
				le.PutUint64(b[8:], fh)
				le.PutUint64(b[16:], sz)
				le.PutUint32(b[68:], 0100777)
				le.PutUint32(b[76:], nobody)
				le.PutUint32(b[80:], nobody)
				return b
			})
		}
	}
	put("FSYNC", opFsync, func(_ string, _, _, fh uint64) []byte {
		b := make([]byte, 16)
		le.PutUint64(b, fh)
		return b
	})
	put("FLUSH", opFlush, func(_ string, _, _, fh uint64) []byte {
		b := make([]byte, 24)
		le.PutUint64(b, fh)
		return b
	})
	put("COPY_FILE_RANGE", 47, func(_ string, node, _, fh uint64) []byte {
		b := make([]byte, 56)
		for i, v := range []uint64{fh, 0, node, fh, 8192, 4096, 0} {
			le.PutUint64(b[8*i:], v)
		}
		return b
	})
	for _, typ := range []uint32{0, 1, 2} {
		for _, op := range []uint32{32, 33} {
			typ, op := typ, op
			put(fmt.Sprintf("SETLK %d %d", op, typ), op, func(_ string, _, _, fh uint64) []byte {
				b := make([]byte, 48)
				le.PutUint64(b, fh)
				le.PutUint64(b[24:], 1<<63-1)
				le.PutUint32(b[32:], typ)
				return b
			})
		}
	}
	return out
}

// c19Requests sends every modifying request to every node.
func c19Requests(e *Env, writable, real bool) (vi *Violation) {
	var m *Mnt
	defer catch(&m, &vi)
	m, g, full := c19Mount(e, writable, real)
	reqs := modReqs()
	for _, p := range c19Nodes {
		x, o := m.Walk(p), m.Walk("rescue/v")
		dir := x.attr.Mode&0170000 == 040000 || p == ""
		var fh uint64
		var err syscall.Errno
		if !dir {
			if fh, err = m.Open(x.node, 0); err != 0 && (p == "metadata" || strings.HasPrefix(p, "rescue/d")) {
				return viol("opening %s: %v", p, err)
			}
		}
		for _, q := range reqs {
			switch q.op {
			case opSymlink, opMknod, opMkdir, opUnlink, opRmdir, opRename, 45, opLink, opCreate:
				if !dir {
					continue // the kernel sends these to directories only
				}
			case opWrite, opFallocate, opFsync, opFlush, 47, 32, 33:
				if fh == 0 {
					continue
				}
			}
			if strings.Contains(q.name, "handle") && fh == 0 {
				continue
			}
			body := q.body(p, x.node, o.node, fh)
			if q.op == opSetattr && le.Uint32(body)&64 != 0 && fh == 0 {
				continue
			}
			a := m.Req(q.op, x.node, body)
			e.r.Trans(1)
			e.r.Outcome(fmt.Sprint(p, q.name, a.err))
			if d := g.check(false); d != "" {
				return viol("%s on %q: %s", q.name, p, d)
			}
			if a.err == 0 {
				switch q.op {
				case opSymlink, opMknod, opMkdir, opUnlink, opRmdir, opRename, 45, opLink, opCreate, opWrite, opSetxattr, opRemovexattr, 47:
					if q.op != opWrite || !strings.HasPrefix(q.name, "WRITE 0 ") {
						return viol("%s on %q reports success", q.name, p)
					}
				}
			}
		}
		if vi := full(); vi != nil {
			vi.Msg = "after modifying requests on " + p + ": " + vi.Msg
			return vi
		}
		if fh != 0 {
			m.Release(x.node, fh)
		}
	}
	e.r.Trace(1)
	return nil
}

// c19Handles sends all pairs of requests on a handle.
// c19Gone moves the metadata file and the image away while they are mounted,
// possibly putting something else in their places. Nothing may be created,
// and neither the moved files nor their replacements may change.
func c19Gone(e *Env, with string, real bool) (vi *Violation) {
	var m *Mnt
	defer catch(&m, &vi)
	img0, meta0, _ := c19Files(e, true)
	dir := e.rmDest("gone")
	away := filepath.Join(dir, "away")
	for _, d := range []string{dir, away} {
		os.Mkdir(d, 0777)
		os.Chmod(d, 0777)
	}
	img, meta := filepath.Join(dir, "img"), filepath.Join(dir, "meta.db")
	os.Rename(img0, img)
	os.Rename(meta0, meta)
	var res Res
	if m, res = e.Mount(real, "mount", "--metadata="+meta, "--verbose=false", img); m == nil {
		return viol("mounting fails: %s", res.brief())
	}
	// One handle of each file from before.
	type hnd struct {
		p        string
		node, fh uint64
	}
	var hs []hnd
	for _, p := range c19Nodes {
		x := m.Walk(p)
		if x.err != 0 {
			return viol("looking up %s: %v", p, x.err)
		}
		fh, err := m.Open(x.node, 0)
		if err != 0 {
			fh = 0
		}
		hs = append(hs, hnd{p, x.node, fh})
	}
	var watch []string
	for i, p := range []string{img, meta} {
		q := filepath.Join(away, filepath.Base(p))
		if err := os.Rename(p, q); err != nil {
			panic(err)
		}
		watch = append(watch, q)
		switch with {
		case "file":
			os.WriteFile(p, []byte(fmt.Sprintf("another file %d", i)), 0666)
			os.Chmod(p, 0666)
			watch = append(watch, p)
		case "dir":
			os.Mkdir(p, 0777)
			os.Chmod(p, 0777)
		case "dangling":
			os.Symlink(filepath.Join(dir, "target"), p)
		}
	}
	g := newGuard(watch...)
	top, skip := dir, []string{"away/img", "away/meta.db"}
	before := fingerprint(top, skip...)
	check := func(what string) *Violation {
		d := g.check(false)
		if d == "" {
			d = diffPrints(before, fingerprint(top, skip...))
		}
		if d != "" {
			return viol("%s while the mounted files are gone (%s instead): %s", what, with, d)
		}
		e.r.State(1)
		return nil
	}
	bits := []uint32{syscall.O_CREAT, syscall.O_EXCL, syscall.O_TRUNC, syscall.O_APPEND}
	reqs := modReqs()
	for _, h := range hs {
		x := m.Walk(h.p)
		if x.err == 0 {
			h.node = x.node
		}
		dir := x.attr.Mode&0170000 == 040000 || h.p == ""
		for acc := uint32(0); acc < 3 && !dir; acc++ {
			for mask := 0; mask < 1<<uint(len(bits)); mask++ {
				fl := acc
				for i, b := range bits {
					if mask>>uint(i)&1 == 1 {
						fl |= b
					}
				}
				fh, err := m.Open(h.node, fl)
				e.r.Trans(1)
				if v := check(fmt.Sprintf("opening %q with flags %#o", h.p, fl)); v != nil {
					return v
				}
				if err == 0 {
					m.Release(h.node, fh)
				}
			}
		}
		for _, q := range reqs {
			switch q.op {
			case opSymlink, opMknod, opMkdir, opUnlink, opRmdir, opRename, 45, opLink, opCreate:
				if !dir {
					continue // the kernel sends these to directories only
				}
			case opWrite, opFallocate, opFsync, opFlush, 47, 32, 33:
				if h.fh == 0 || dir {
					continue
				}
			}
			body := q.body(h.p, h.node, h.node, h.fh)
			if (strings.Contains(q.name, "handle") || q.op == opSetattr && le.Uint32(body)&64 != 0) && (h.fh == 0 || dir) {
				continue
			}
			m.Req(q.op, h.node, body)
			e.r.Trans(1)
			if v := check(q.name + " on " + h.p); v != nil {
				return v
			}
		}
		if h.fh != 0 && !dir {
			m.Read(h.node, h.fh, 0, 4096)
			m.Release(h.node, h.fh)
		}
		if v := check("reading " + h.p); v != nil {
			return v
		}
	}
	e.r.Trace(1)
	if d := g.check(true); d != "" {
		return viol("%s", d)
	}
	return nil
}

func c19Handles(e *Env, p string, mode uint32) (vi *Violation) {
	var m *Mnt
	defer catch(&m, &vi)
	m, g, full := c19Mount(e, true, false)
	reqs := handleReqs()
	for i := range reqs {
		for j := range reqs {
			x := m.Walk(p)
			fh, err := m.Open(x.node, mode)
			if err != 0 {
				if mode == 0 {
					return viol("opening %s: %v", p, err)
				}
				return full()
			}
			for _, q := range []modReq{reqs[i], reqs[j]} {
				m.Req(q.op, x.node, q.body(p, x.node, x.node, fh))
				e.r.Trans(1)
				if d := g.check(false); d != "" {
					return viol("%s, %s on %q opened with mode %d: %s", reqs[i].name, reqs[j].name, p, mode, d)
				}
			}
			m.Release(x.node, fh)
			m.Forget(x.node, 1)
		}
		if i%8 == 0 {
			if vi := full(); vi != nil {
				vi.Msg = fmt.Sprintf("after %s and others on %s: %s", reqs[i].name, p, vi.Msg)
				return vi
			}
		}
	}
	e.r.Trace(1)
	return full()
}
