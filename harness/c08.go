package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"
)

// C08: damaged metadata.
func init() {
	register(&Prop{ID: "C08", Level: "fault_enumeration",
		Rule: "one file system of ten leaves; each of five leaves (file, directory, chunk, root tree, and symlink/subvolume items) is damaged in all of these ways: every used byte set to " +
			"10 values (thorough all 256 in headers and item headers); every 2, 4 and 8 byte field position set to boundary values; every pair of header and item fields set to boundary " +
			"values; everything after or before every eighth byte cleared; every subset of sectors replaced by zeros, ones, another leaf or an older one; every cycle of directories and subvolumes; " +
			"for each: recon, dump-index, ls of all paths, recover, identify and (for boundary values) a mount that is walked and read; non-trivial: distinct damaged index contents",
		Assumptions: []string{"items of the damaged leaf that claim to belong to an undamaged file are not damage that file is safe from",
			"limits that count as ending normally: 10 s CPU time, 2 GiB memory, 256 MiB output"},
		Run: runC08})
}

const bsC08 = 16384

type leafC08 struct {
	name   string
	damage bool
	owner  uint64
	gen    uint64
	its    []It
	off    uint64
	data   []byte
}

// fsC08 is a file system whose items are spread over leaves such that all
// items that only concern the entries named bad-* are in leaves of their own.
func fsC08() (leaves []*leafC08, all []It) {
	x := func(off, at, n uint64) ext { return ext{Off: off, Disk: at, Num: n} }
	sub := subvolN("bad-vol", 400, inlineN("bad-in", 257, "inside the damaged subvolume"), dirN("bad-sub", 258))
	its := fsItems(
		fileN("good-file", 300, 20000, x(0, 13*mib, 8192), x(8192, 13*mib+64*1024, 4096), ext{Off: 12288, Num: 4096}, x(16384, 13*mib+128*1024, 4096)),
		inlineN("good-inline", 301, "good inline data"),
		linkN("good-link", 302, "good/target"),
		dirN("good-dir", 303, inlineN("good-inner", 304, "good inner data")),
		&node{Name: "bad-file", Ft: ftReg, Ino: 500, I: inodeT{Size: 24576}, Exts: []ext{x(0, 13*mib+256*1024, 8192), {Off: 8192, Num: 4096}, {Off: 12288, Disk: 13*mib + 300*1024, Num: 4096, Pre: true},
			x(16384, 200*mib+8192, 8192)}, X: []xattr{{"user.a", "value"}, {"user.b", ""}}},
		&node{Name: "bad-inline", Ft: ftReg, Ino: 501, I: inodeT{Size: 30}, Exts: []ext{{Inline: []byte("the damaged inline data, 30 by.")}}},
		linkN("bad-link", 502, "damaged/target"),
		dirN("bad-dir", 503, inlineN("bad-a", 504, "a"), inlineN("bad-b", 505, "b"), dirN("bad-deep", 506, inlineN("bad-c", 507, "c"))),
		sub,
	)
	its = append(its, chunkItem(13*mib, 4*mib, 1, 32*mib), chunkItem(200*mib, mib, 1, 36*mib))
	pick := func(name string, damage bool, f func(it It) bool) {
		l := &leafC08{name: name, damage: damage}
		var rest []It
		for _, it := range its {
			if f(it) {
				l.its = append(l.its, it)
			} else {
				rest = append(rest, it)
			}
		}
		its = rest
		leaves = append(leaves, l)
	}
	pick("good", false, func(it It) bool { return it.Owner == oFS && it.K.Obj < 500 })
	pick("file", true, func(it It) bool {
		return it.Owner == oFS && (it.K.Obj == 500 || it.K.Obj == 501) && it.K.Type != tInodeRef
	})
	pick("dir", true, func(it It) bool { return it.Owner == oFS && it.K.Obj >= 502 })
	pick("good2", false, func(it It) bool { return it.Owner == oFS })
	pick("chunk", true, func(it It) bool { return it.Owner == oChunk && it.K.Off == 200*mib })
	pick("goodchunk", false, func(it It) bool { return it.Owner == oChunk })
	pick("vol", true, func(it It) bool { return it.Owner == 400 })
	pick("root", true, func(it It) bool { return it.Owner == oRoot && (it.K.Obj == 400 || it.K.Off == 400) })
	pick("goodroot", false, func(it It) bool { return true })
	off := uint64(mib)
	for _, l := range leaves {
		l.owner, l.gen = l.its[0].Owner, l.its[0].Gen
		ls := packLeaves(bsC08, l.its)
		if len(ls) != 1 {
			panic("leaf too small")
		}
		l.its = ls[0]
		l.off = off
		l.data = encLeaf(bsC08, fsid1, off, l.owner, l.gen, l.its)
		off += bsC08
		all = append(all, l.its...)
	}
	return
}

const sizeC08 = 64<<20 + 100*bsC08

// claims tells whether a damaged leaf may hold items of undamaged entries:
// it decodes the item headers by the format, as far as they are in the leaf.
// exact: it may replace an item that an undamaged leaf holds.
func claimsC08(b []byte, good []It) (entry, item bool) {
	if !bytes.Equal(b[32:48], fsid1[:]) || b[100] != 0 {
		return false, false
	}
	n := int(le.Uint32(b[96:]))
	owner, gen := le.Uint64(b[88:]), le.Uint64(b[80:])
	for i := 0; i < n && hdrLen+(i+1)*itemLen <= len(b); i++ {
		h := b[hdrLen+i*itemLen:]
		k := getKey(h)
		for _, g := range good {
			if g.Owner == owner && g.K == k && g.Gen == gen {
				item = true
			}
		}
		switch {
		case owner == oFS && k.Obj >= 256 && k.Obj < 500:
			entry = true
		case owner == oChunk && k.Type == tChunk:
			// A chunk that covers the same addresses.
			if k.Off <= 17*mib {
				entry = true
			}
		case owner == oRoot:
			entry = entry || k.Type == tRoot && k.Obj < 400
		}
	}
	return
}

var mountedC08 sync.Map

type rigC08 struct {
	leaves []*leafC08
	im     string
	lsGood []string
	good   map[string]fent
	byName map[string]*leafC08
	f      *os.File
}

var rigsC08 = map[*Env]*rigC08{}

func normLine(l string) string { return strings.Join(strings.Fields(l), " ") }

var argsC08 = []string{"/", "/good-dir", "/good-file", "/good-dir/good-inner", "/bad-file", "/bad-dir", "/bad-dir/bad-a", "/bad-dir/bad-deep/bad-c", "/bad-vol/bad-in", "/bad-vol/bad-sub", "/bad-link/x", "/none"}

func newRigC08(e *Env) *rigC08 {
	leaves, _ := fsC08()
	g := &rigC08{leaves: leaves, byName: map[string]*leafC08{}}
	im := e.NewImage("c08img", sizeC08)
	g.f, g.im = im.f, im.Path
	for o := uint64(32 * mib); o < 37*mib; o += mib {
		if o == 33*mib || o == 34*mib || o == 35*mib {
			continue
		}
		im.Write(o, pat(o, mib))
	}
	var goodIts []It
	for _, l := range leaves {
		im.Write(l.off, l.data)
		g.byName[l.name] = l
		if !l.damage {
			goodIts = append(goodIts, l.its...)
		}
	}
	w := refRecover(goodIts, im.Read, nil, false)
	g.good = map[string]fent{}
	for p, f := range w.tree {
		if strings.HasPrefix(p, "good") {
			g.good[p] = f
		}
	}
	return g
}

// check runs everything on the image with a leaf replaced.
func (g *rigC08) check(e *Env, what string, l *leafC08, damaged []byte, mount bool) *Violation {
	g.f.WriteAt(damaged, int64(l.off))
	defer g.f.WriteAt(l.data, int64(l.off))
	meta := e.Path("c08meta")
	os.Remove(meta)
	e.r.State(1)
	bad := func(cmd string, res Res) *Violation {
		v := viol("%s: %s: %s", what, cmd, short(res.brief(), 500))
		v.Hung = res.Hung != ""
		return v
	}
	res := recon(e, g.im, meta, bsC08, fsid1)
	if res.crashed() || res.Exit != 0 {
		return bad("recon", res)
	}
	e.r.Trace(1)
	var good []It
	for _, x := range g.leaves {
		if x != l {
			good = append(good, x.its...)
		}
	}
	entry, item := claimsC08(damaged, good)
	got, err := readIndex(meta)
	if err != nil {
		return viol("%s: reading the metadata: %v", what, err)
	}
	e.r.Trans(len(got))
	have := map[string]rawIt{}
	sig := ""
	for _, it := range got {
		have[fmt.Sprint(it.Owner, it.K, it.Gen)] = it
		sig += fmt.Sprint(it.Owner, it.K, it.Gen, len(it.Data), hash64(string(it.Data)))
	}
	e.r.Outcome(sig)
	if !item {
		for _, w := range good {
			it, ok := have[fmt.Sprint(w.Owner, w.K, w.Gen)]
			if !ok || !bytes.Equal(it.Data, w.Data) {
				return viol("%s: item %d:%v of an undamaged leaf is missing or different", what, w.Owner, w.K)
			}
		}
	}
	// A second scan, one over the damaged and the good parts again.
	a := []string{"--metadata=" + meta}
	if res = e.CLI("dump-index", a[0]); res.crashed() || res.Exit != 0 {
		return bad("dump-index", res)
	}
	res = e.CLI(append([]string{"ls", a[0], "--recursive=false", "--inode=true"}, argsC08...)...)
	if res.crashed() || res.Exit != 0 {
		return bad("ls of all paths", res)
	}
	res = e.CLI("ls", a[0], "--recursive=true", "--inode=false", "/")
	if res.crashed() || res.Exit != 0 {
		return bad("ls", res)
	}
	if !entry {
		lines := map[string]bool{}
		for _, l := range strings.Split(res.Stdout, "\n") {
			lines[normLine(l)] = true
		}
		for _, l := range g.lsGood {
			if !lines[l] {
				return viol("%s: ls does not show %q", what, l)
			}
		}
	}
	dest := e.rmDest("dest")
	res = recoverCLI(e, false, g.im, meta, dest, false)
	if res.crashed() || res.Exit != 0 {
		return bad("recover", res)
	}
	if !entry {
		tree := readTreeC08(dest)
		for p, w := range g.good {
			f, ok := tree[p]
			if !ok || f.kind() != w.kind() || f.Target != w.Target || !bytes.Equal(f.Data, w.Data) {
				return viol("%s: undamaged %s is not recovered correctly: found %v", what, p, ok)
			}
		}
	}
	if mount {
		// A mount depends on nothing else.
		_, seen := mountedC08.LoadOrStore(sig+fmt.Sprint(entry), true)
		mount = !seen || e.r.Thorough()
	}
	if mount {
		if v := mountC08(e, g, what, meta, entry); v != nil {
			mountedC08.Delete(sig + fmt.Sprint(entry))
			return v
		}
	}
	return nil
}

// readTreeC08 reads the recovered entries that are small; damaged sizes may
// be huge.
func readTreeC08(root string) map[string]fent {
	out := map[string]fent{}
	for _, p := range []string{"good-file", "good-inline", "good-link", "good-dir", "good-dir/good-inner"} {
		fi, err := os.Lstat(root + "/" + p)
		if err != nil {
			continue
		}
		f := fent{Mode: fi.Mode()}
		switch {
		case fi.Mode().IsRegular():
			if fi.Size() < 1<<20 {
				f.Data, _ = os.ReadFile(root + "/" + p)
			}
		case fi.Mode()&os.ModeSymlink != 0:
			f.Target, _ = os.Readlink(root + "/" + p)
		}
		out[p] = f
	}
	return out
}

// mountC08 mounts the metadata and walks and reads everything.
func mountC08(e *Env, g *rigC08, what, meta string, claimed bool) (vi *Violation) {
	var m *Mnt
	defer func() {
		if vi != nil {
			vi.Msg = what + ": mount: " + vi.Msg
		}
	}()
	defer catch(&m, &vi)
	var res Res
	if m, res = e.Mount(false, "mount", "--metadata="+meta, "--verbose=false", g.im); m == nil {
		v := viol("%s", res.brief())
		v.Hung = res.Hung != ""
		return v
	}
	budget := 120
	var walk func(x entry, p string, depth int)
	walk = func(x entry, p string, depth int) {
		budget--
		m.Getattr(x.node)
		names, _ := m.Listxattr(x.node)
		for _, n := range names {
			m.Getxattr(x.node, n)
		}
		m.Readlink(x.node)
		e.r.Trans(4)
		if fh, err := m.Open(x.node, 0); err == 0 {
			size := x.attr.Size
			for _, off := range []uint64{0, 4096, 8191, 16384, size / 2, size - 1, size, size + 4096, max64 / 2, 1<<63 - 4096} {
				if off < 1<<63 {
					m.Read(x.node, fh, off, 60000)
					e.r.Trans(1)
				}
			}
			m.Release(x.node, fh)
		}
		l, _ := m.List(x.node, 4096, false)
		m.List(x.node, 4096, true)
		m.Lookup(x.node, "none")
		for i, d := range l {
			if i >= 20 || budget <= 0 || depth == 0 {
				break
			}
			if c := m.Lookup(x.node, d.name); c.err == 0 {
				walk(c, p+"/"+d.name, depth-1)
			}
		}
	}
	r := m.Walk("rescue")
	if r.err == 0 {
		walk(r, "", 6)
	} else if !claimed {
		return viol("looking up the rescue directory: %v", r.err)
	}
	if claimed {
		return nil
	}
	for p, w := range g.good {
		x := m.Walk("rescue/" + p)
		if x.err != 0 {
			return viol("undamaged %s is not found: %v", p, x.err)
		}
		switch w.kind() {
		case "file":
			fh, err := m.Open(x.node, 0)
			var b []byte
			if err == 0 {
				b, err = m.ReadAll(x.node, fh, len(w.Data)+4096)
				m.Release(x.node, fh)
			}
			if err != 0 || !bytes.Equal(b, w.Data) {
				return viol("undamaged %s does not read as recorded (%d of %d bytes, %v)", p, len(b), len(w.Data), err)
			}
		case "symlink":
			if t, err := m.Readlink(x.node); err != 0 || t != w.Target {
				return viol("undamaged link %s has target %q (%v)", p, t, err)
			}
		}
		e.r.Trans(2)
	}
	return nil
}

// usedC08 lists the bytes of a leaf that mean something.
func usedC08(l *leafC08) []int {
	var out []int
	for i := 0; i < hdrLen+itemLen*len(l.its); i++ {
		if i >= 32 || i < 2 {
			out = append(out, i)
		}
	}
	n := 0
	for _, it := range l.its {
		n += len(it.Data)
	}
	for i := bsC08 - n; i < bsC08; i++ {
		out = append(out, i)
	}
	return out
}

func fieldValsC08(w int, old uint64) []uint64 {
	m := uint64(1)<<(8*uint(w)) - 1
	if w == 8 {
		m = max64
	}
	vs := []uint64{0, 1, old + 1, old - 1, m, m - 1, m >> 1, m>>1 + 1, m - 24, m - 100, bsC08, bsC08 - hdrLen, bsC08 - hdrLen - 1, bsC08 + 1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 40, 1 << 62, old << 8}
	seen := map[uint64]bool{}
	var out []uint64
	for _, v := range vs {
		v &= m
		if !seen[v] && v != old {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

func putN(b []byte, w int, v uint64) {
	for i := 0; i < w; i++ {
		b[i] = byte(v >> (8 * uint(i)))
	}
}

func getN(b []byte, w int) (v uint64) {
	for i := 0; i < w; i++ {
		v |= uint64(b[i]) << (8 * uint(i))
	}
	return
}

// fieldsC08 lists (offset, width) of the fields of a leaf: those of the
// headers at their places, in item data at every 2, 4 and 8 byte position
// counted from the start of the item, odd ones included for packed structures.
func fieldsC08(l *leafC08) [][2]int {
	out := [][2]int{{48, 8}, {56, 8}, {80, 8}, {88, 8}, {96, 4}, {100, 1}}
	for i := range l.its {
		o := hdrLen + i*itemLen
		out = append(out, [2]int{o, 8}, [2]int{o + 8, 1}, [2]int{o + 9, 8}, [2]int{o + 17, 4}, [2]int{o + 21, 4})
	}
	for i, it := range l.its {
		o := int(le.Uint32(l.data[hdrLen+i*itemLen+17:])) + hdrLen
		n := len(it.Data)
		switch it.K.Type {
		case tExtent:
			for _, f := range [][2]int{{0, 8}, {8, 8}, {16, 1}, {17, 1}, {18, 2}, {20, 1}, {21, 8}, {29, 8}, {37, 8}, {45, 8}} {
				if f[0]+f[1] <= n {
					out = append(out, [2]int{o + f[0], f[1]})
				}
			}
		case tDirItem, tDirIndex, tXattr:
			for _, f := range [][2]int{{0, 8}, {8, 1}, {9, 8}, {17, 8}, {25, 2}, {27, 2}, {29, 1}} {
				if f[0]+f[1] <= n {
					out = append(out, [2]int{o + f[0], f[1]})
				}
			}
		case tInode:
			for f := 0; f+8 <= n; f += 8 {
				out = append(out, [2]int{o + f, 8})
			}
			out = append(out, [2]int{o + 40, 4}, [2]int{o + 44, 4}, [2]int{o + 48, 4}, [2]int{o + 52, 4})
		case tChunk:
			for f := 0; f+8 <= n; f += 8 {
				out = append(out, [2]int{o + f, 8})
			}
			out = append(out, [2]int{o + 32, 4}, [2]int{o + 44, 2}, [2]int{o + 46, 2})
		default:
			for f := 0; f+8 <= n && f < 240; f += 8 {
				out = append(out, [2]int{o + f, 8})
			}
		}
	}
	return out
}

func runC08(r *Runner) {
	var names []string
	{
		leaves, _ := fsC08()
		for _, l := range leaves {
			if l.damage {
				names = append(names, l.name)
			}
		}
	}
	r.ForEach(func(yield func(Case) bool) {
		rig := func(e *Env) (*rigC08, *Violation) {
			r.mu.Lock()
			g := rigsC08[e]
			r.mu.Unlock()
			if g != nil {
				return g, nil
			}
			g = newRigC08(e)
			meta := e.Path("c08meta")
			os.Remove(meta)
			if res := recon(e, g.im, meta, bsC08, fsid1); res.Exit != 0 || res.crashed() {
				return nil, viol("undamaged: %s", res.brief())
			}
			res := e.CLI("ls", "--metadata="+meta, "--recursive=true", "--inode=false", "/")
			for _, l := range strings.Split(res.Stdout, "\n") {
				if strings.Contains(l, "good-") {
					g.lsGood = append(g.lsGood, normLine(l))
				}
			}
			if len(g.lsGood) != 6 {
				return nil, viol("undamaged: ls shows %q", res.Stdout)
			}
			if v := g.check(e, "undamaged", g.byName["good"], g.byName["good"].data, true); v != nil {
				return nil, v
			}
			r.mu.Lock()
			rigsC08[e] = g
			r.mu.Unlock()
			return g, nil
		}
		do := func(id string, f func(e *Env, g *rigC08) *Violation) bool {
			return yield(Case{id, func(e *Env) *Violation {
				g, v := rig(e)
				if v != nil {
					return v
				}
				return f(e, g)
			}})
		}
		for _, n := range names {
			n := n
			leaves, _ := fsC08()
			var proto *leafC08
			for _, l := range leaves {
				if l.name == n {
					proto = l
				}
			}
			// Single bytes.
			used := usedC08(proto)
			for i := 0; i < len(used); i += 16 {
				part := used[i:]
				if len(part) > 16 {
					part = part[:16]
				}
				if !do(fmt.Sprintf("byte/%s/%d", n, part[0]), func(e *Env, g *rigC08) *Violation {
					l := g.byName[n]
					for _, o := range part {
						old := l.data[o]
						vals := []byte{0, 0xff, old ^ 1, old ^ 2, old ^ 4, old ^ 8, old ^ 16, old ^ 32, old ^ 64, old ^ 128}
						if r.Quick() {
							vals = []byte{0, 0xff, old ^ 1, old ^ 128}
						} else if o < hdrLen+itemLen*len(l.its) {
							vals = nil
							for v := 0; v < 256; v++ {
								vals = append(vals, byte(v))
							}
						}
						done := map[byte]bool{old: true}
						for _, v := range vals {
							if done[v] {
								continue
							}
							done[v] = true
							b := append([]byte{}, l.data...)
							b[o] = v
							if v := g.check(e, fmt.Sprintf("leaf %q: byte %d (%s) changed from %#x to %#x", n, o, placeC08(l, o), old, v), l, b, false); v != nil {
								return v
							}
						}
					}
					return nil
				}) {
					return
				}
			}
			// Fields.
			fields := fieldsC08(proto)
			for fi, f := range fields {
				fi, f := fi, f
				if !do(fmt.Sprintf("field/%s/%d", n, fi), func(e *Env, g *rigC08) *Violation {
					l := g.byName[n]
					for _, v := range fieldValsC08(f[1], getN(l.data[f[0]:], f[1])) {
						b := append([]byte{}, l.data...)
						putN(b[f[0]:], f[1], v)
						if v := g.check(e, fmt.Sprintf("leaf %q: %d bytes at %d (%s) set to %#x", n, f[1], f[0], placeC08(l, f[0]), v), l, b, true); v != nil {
							return v
						}
					}
					return nil
				}) {
					return
				}
			}
			// Pairs of fields of the leaf and item headers, and of the same item.
			for i := range fields {
				i := i
				if !do(fmt.Sprintf("pair/%s/%d", n, i), func(e *Env, g *rigC08) *Violation {
					l := g.byName[n]
					for j := i + 1; j < len(fields); j++ {
						a, c := fields[i], fields[j]
						near := c[0]-a[0] < itemLen+8 && c[0] >= hdrLen && a[0] >= hdrLen
						if a[0] != 96 && !near || !r.Thorough() && (c[0] >= hdrLen+itemLen*len(l.its) && (j-i > 1 || a[1] == 8 && c[1] == 8 && a[1] == 8) || a[0] == 96 && c[0] < hdrLen) {
							continue
						}
						for _, v1 := range pairValsC08(a, l, r.Quick()) {
							for _, v2 := range pairValsC08(c, l, r.Quick()) {
								b := append([]byte{}, l.data...)
								putN(b[a[0]:], a[1], v1)
								putN(b[c[0]:], c[1], v2)
								if v := g.check(e, fmt.Sprintf("leaf %q: %d bytes at %d (%s) set to %#x and %d bytes at %d (%s) set to %#x", n, a[1], a[0], placeC08(l, a[0]), v1, c[1], c[0], placeC08(l, c[0]), v2), l, b, false); v != nil {
									return v
								}
							}
						}
					}
					return nil
				}) {
					return
				}
			}
			// Cut off at every eighth byte.
			for i := 0; i < len(used); i += 128 {
				part := used[i:]
				if len(part) > 128 {
					part = part[:128]
				}
				if !do(fmt.Sprintf("cut/%s/%d", n, i), func(e *Env, g *rigC08) *Violation {
					l := g.byName[n]
					step := 8
					if r.Quick() {
						step = 16
					}
					for k := 0; k < len(part); k += step {
						o := part[k]
						for fill := 0; fill < 4; fill++ {
							b := append([]byte{}, l.data...)
							lo, hi := o, bsC08
							if fill >= 2 {
								lo, hi = 48, o
							}
							for x := lo; x < hi; x++ {
								b[x] = byte(0xff * (fill % 2))
							}
							if v := g.check(e, fmt.Sprintf("leaf %q: bytes %d to %d set to %#x", n, lo, hi, byte(0xff*(fill%2))), l, b, false); v != nil {
								return v
							}
						}
					}
					return nil
				}) {
					return
				}
			}
			// Sectors: the block is torn between two contents. Only the sectors
			// in use matter.
			for kind := 0; kind < 6; kind++ {
				kind := kind
				if !do(fmt.Sprintf("sector/%s/%d", n, kind), func(e *Env, g *rigC08) *Violation {
					l := g.byName[n]
					other := make([]byte, bsC08)
					switch kind {
					case 1:
						other = bytes.Repeat([]byte{0xff}, bsC08)
					case 2:
						other = g.byName["dir"].data
						if n == "dir" {
							other = g.byName["vol"].data
						}
					case 3:
						// An older, shorter version of the same leaf.
						other = encLeaf(bsC08, fsid1, l.off, l.owner, l.gen-1, l.its[:len(l.its)/2+1])
					case 4:
						// The same leaf after items were inserted in front.
						its := append([]It{{l.owner, K{450, tInode, 0}, l.gen, encInode(inodeT{Mode: 0100644})}}, l.its...)
						other = encLeaf(bsC08, fsid1, l.off, l.owner, l.gen+1, its)
					case 5:
						other = pat(77, bsC08)
					}
					var secs []int
					seen := map[int]bool{}
					for _, o := range usedC08(l) {
						if !seen[o/512] {
							seen[o/512] = true
							secs = append(secs, o/512)
						}
					}
					if len(secs) > 10 {
						secs = secs[:10]
					}
					for m := 1; m < 1<<uint(len(secs)); m++ {
						if r.Quick() && len(secs) > 4 && m&(m+1) != 0 && m&(m-1) != 0 {
							continue
						}
						b := append([]byte{}, l.data...)
						for i, s := range secs {
							if m>>uint(i)&1 == 1 {
								copy(b[s*512:s*512+512], other[s*512:s*512+512])
							}
						}
						if v := g.check(e, fmt.Sprintf("leaf %q: sectors %b of %v replaced by content %d", n, m, secs, kind), l, b, m&(m-1) == 0); v != nil {
							return v
						}
					}
					return nil
				}) {
					return
				}
			}
		}
		// Structures: entries that lead anywhere, cycles included.
		locs := []K{{256, tInode, 0}, {503, tInode, 0}, {506, tInode, 0}, {500, tInode, 0}, {502, tInode, 0}, {400, tRoot, max64}, {5, tRoot, max64}, {999, tRoot, max64}, {999, tInode, 0}, {3, tRoot, 0}, {503, tExtent, 0}, {0, 0, 0}, {max64, 255, max64}}
		for i := range locs {
			i := i
			if !do(fmt.Sprintf("cycle/%d", i), func(e *Env, g *rigC08) *Violation {
				l, vol := g.byName["dir"], g.byName["vol"]
				for j := range locs {
					for ft := uint8(0); ft < 10; ft++ {
						if r.Quick() && ft != 2 && i != j {
							continue
						}
						its := cycleC08(l.its, "bad-deep", locs[i], ft)
						its = cycleC08(its, "bad-a", locs[j], ft)
						b := encLeaf(bsC08, fsid1, l.off, l.owner, l.gen, its)
						if v := g.check(e, fmt.Sprintf("entries bad-deep and bad-a of type %d lead to %v and %v", ft, locs[i], locs[j]), l, b, true); v != nil {
							return v
						}
						vits := cycleC08(vol.its, "bad-sub", locs[j], ft)
						vb := encLeaf(bsC08, fsid1, vol.off, vol.owner, vol.gen, vits)
						g.f.WriteAt(vb, int64(vol.off))
						v := g.check2(e, fmt.Sprintf("entries bad-deep, bad-a and bad-sub of type %d lead to %v, %v and %v", ft, locs[i], locs[j], locs[j]), l, b, vol)
						g.f.WriteAt(vol.data, int64(vol.off))
						if v != nil {
							return v
						}
					}
				}
				return nil
			}) {
				return
			}
		}
	})
}

// check2 is check with a second damaged leaf already in place.
func (g *rigC08) check2(e *Env, what string, l *leafC08, b []byte, second *leafC08) *Violation {
	saved := g.leaves
	g.leaves = nil
	for _, x := range saved {
		if x != second {
			g.leaves = append(g.leaves, x)
		}
	}
	defer func() { g.leaves = saved }()
	return g.check(e, what, l, b, true)
}

// cycleC08 redirects a directory entry.
func cycleC08(its []It, name string, loc K, ft uint8) []It {
	out := append([]It{}, its...)
	for i, it := range out {
		if it.K.Type != tDirItem && it.K.Type != tDirIndex {
			continue
		}
		ds := decDirents(it.Data)
		for j := range ds {
			if ds[j].Name == name {
				ds[j].Loc, ds[j].Type = loc, ft
			}
		}
		out[i].Data = encDirents(ds...)
	}
	return out
}

func pairValsC08(f [2]int, l *leafC08, quick bool) []uint64 {
	old := getN(l.data[f[0]:], f[1])
	switch f[1] {
	case 1:
		return []uint64{0, 255, old ^ 1}
	case 2:
		return []uint64{0, 1, 0xffff, old + 1}
	case 4:
		if quick {
			return []uint64{1, bsC08 - hdrLen, 0x7fffffff, 0xffffffff}
		}
		return []uint64{0, 1, old + 1, old - 1&0xffffffff, bsC08 - hdrLen, bsC08, 0x7fffffff, 0x80000000, 0xffffffff}
	}
	return []uint64{0, max64, 1 << 63, old + 1}
}

// placeC08 names the place of a byte in a leaf.
func placeC08(l *leafC08, o int) string {
	if o < hdrLen {
		return "header"
	}
	if o < hdrLen+itemLen*len(l.its) {
		return fmt.Sprintf("header of item %d, byte %d", (o-hdrLen)/itemLen, (o-hdrLen)%itemLen)
	}
	for i, it := range l.its {
		s := int(le.Uint32(l.data[hdrLen+i*itemLen+17:])) + hdrLen
		if o >= s && o < s+len(it.Data) {
			return fmt.Sprintf("item %v, byte %d", it.K, o-s)
		}
	}
	return "free"
}
