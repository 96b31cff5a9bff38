package main

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
)

// C16: namespace and attributes of a mount.
func init() {
	register(&Prop{ID: "C16", Level: "model_checking",
		Rule: "all directories with up to 3 entries of 8 kinds at two levels and in subvolumes, walked completely through LOOKUP, GETATTR, READDIR(PLUS) with " +
			"several buffer sizes, READLINK, GETXATTR, LISTXATTR; boundary values of every attribute; inode and tree numbers that differ in one bit or agree when added at any bit; names with every byte and of every length, colliding names " +
			"and attributes; several versions; all sequences of 2 (thorough 3) high-level operations on fresh mounts with nodes kept or forgotten; all interleavings " +
			"of piecewise reads through two directory handles; non-trivial: distinct trees and reply sequences",
		Assumptions: []string{"the kernel's side of the FUSE protocol is played by the explorer", "every entry has an inode item"},
		Run:         runC16})
}

func dtype(ft uint8) uint32 {
	switch ft {
	case ftReg:
		return 8
	case ftDir:
		return 4
	case ftChr:
		return 2
	case ftBlk:
		return 6
	case ftFifo:
		return 1
	case ftSock:
		return 12
	case ftLnk:
		return 10
	}
	return 0
}

// vref names an inode of the model.
type vref struct {
	owner, ino uint64
	ft         uint8
}

// child finds a directory entry in the model.
func (v view) child(p vref, name string) (vref, bool) {
	key := [2]uint64{p.owner, p.ino}
	d, ok := v.m.dirs[key]
	if !ok {
		d = map[string]vref{}
		for _, x := range v.dirents(p.owner, p.ino) {
			if _, dup := d[x.Name]; dup {
				continue
			}
			if x.Loc.Type == tRoot {
				d[x.Name] = vref{x.Loc.Obj, 256, x.Type}
			} else {
				d[x.Name] = vref{p.owner, x.Loc.Obj, x.Type}
			}
		}
		if v.m.dirs == nil {
			v.m.dirs = map[[2]uint64]map[string]vref{}
		}
		v.m.dirs[key] = d
	}
	x, ok := d[name]
	return x, ok
}

// resolve finds the inode of a path below the rescue directory.
func (v view) resolve(p string) (vref, bool) {
	x := vref{oFS, 256, ftDir}
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		var ok bool
		if x, ok = v.child(x, c); !ok {
			return x, false
		}
	}
	return x, true
}

// diffAttr compares attributes of a reply with the recorded inode.
func (v view) diffAttr(x vref, a fattr) string {
	in := v.inode(x.owner, x.ino)
	if in == nil {
		return ""
	}
	var d []string
	cmp := func(what string, w, g interface{}) {
		if w != g {
			d = append(d, fmt.Sprintf("%s is %v, recorded %v", what, g, w))
		}
	}
	cmp("size", in.Size, a.Size)
	cmp("mode", fmt.Sprintf("%o", in.Mode), fmt.Sprintf("%o", a.Mode))
	cmp("owner", in.UID, a.Uid)
	cmp("group", in.GID, a.Gid)
	if in.Nlink != 0 {
		cmp("link count", in.Nlink, a.Nlink)
	}
	if x.ft == ftChr || x.ft == ftBlk {
		// Recorded as major<<20 | minor
		major, minor := func(d uint64) (uint64, uint64) { return d >> 20, d & 0xfffff }(in.Rdev)
		// man 3 makedev, as the kernel decodes it
		gmajor, gminor := uint64(a.Rdev&0xfff00>>8), uint64(a.Rdev&0xff|a.Rdev>>12&0xfff00)
		if major < 1<<12 {
			cmp("device number", fmt.Sprintf("%d:%d", major, minor), fmt.Sprintf("%d:%d", gmajor, gminor))
		}
	}
	// Blocks of some size that hold the recorded number of bytes
	if a.Blocks < (in.Nbytes+511)/512 || a.Blocks > (in.Nbytes+65535)/65536*128 {
		d = append(d, fmt.Sprintf("blocks are %d, recorded %d bytes", a.Blocks, in.Nbytes))
	}
	cmp("atime", in.Atime, a.Atime)
	cmp("mtime", in.Mtime, a.Mtime)
	cmp("ctime", in.Ctime, a.Ctime)
	return strings.Join(d, ", ")
}

// sawIno checks that an inode number stands for one inode only, and the inode
// always has this number.
func (m *Mnt) sawIno(x vref, ino uint64) string {
	x.ft = 0
	if x.owner >= 1<<24 || x.ino >= 1<<40 || x.owner != 0 && x.ino < 256 {
		return ""
	}
	if m.ino == nil {
		m.ino, m.ref = map[vref]uint64{}, map[uint64]vref{}
	}
	if o, ok := m.ino[x]; ok && o != ino {
		return fmt.Sprintf("inode number is %d, was %d before", ino, o)
	}
	if y, ok := m.ref[ino]; ok && y != x {
		return fmt.Sprintf("inode number %d is that of inode %d of tree %d as well, recorded inode %d of tree %d", ino, y.ino, y.owner, x.ino, x.owner)
	}
	m.ino[x], m.ref[ino] = ino, x
	return ""
}

// okName tells whether a directory entry can exist.
func okName(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/")
}

// wantNames returns the model's directory listing.
func (v view) wantNames(x vref) []string {
	var out []string
	for _, d := range v.dirents(x.owner, x.ino) {
		if !okName(d.Name) {
			continue
		}
		out = append(out, fmt.Sprintf("%q:%d", d.Name, dtype(d.Type)))
	}
	sort.Strings(out)
	return out
}

func gotNames(l []fdirent) []string {
	var out []string
	for _, d := range l {
		out = append(out, fmt.Sprintf("%q:%d", d.name, d.typ))
	}
	sort.Strings(out)
	return out
}

func diffLists(w, g []string) string {
	if strings.Join(w, "\n") == strings.Join(g, "\n") {
		return ""
	}
	wm := map[string]int{}
	for _, s := range w {
		wm[s]++
	}
	for _, s := range g {
		wm[s]--
	}
	var d []string
	for s, n := range wm {
		if n > 0 {
			d = append(d, "missing "+short(s, 80))
		} else if n < 0 {
			d = append(d, "unexpected "+short(s, 80))
		}
	}
	sort.Strings(d)
	if len(d) > 6 {
		d = append(d[:6], "...")
	}
	return strings.Join(d, ", ")
}

// checkList compares one way of listing a directory.
func (v view) checkList(m *Mnt, x vref, node uint64, p string, size uint32, plus bool) *Violation {
	l, err := m.List(node, size, plus)
	if err != 0 {
		return viol("listing %s: %v", p, err)
	}
	if d := diffLists(v.wantNames(x), gotNames(l)); d != "" {
		return viol("listing %s (buffer %d, plus %v): %s", p, size, plus, d)
	}
	if plus {
		for _, d := range l {
			c, _ := v.child(x, d.name)
			if v.inode(c.owner, c.ino) == nil {
				continue
			}
			if d.entry == nil || d.entry.node == 0 {
				return viol("listing %s with attributes: no attributes for %q", p, d.name)
			}
			if s := v.diffAttr(c, d.entry.attr) + m.sawIno(c, d.entry.attr.Ino); s != "" {
				return viol("listing %s with attributes: %q: %s", p, d.name, s)
			}
		}
	}
	return nil
}

// checkMeta compares everything but the children and content of a node.
func (v view) checkMeta(m *Mnt, x vref, e entry, p string) *Violation {
	if s := v.diffAttr(x, e.attr) + m.sawIno(x, e.attr.Ino); s != "" {
		return viol("looking up %s: %s", p, s)
	}
	a, err := m.Getattr(e.node)
	if err != 0 {
		return viol("attributes of %s: %v", p, err)
	}
	if s := v.diffAttr(x, a) + m.sawIno(x, a.Ino); s != "" {
		return viol("attributes of %s: %s", p, s)
	}
	if x.ft == ftLnk {
		w, ok := v.target(x.owner, x.ino, nil)
		g, err := m.Readlink(e.node)
		if ok && (err != 0 || g != w) {
			return viol("link target of %s: got %q (%v), recorded %q", p, short(g, 80), err, short(w, 80))
		}
		if !ok && err == 0 {
			return viol("link target of %s: got %q, none recorded", p, short(g, 80))
		}
	}
	var names []string
	xs := v.xattrs(x.owner, x.ino)
	for _, d := range xs {
		names = append(names, d.Name)
	}
	sort.Strings(names)
	l, err := m.Listxattr(e.node)
	if err != 0 {
		return viol("listing attributes of %s: %v", p, err)
	}
	if d := diffLists(names, l); d != "" {
		return viol("listing attributes of %s: %s", p, d)
	}
	for _, d := range xs {
		g, err := m.Getxattr(e.node, d.Name)
		if err != 0 || g != d.Data {
			return viol("attribute %q of %s: got %q (%v), recorded %q", d.Name, p, short(g, 60), err, short(d.Data, 60))
		}
	}
	no := []string{"user.none", "security.selinux", "x"}
	if len(names) < 40 {
		no = append(no, nearNames(names)...)
	}
	for _, n := range no {
		has := false
		for _, d := range xs {
			has = has || d.Name == n
		}
		if has {
			continue
		}
		if g, err := m.Getxattr(e.node, n); err != syscall.ENODATA {
			return viol("attribute %q of %s does not exist: got %q (%v)", n, p, short(g, 60), err)
		}
	}
	m.e.r.Trans(4 + 2*len(xs))
	return nil
}

// nearNames returns names that are similar to others: in another case, cut
// and extended.
func nearNames(names []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, n := range names {
		flip := []byte(n)
		for i, c := range flip {
			if c|32 >= 'a' && c|32 <= 'z' {
				flip[i] ^= 32
			}
		}
		for _, x := range []string{string(flip), strings.ToUpper(n), n[:len(n)/2], n[:max0(len(n)-1)], n + "x", "user." + n, n + " "} {
			if x != "" && x != "." && x != ".." && len(x) < 256 && !strings.ContainsAny(x, "/\x00") && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	return out
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

var noNames = []string{"none", "metadata", "rescue", "...", "a\n", "\xff", strings.Repeat("n", 255)}

// walk compares the whole tree below a node with the model.
func (v view) walk(m *Mnt, x vref, e entry, p string, depth int) *Violation {
	if vi := v.checkMeta(m, x, e, p); vi != nil {
		return vi
	}
	m.e.r.State(1)
	if x.ft != ftDir {
		if g := m.Lookup(e.node, "x"); g.err == 0 {
			return viol("looking up a name below %s, which is no directory, succeeds", p)
		}
		return nil
	}
	longest := 0
	ds := v.dirents(x.owner, x.ino)
	for _, d := range ds {
		if len(d.Name) > longest {
			longest = len(d.Name)
		}
	}
	small := uint32(32 + (longest+7)&^7)
	for _, c := range []struct {
		size uint32
		plus bool
	}{{4096, false}, {4096, true}, {small, false}, {small + 128, true}} {
		if c.size < 4096 && len(ds) > 300 {
			continue
		}
		if vi := v.checkList(m, x, e.node, p, c.size, c.plus); vi != nil {
			return vi
		}
		m.e.r.Trans(1)
	}
	no := noNames
	if len(ds) < 20 {
		var names []string
		for _, d := range ds {
			names = append(names, d.Name)
		}
		no = append(append([]string{}, no...), nearNames(names)...)
	}
	for _, n := range no {
		if _, ok := v.child(x, n); ok {
			continue
		}
		if g := m.Lookup(e.node, n); g.err != syscall.ENOENT {
			return viol("looking up %s/%q, which does not exist: %v", p, short(n, 40), g.err)
		}
		m.e.r.Trans(1)
	}
	if depth == 0 {
		return nil
	}
	for _, d := range ds {
		if !okName(d.Name) {
			continue
		}
		c, _ := v.child(x, d.Name)
		g := m.Lookup(e.node, d.Name)
		if v.inode(c.owner, c.ino) == nil {
			continue
		}
		q := p + "/" + d.Name
		if g.err != 0 {
			return viol("looking up %s: %v", short(fmt.Sprintf("%q", q), 100), g.err)
		}
		m.e.r.Trans(1)
		if vi := v.walk(m, c, g, q, depth-1); vi != nil {
			return vi
		}
		m.Forget(g.node, 1)
	}
	return nil
}

// mountModel writes a metadata file and mounts it.
func (e *Env) mountModel(real bool, its []It, im *Image) *Mnt {
	meta := e.Path("meta.db")
	writeIndex(meta, 4096, its)
	args := []string{"mount", "--metadata", meta}
	if im != nil {
		args = append(args, im.Path)
	}
	m, r := e.Mount(real, args...)
	if m == nil {
		panic(mntDead{"mount failed: " + r.brief()})
	}
	return m
}

// catch turns the death of a file server into a violation.
func catch(m **Mnt, v **Violation) {
	p := recover()
	if p == nil {
		if *m != nil {
			if r := (*m).Unmount(); *v == nil && (r.Hung != "" || r.crashed()) {
				*v = viol("the file server did not end properly: %s", r.brief())
			}
		}
		return
	}
	if *m != nil {
		(*m).drop()
	}
	d, ok := p.(mntDead)
	if !ok {
		panic(p)
	}
	*v = viol("%s", d.what)
	(*v).Hung = strings.Contains(d.what, "no answer")
}

// checkMount walks the whole mount of the given items.
func checkMount(e *Env, real bool, its []It, im *Image) (vi *Violation) {
	return checkMountTo(e, real, its, im, 10)
}

// checkMountTo walks the mount down to some depth.
func checkMountTo(e *Env, real bool, its []It, im *Image, depth int) (vi *Violation) {
	var m *Mnt
	defer catch(&m, &vi)
	m = e.mountModel(real, its, im)
	v := view{newModel(its...)}
	for round := 0; round < 2; round++ {
		// These two belong to no tree.
		if a, err := m.Getattr(1); err != 0 || m.sawIno(vref{0, 1, 0}, a.Ino) != "" {
			return viol("attributes of the mount point: %v %s", err, m.sawIno(vref{0, 1, 0}, a.Ino))
		}
		if g := m.Walk("metadata"); g.err != 0 || m.sawIno(vref{0, 2, 0}, g.attr.Ino) != "" {
			return viol("looking up the metadata file: %v %s", g.err, m.sawIno(vref{0, 2, 0}, g.attr.Ino))
		}
		g := m.Walk("rescue")
		if g.err != 0 {
			return viol("looking up the rescue directory: %v", g.err)
		}
		if vi := v.walk(m, vref{oFS, 256, ftDir}, g, "rescue", depth); vi != nil {
			if round > 0 {
				vi.Msg += " (on the second walk)"
			}
			return vi
		}
		if round == 0 {
			m.Forget(g.node, 1)
		}
	}
	e.r.Trace(1)
	return nil
}

var kindNames = []string{"none", "file", "empty", "dir", "emptydir", "link", "fifo", "chr", "subvol"}

// kindNode makes one node of each kind. Inode and tree numbers follow base.
func kindNode(k int, name string, base uint64, kids ...*node) *node {
	var n *node
	switch k {
	case 1:
		n = inlineN(name, base, "data of "+name)
	case 2:
		n = fileN(name, base, 0)
	case 3:
		n = dirN(name, base, append(kids, inlineN("in", base+1, "x"))...)
	case 4:
		n = dirN(name, base)
	case 5:
		n = linkN(name, base, "target/of/"+name)
	case 6:
		n = &node{Name: name, Ft: ftFifo, Ino: base}
	case 7:
		n = &node{Name: name, Ft: ftChr, Ino: base, I: inodeT{Rdev: 0x501}}
	case 8:
		n = subvolN(name, base, append(kids, inlineN("in", 257, "sub"), fileN("in2", 300, 0))...)
	}
	if n != nil {
		n.I.Mode = modeFor(n.Ft)&^0777 | uint32(base*37)%01000
		n.I.Nbytes = base * base
		n.I.UID, n.I.GID, n.I.Nlink = uint32(base), uint32(base+1), uint32(base%5)+1
	}
	return n
}

func runC16(r *Runner) {
	r.ForEach(func(yield func(Case) bool) {
		add := func(id string, f func(e *Env) *Violation) bool { return yield(Case{id, f}) }
		tree := func(id string, its []It) bool {
			return add(id, func(e *Env) *Violation {
				e.r.Outcome(id)
				return checkMount(e, false, its, nil)
			})
		}
		nk := len(kindNames)
		// Shapes: three slots in a directory of the top level, another one
		// below it, and the same in a subvolume.
		for a := 0; a < nk; a++ {
			for b := a; b < nk; b++ {
				for c := b; c < nk; c++ {
					mk := func(base uint64) []*node {
						var l []*node
						for i, k := range []int{a, b, c} {
							if n := kindNode(k, fmt.Sprintf("%s%d", kindNames[k], i), base+uint64(10*i)); n != nil {
								l = append(l, n)
							}
						}
						return l
					}
					sub := mk(2000)
					top := append(mk(1000), dirN("sub", 500, sub...), subvolN("vol", 600, mk(3000)...))
					id := fmt.Sprintf("shape/%d%d%d", a, b, c)
					if !tree(id, fsItems(top...)) {
						return
					}
				}
			}
		}
		// The same inode numbers in different trees.
		if !tree("same-inodes", fsItems(inlineN("f", 257, "top"), linkN("l", 258, "top"),
			&node{Name: "d", Ft: ftDir, Ino: 259, I: inodeT{UID: 5}, Kids: []*node{inlineN("x", 260, "1")}},
			&node{Name: "v", Ft: ftDir, Subvol: 300, I: inodeT{UID: 6}, Kids: []*node{
				inlineN("f", 257, "in subvolume"), linkN("l", 258, "in subvolume"), dirN("d", 259, inlineN("y", 260, "22")),
				&node{Name: "v2", Ft: ftDir, Subvol: 301, I: inodeT{UID: 7}, Kids: []*node{inlineN("f", 257, "nested"), dirN("d", 259)}}}},
			subvolN("w", 302))) {
			return
		}
		for k := 0; k < 6; k++ {
			if !tree(fmt.Sprintf("numbers/%d", k), fsItems(numberTree(k)...)) {
				return
			}
		}
		// Attributes.
		var l []*node
		ino := uint64(1000)
		put := func(ft uint8, f func(i *inodeT)) {
			n := &node{Name: fmt.Sprintf("n%d", ino), Ft: ft, Ino: ino, I: inodeT{Mode: modeFor(ft), Nlink: 1, Size: 3, UID: 1, GID: 2,
				Atime: ts{100, 1}, Mtime: ts{200, 2}, Ctime: ts{300, 3}, Otime: ts{400, 4}}}
			f(&n.I)
			l = append(l, n)
			ino++
		}
		for _, ft := range []uint8{ftReg, ftDir, ftChr, ftBlk, ftFifo, ftSock, ftLnk} {
			for b := uint(0); b < 12; b++ {
				put(ft, func(i *inodeT) { i.Mode = modeFor(ft)&^07777 | 1<<b })
			}
			put(ft, func(i *inodeT) { i.Mode = modeFor(ft)&^07777 | 07777 })
			for b := uint(0); b < 64; b++ {
				put(ft, func(i *inodeT) { i.Size = 1 << b })
				put(ft, func(i *inodeT) { i.Nbytes = 1 << b })
				put(ft, func(i *inodeT) { i.Atime.Sec = 1 << b })
				put(ft, func(i *inodeT) { i.Mtime.Sec = 1 << b })
				put(ft, func(i *inodeT) { i.Ctime.Sec = -1 << b })
			}
			for b := uint(0); b < 32; b++ {
				put(ft, func(i *inodeT) { i.UID = 1 << b })
				put(ft, func(i *inodeT) { i.GID = 1 << b })
				put(ft, func(i *inodeT) { i.Nlink = 1 << b })
			}
			if ft == ftChr || ft == ftBlk {
				for b := uint(0); b < 32; b++ {
					put(ft, func(i *inodeT) { i.Rdev = 1 << b })
					put(ft, func(i *inodeT) { i.Rdev = 1<<32 - 1 - 1<<b })
					put(ft, func(i *inodeT) { i.Rdev = 1<<b - 1 })
				}
				for _, d := range [][2]uint64{{1, 3}, {5, 1}, {8, 0}, {8, 17}, {253, 255}, {253, 256}, {259, 65537}, {4095, 1048575}, {0, 1048575}, {4095, 0}} {
					put(ft, func(i *inodeT) { i.Rdev = d[0]<<20 | d[1] })
				}
			}
			for _, ns := range []uint32{0, 1, 999999999} {
				put(ft, func(i *inodeT) { i.Atime.Nsec = ns })
				put(ft, func(i *inodeT) { i.Mtime.Nsec = ns })
				put(ft, func(i *inodeT) { i.Ctime.Nsec = ns })
			}
			if !tree(fmt.Sprintf("attr/%d", ft), fsItems(l...)) {
				return
			}
			l = nil
		}
		// Names.
		l = nil
		for c := 1; c < 256; c++ {
			if c == '/' {
				continue
			}
			l = append(l, kindNode(1+c%8, string([]byte{byte(c), 'n'}), uint64(1000+10*c)))
		}
		if !tree("names/bytes", fsItems(l...)) {
			return
		}
		l = nil
		for n := 1; n <= 255; n++ {
			l = append(l, kindNode(1+n%8, strings.Repeat("n", n), uint64(1000+10*n)))
		}
		if !tree("names/lengths", fsItems(l...)) {
			return
		}
		for _, n := range []int{1000, 5000} {
			l = nil
			for i := 0; i < n; i++ {
				l = append(l, kindNode(1+i%7, fmt.Sprintf("file number %d", i), uint64(1000+10*i)))
			}
			if !tree(fmt.Sprintf("names/many%d", n), fsItems(dirN("d", 600, l...))) {
				return
			}
		}
		// Colliding names, in every subset and order.
		cx := "collide"
		cy := collideName(nameHash(cx), "k")
		cz := collideName(nameHash(cx), "q")
		cs := []string{cx, cy, cz, "other"}
		for mask := 1; mask < 16; mask++ {
			for pi, p := range permutations(4) {
				var k []*node
				var xs []xattr
				for _, i := range p {
					if mask>>uint(i)&1 == 1 {
						k = append(k, kindNode(1+(i+mask)%8, cs[i], uint64(1000+10*i)))
						xs = append(xs, xattr{cs[i], strings.Repeat("v", i) + cs[i]})
					}
				}
				if mask != 15 && pi > 5 {
					continue
				}
				d := dirN("d", 500, k...)
				d.X = xs
				f := inlineN("f", 501, "data")
				f.X = xs
				if !tree(fmt.Sprintf("collide/%d/%d", mask, pi), fsItems(d, f)) {
					return
				}
			}
		}
		for k := 0; k < packedSound; k++ {
			k := k
			if !add(fmt.Sprintf("shared-item/%d", k), func(e *Env) *Violation {
				return eachPacked(k, packedSound, r.Thorough(), func(what string, its []It) *Violation {
					if v := checkMount(e, false, its, nil); v != nil {
						v.Msg = what + ": " + v.Msg
						return v
					}
					return nil
				})
			}) {
				return
			}
		}
		// Names that cannot exist, among others.
		bad := []string{"", "/", "a/b", "..", ".", "/etc/passwd", "../x", "x/"}
		for mask := 1; mask < 1<<len(bad); mask++ {
			if mask&(mask-1) != 0 && mask != 1<<len(bad)-1 && mask%5 != 0 {
				continue
			}
			l = nil
			for i, b := range bad {
				l = append(l, kindNode(1+i%8, fmt.Sprintf("good%d", i), uint64(1000+10*i)))
				if mask>>uint(i)&1 == 1 {
					l = append(l, kindNode(1+(i+mask)%7, b, uint64(2000+10*i)))
				}
			}
			if !tree(fmt.Sprintf("names/bad/%d", mask), fsItems(dirN("d", 500, l...))) {
				return
			}
		}
		// Extended attributes and link targets.
		l = nil
		for i, n := range []int{0, 1, 2, 7, 8, 100, 255, 256, 1000, 3000} {
			f := inlineN(fmt.Sprintf("x%d", i), uint64(1000+i), "d")
			f.X = []xattr{{"user.v", string(pat(uint64(i), uint64(n)))}, {"user." + strings.Repeat("a", 1+i*20), "second"}, {"user.empty", ""}}
			l = append(l, f)
			if n > 0 {
				l = append(l, linkN(fmt.Sprintf("l%d", i), uint64(2000+i), string(pat(uint64(i), uint64(n)))))
			}
		}
		for i, t := range []string{"/", "//", "a/", "a//", "dir/./", " ", " a", "a ", "\n", "a\n", "a\x00", "a\x00\x00", "\x00", "\x00a", "\xff\xfe", "../", ".", "..", "a\\"} {
			l = append(l, linkN(fmt.Sprintf("t%d", i), uint64(3000+i), t))
		}
		for _, n := range []int{4000, 4094, 4095} {
			l = append(l, linkN(fmt.Sprintf("l%d", n), uint64(10000+n), strings.Repeat("t", n)))
		}
		var xs []xattr
		for i := 0; i < 200; i++ {
			xs = append(xs, xattr{fmt.Sprintf("user.attribute%d", i), fmt.Sprint("value ", i)})
		}
		xd := dirN("xd", 5000)
		xd.X = xs
		xl := linkN("xl", 5001, "t")
		xl.X = xs[:3]
		if !tree("xattr", fsItems(append(l, xd, xl)...)) {
			return
		}
		// Versions: older and newer leaves with other attributes, entries and
		// targets.
		for m := 0; m < 64; m++ {
			its := fsItems(dirN("d", 500, inlineN("f", 501, "old"), linkN("l", 502, "old"), dirN("s", 503)), subvolN("v", 300, inlineN("f", 257, "v")))
			gens := []uint64{3, 20}
			for i, it := range its {
				if it.Owner != oFS && it.Owner != 300 {
					continue
				}
				if i%6 != m%6 && (i+m/6)%5 != 0 {
					continue
				}
				for _, g := range gens {
					c := it
					c.Gen = g
					c.Data = append([]byte(nil), it.Data...)
					switch it.K.Type {
					case tInode:
						in := decInode(it.Data)
						in.Size, in.UID, in.Nlink = g*100, uint32(g), uint32(g)
						in.Mode ^= uint32(g)
						c.Data = encInode(in)
					case tExtent:
						c.Data = encInline(g, []byte(fmt.Sprint("version ", g)))
					default:
						continue
					}
					its = append(its, c)
				}
			}
			if !tree(fmt.Sprintf("versions/%d", m), its) {
				return
			}
		}
		// Directories and subvolumes that contain each other in every way,
		// as left behind by moves, down to some depth.
		for mask := 0; mask < 512; mask++ {
			mask := mask
			if !add(fmt.Sprintf("subvol-graph/%d", mask), func(e *Env) *Violation {
				return checkMountTo(e, false, subvolGraph(mask), nil, 4)
			}) {
				return
			}
			if !add(fmt.Sprintf("root-graph/%d", mask), func(e *Env) *Violation {
				return checkMountTo(e, false, rootGraph(mask), nil, 4)
			}) {
				return
			}
			if !add(fmt.Sprintf("graph/%d", mask), func(e *Env) *Violation {
				return checkMountTo(e, false, dirGraph(mask), nil, 4)
			}) {
				return
			}
		}
		// The same through the real, separately linked program.
		if !add("real", func(e *Env) *Violation {
			return checkMount(e, true, historyTree(), nil)
		}) {
			return
		}
		runC16Histories(r, add)
	})
}

// numberTree returns nodes with inode and tree numbers of which others could be
// mistaken for: numbers that differ in one bit (kinds 0 and 1), and those that
// are equal if a tree number is added to an inode number at any bit.
func numberTree(k int) []*node {
	var l []*node
	leaf := func(name string, ino uint64) []*node {
		// Sizes and attributes tell which one it is.
		i := ino%99991 + 1
		f := inlineN("f"+name, ino, string(pat(i, i%50+1)))
		f.X = []xattr{{"user.n", fmt.Sprint(ino)}}
		f.I.UID = uint32(i)
		n := linkN("l"+name, ino^1, fmt.Sprint("link/", ino))
		n.I.UID = uint32(i + 1)
		return []*node{f, n}
	}
	switch k {
	case 0:
		l = leaf("", 1000)
		for b := uint(1); b < 63; b++ {
			if b == 1 || b > 2 && b < 9 {
				continue // Used for more directories below
			}
			l = append(l, leaf(fmt.Sprint(b), 1000^1<<b)...)
		}
		for b := uint(0); b < 63; b++ {
			l = append(l, dirN(fmt.Sprint("d", b), 1<<63^1<<b, leaf("", 1<<62|1<<61|1<<b^16)...))
		}
	case 1:
		vol := func(tree uint64) {
			n := subvolN(fmt.Sprint("v", tree), tree, leaf("", 1000)...)
			for _, x := range n.Kids {
				x.I.GID = uint32(tree ^ tree>>32)
				x.I.Size += uint64(len(l))
			}
			l = append(l, n)
		}
		vol(1000)
		for b := uint(0); b < 63; b++ {
			if t := uint64(1000 ^ 1<<b); t >= 256 {
				vol(t)
			}
		}
	default:
		vols := map[uint64]*node{}
		seen := map[[2]uint64]bool{}
		put := func(tree, ino uint64) {
			if ino < 256 || ino >= 1<<40 || seen[[2]uint64{tree, ino}] || seen[[2]uint64{tree, ino ^ 1}] || tree != oFS && ino/2 == 128 {
				return
			}
			seen[[2]uint64{tree, ino}] = true
			n := leaf(fmt.Sprint(ino), ino)
			if tree == oFS {
				l = append(l, n...)
				return
			}
			if vols[tree] == nil {
				vols[tree] = subvolN(fmt.Sprint("v", tree), tree)
				l = append(l, vols[tree])
			}
			vols[tree].Kids = append(vols[tree].Kids, n...)
		}
		trees := []uint64{300, 302, 1<<20 | 6, 1<<24 - 1}
		for _, i := range []uint64{1000, 1 << 20, 1<<32 | 1002, 1<<40 - 4}[k-2 : k-1] {
			for _, a := range trees {
				put(a, i)
				for s := uint(0); s < 40; s++ {
					put(oFS, a<<s^i)
					put(oFS, a<<s+i)
					for _, b := range trees {
						put(b, i^(a^b)<<s)
						put(b, i+a<<s-b<<s)
					}
				}
			}
		}
	}
	return l
}

func historyTree() []It {
	f := inlineN("f", 300, "content of f")
	f.X = []xattr{{"user.a", "1"}, {"user.b", ""}}
	l := linkN("l", 301, "d/f")
	return fsItems(
		dirN("d", 310, f, dirN("e", 311), linkN("l", 312, "nowhere")),
		l, fileN("empty", 302, 0),
		subvolN("v", 400, inlineN("f", 300, "in v"), dirN("d", 310), subvolN("w", 401, inlineN("x", 257, "w"))),
	)
}

// hop is one high-level operation of a history.
type hop struct {
	name string
	drop bool // forget all nodes afterwards
	run  func(v view, m *Mnt, walk func(p string) (entry, vref, bool)) *Violation
}

func runC16Histories(r *Runner, add func(id string, f func(e *Env) *Violation) bool) {
	its := historyTree()
	var ops []hop
	both := func(name string, f func(v view, m *Mnt, walk func(p string) (entry, vref, bool)) *Violation) {
		ops = append(ops, hop{name, false, f}, hop{name + "!", true, f})
	}
	for _, p := range []string{"", "d", "d/f", "d/e", "l", "empty", "v", "v/d", "v/w/x"} {
		p := p
		both("stat:"+p, func(v view, m *Mnt, walk func(p string) (entry, vref, bool)) *Violation {
			g, x, _ := walk(p)
			if g.err != 0 {
				return viol("looking up %q: %v", p, g.err)
			}
			return v.checkMeta(m, x, g, p)
		})
	}
	for _, p := range []string{"none", "d/none", "v/none", "l/none", "d/e/none", "v/d/f"} {
		p := p
		both("no:"+p, func(v view, m *Mnt, walk func(p string) (entry, vref, bool)) *Violation {
			if g, _, _ := walk(p); g.err != syscall.ENOENT && g.err != syscall.ENOTDIR {
				return viol("looking up %q, which does not exist: %v", p, g.err)
			}
			return nil
		})
	}
	for _, p := range []string{"", "d", "d/e", "v", "v/w"} {
		p := p
		for _, plus := range []bool{false, true} {
			plus := plus
			both(fmt.Sprintf("list%v:%s", plus, p), func(v view, m *Mnt, walk func(p string) (entry, vref, bool)) *Violation {
				g, x, _ := walk(p)
				if g.err != 0 {
					return viol("looking up %q: %v", p, g.err)
				}
				return v.checkList(m, x, g.node, p, 4096, plus)
			})
		}
	}
	for _, p := range []string{"d/f", "v/f", "empty"} {
		p := p
		both("read:"+p, func(v view, m *Mnt, walk func(p string) (entry, vref, bool)) *Violation {
			g, x, _ := walk(p)
			if g.err != 0 {
				return viol("looking up %q: %v", p, g.err)
			}
			fh, err := m.Open(g.node, 0)
			if err != 0 {
				return viol("opening %q: %v", p, err)
			}
			b, err := m.ReadAll(g.node, fh, 1<<20)
			m.Release(g.node, fh)
			w, _ := v.content(x.owner, x.ino, nil)
			if err != 0 || string(b) != string(w) {
				return viol("reading %q: got %q (%v), recorded %q", p, b, err, w)
			}
			return nil
		})
	}
	both("top", func(v view, m *Mnt, walk func(p string) (entry, vref, bool)) *Violation {
		l, err := m.List(1, 4096, true)
		if err != 0 || strings.Join(gotNames(l), " ") != `"metadata":8 "rescue":4` {
			return viol("listing the mount point: %v %v", gotNames(l), err)
		}
		return nil
	})
	depth := 2
	if r.Thorough() {
		depth = 3
	}
	// One case per pair of first operations.
	var seq func(e *Env, pre []int) *Violation
	run := func(e *Env, s []int) (vi *Violation) {
		var m *Mnt
		defer catch(&m, &vi)
		m = e.mountModel(false, its, nil)
		v := view{newModel(its...)}
		held := map[uint64]uint64{}
		var names []string
		for _, i := range s {
			o := ops[i]
			names = append(names, o.name)
			vi = o.run(v, m, func(p string) (entry, vref, bool) { return histWalk(v, m, held, p) })
			if vi != nil {
				vi.Msg = "after " + strings.Join(names, " ") + ": " + vi.Msg
				return vi
			}
			if o.drop {
				for n, c := range held {
					m.Forget(n, c)
				}
				held = map[uint64]uint64{}
			}
		}
		e.r.Trans(len(s))
		e.r.State(1)
		e.r.Trace(1)
		e.r.Outcome("history/" + strings.Join(names, " "))
		return nil
	}
	seq = func(e *Env, pre []int) *Violation {
		if len(pre) == depth {
			return run(e, pre)
		}
		for i := range ops {
			if vi := seq(e, append(pre[:len(pre):len(pre)], i)); vi != nil {
				return vi
			}
			if e.r.expired() {
				return nil
			}
		}
		return nil
	}
	for i := range ops {
		i := i
		if depth == 2 {
			if !add("history/"+ops[i].name, func(e *Env) *Violation { return seq(e, []int{i}) }) {
				return
			}
			continue
		}
		for j := range ops {
			j := j
			if !add("history/"+ops[i].name+" "+ops[j].name, func(e *Env) *Violation { return seq(e, []int{i, j}) }) {
				return
			}
		}
	}
	// Two handles of one directory, read piece by piece in every
	// interleaving, with rewinds and lookups in between.
	steps := 5
	if r.Thorough() {
		steps = 7
	}
	var names []string
	for i := 0; i < 6; i++ {
		names = append(names, fmt.Sprintf("entry%d", i))
	}
	for first := 0; first < 6; first++ {
		first := first
		if !add(fmt.Sprintf("handles/%d", first), func(e *Env) (vi *Violation) {
			var m *Mnt
			defer catch(&m, &vi)
			var kids []*node
			for i, n := range names {
				kids = append(kids, kindNode(1+i, n, uint64(1000+10*i)))
			}
			its := fsItems(dirN("d", 500, kids...))
			m = e.mountModel(false, its, nil)
			v := view{newModel(its...)}
			x, _ := v.resolve("d")
			want := v.wantNames(x)
			n := 1
			for i := 0; i < steps-1; i++ {
				n *= 6
			}
			for s := 0; s < n; s++ {
				g := m.Walk("rescue/d")
				if g.err != 0 {
					return viol("lookup: %v", g.err)
				}
				var fh [2]uint64
				for i := range fh {
					var err syscall.Errno
					if fh[i], err = m.Opendir(g.node); err != 0 {
						return viol("opendir: %v", err)
					}
				}
				var off [2]uint64
				var seen [2][]fdirent
				read := func(h int) *Violation {
					l, err := m.Readdir(g.node, fh[h], off[h], 40*2, false)
					if err != 0 {
						return viol("reading a directory: %v", err)
					}
					if len(l) == 0 {
						if d := diffLists(want, gotNames(seen[h])); d != "" {
							return viol("reading a directory in pieces (sequence %d.%d): %s", first, s, d)
						}
						off[h], seen[h] = 0, nil
						return nil
					}
					for _, d := range l {
						off[h] = d.off
						if d.name != "." && d.name != ".." {
							seen[h] = append(seen[h], d)
						}
					}
					return nil
				}
				q := s*6 + first
				for i := 0; i < steps; i++ {
					switch a := q % 6; a {
					case 0, 1:
						vi = read(a)
					case 2, 3: // rewind
						off[a-2], seen[a-2] = 0, nil
					case 4:
						m.Forget(m.Lookup(g.node, names[i%6]).node, 1)
					case 5:
						m.Lookup(g.node, "none")
					}
					if vi != nil {
						return vi
					}
					q /= 6
				}
				for h := range fh {
					for ok := true; ok; ok = off[h] != 0 {
						if vi = read(h); vi != nil {
							return vi
						}
					}
					m.Releasedir(g.node, fh[h])
				}
				m.Forget(g.node, 1)
				e.r.State(1)
				e.r.Trans(steps)
			}
			return nil
		}) {
			return
		}
	}
}

// histWalk walks a path below the rescue directory and records the nodes it
// looked up.
func histWalk(v view, m *Mnt, held map[uint64]uint64, p string) (entry, vref, bool) {
	g := m.Lookup(1, "rescue")
	x := vref{oFS, 256, ftDir}
	ok := true
	if g.err != 0 {
		return g, x, ok
	}
	held[g.node]++
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		g = m.Lookup(g.node, c)
		if x, ok = v.child(x, c); g.err != 0 {
			return g, x, ok
		}
		held[g.node]++
	}
	return g, x, ok
}
