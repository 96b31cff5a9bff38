package main

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"
)

// C15: ls.
func init() {
	register(&Prop{ID: "C15", Level: "model_checking",
		Rule: "all directory trees over 4 names (two with equal hashes) x 9 entry kinds, subvolumes sharing inode numbers with their parents, cyclic and " +
			"multiply referenced directories; every start path, plain, recursive and with inode numbers; every permission, type and field at boundaries; " +
			"missing inodes; several arguments; non-trivial: distinct outputs",
		Assumptions: []string{"names without control characters (tabular output)", "the time shown is the change time in UTC"},
		Run:         runC15})
}

type lsRow struct {
	Inode                       string
	Mode, Nlink, UID, GID, Size string
	Time, Name                  string
	isDir                       bool
	owner, loc                  uint64
	subvol                      bool
	ino                         uint64
	tree                        uint64
}

func (a lsRow) line(inode bool) string {
	s := strings.Join([]string{a.Mode, a.Nlink, a.UID, a.GID, a.Size, a.Time, a.Name}, "|")
	if inode {
		s = a.Inode + "|" + s
	}
	return s
}

// lsDir is the reference listing of one directory.
func lsDir(v view, owner, dir uint64) []lsRow {
	var out []lsRow
	for _, d := range v.dirents(owner, dir) {
		out = append(out, lsEntry(v, owner, d))
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].isDir != out[j].isDir {
			return !out[i].isDir
		}
		return out[i].Name < out[j].Name
	})
	return out
}

func lsEntry(v view, owner uint64, d dirent) lsRow {
	r := lsRow{Name: d.Name, isDir: d.Type == ftDir, Inode: fmt.Sprint(d.Loc.Obj), tree: owner, ino: d.Loc.Obj}
	if d.Loc.Type == tRoot {
		r.tree, r.ino = d.Loc.Obj, 256
	}
	t := "?"
	if d.Type < 8 && d.Type > 0 {
		t = string("?-dcbpsl"[d.Type])
	}
	in := v.inode(r.tree, r.ino)
	if in == nil {
		r.Mode, r.Nlink, r.UID, r.GID, r.Size, r.Time = t+"?????????", "?", "?", "?", "?", "?"
		return r
	}
	const rwx = "rwxrwxrwx"
	m := []byte(t)
	for i := 0; i < 9; i++ {
		c := byte('-')
		if in.Mode>>uint(8-i)&1 == 1 {
			c = rwx[i]
		}
		m = append(m, c)
	}
	r.Mode = string(m)
	r.Nlink, r.UID, r.GID, r.Size = fmt.Sprint(in.Nlink), fmt.Sprint(in.UID), fmt.Sprint(in.GID), fmt.Sprint(in.Size)
	r.Time = time.Unix(in.Ctime.Sec, int64(in.Ctime.Nsec)).UTC().Format("Jan _2 15:04")
	return r
}

// parseRow splits an output line: the name is everything after the fixed
// columns, which are separated by blanks.
func parseRow(l string, inode bool) string {
	n := 8
	if inode {
		n++
	}
	var f []string
	rest := l
	next := func() {
		rest = strings.TrimLeft(rest, " ")
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			i = len(rest)
		}
		f = append(f, rest[:i])
		rest = rest[i:]
	}
	next()
	if inode {
		next()
	}
	if strings.HasSuffix(f[len(f)-1], "?????????") {
		for i := 0; i < 5; i++ {
			next()
		}
	} else {
		for len(f) < n {
			next()
		}
		k := len(f) - 3
		f[k] = fmt.Sprintf("%s %2s %s", f[k], f[k+1], f[k+2])
		f = f[:k+1]
	}
	return strings.Join(append(f, strings.TrimLeft(rest, " ")), "|")
}

// lsRec lists a directory tree; every directory is printed once per start.
func lsRec(v view, owner, dir uint64, inode bool, seen map[[2]uint64]bool, emit func(dirRows []string, owner, dir uint64), header func(name string)) {
	seen[[2]uint64{owner, dir}] = true
	rows := lsDir(v, owner, dir)
	var ls []string
	for _, r := range rows {
		ls = append(ls, r.line(inode))
	}
	emit(ls, owner, dir)
	for _, r := range rows {
		if r.isDir && !seen[[2]uint64{r.tree, r.ino}] {
			header(r.Name)
			lsRec(v, r.tree, r.ino, inode, seen, emit, header)
		}
	}
}

// section is one listed directory in the output.
type section struct {
	header string
	rows   []string
}

func (s section) String() string { return s.header + ": " + strings.Join(s.rows, " / ") }

// lsCheck runs ls on the given paths and compares with the reference.
// In recursive listings the order of sections is depth first; a directory
// that is reachable in several ways may be listed at any of them, so only the
// set of sections is compared when loose.
func lsCheck(e *Env, what string, its []It, p string, args []string, recursive, inode, loose, real bool) *Violation {
	m := newModel(its...)
	v := view{m}
	run := e.CLI
	if real {
		run = e.Exec
	}
	cl := append([]string{"ls", "--metadata=" + p, "--verbose=false", fmt.Sprintf("--recursive=%v", recursive), fmt.Sprintf("--inode=%v", inode)}, args...)
	res := run(cl...)
	e.r.State(1)
	e.r.Trace(1)
	desc := fmt.Sprintf("%s: ls%v recursive=%v inode=%v", what, args, recursive, inode)
	if res.Exit != 0 || res.crashed() {
		return viol("%s: %s", desc, res.brief())
	}
	// Reference output.
	if len(args) == 0 {
		args = []string{"/"}
	}
	var want []section
	var files section
	var missing []string
	type st struct{ o, d uint64 }
	var starts []st
	for _, a := range args {
		c := path.Clean(a)
		if c == "/" {
			starts = append(starts, st{oFS, 256})
			continue
		}
		d := refWalk(v, oFS, c)
		if d == nil {
			missing = append(missing, c)
			continue
		}
		owner := refOwner(v, oFS, c)
		if d.Type != ftDir {
			files.rows = append(files.rows, lsEntry(v, owner, *d).line(inode))
			continue
		}
		r := lsEntry(v, owner, *d)
		starts = append(starts, st{r.tree, r.ino})
	}
	for _, s := range starts {
		if !recursive {
			var ls []string
			for _, r := range lsDir(v, s.o, s.d) {
				ls = append(ls, r.line(inode))
			}
			want = append(want, section{"", ls})
			continue
		}
		cur := ""
		lsRec(v, s.o, s.d, inode, map[[2]uint64]bool{}, func(rows []string, o, d uint64) {
			want = append(want, section{cur, rows})
		}, func(n string) { cur = n })
	}
	// Warnings about missing paths, one each, and nothing else.
	var warn []string
	for _, l := range strings.Split(strings.TrimSpace(res.Stderr), "\n") {
		if l != "" {
			warn = append(warn, l)
		}
	}
	if len(warn) != len(missing) {
		return viol("%s: %d warnings expected: %s", desc, len(missing), res.brief())
	}
	for i, w := range warn {
		if !strings.Contains(w, "'"+missing[i]+"'") {
			return viol("%s: warning %q does not name %q", desc, w, missing[i])
		}
	}
	// Flatten, because consecutive starts are not separated in the output.
	var wantFlat, gotFlat []string
	wantFlat = append(wantFlat, files.rows...)
	for _, s := range want {
		if s.header != "" {
			wantFlat = append(wantFlat, s.header+":")
		}
		wantFlat = append(wantFlat, s.rows...)
	}
	for _, l := range strings.Split(strings.TrimSuffix(res.Stdout, "\n"), "\n") {
		if l == "" {
			continue
		}
		e.r.Trans(1)
		if len(strings.Fields(l)) < 6 {
			gotFlat = append(gotFlat, l)
			continue
		}
		gotFlat = append(gotFlat, parseRow(l, inode))
	}
	e.r.Outcome(strings.Join(gotFlat, "\n"))
	if loose {
		sort.Strings(wantFlat)
		sort.Strings(gotFlat)
	}
	for i := 0; i < len(wantFlat) || i < len(gotFlat); i++ {
		w, g := "(nothing)", "(nothing)"
		if i < len(wantFlat) {
			w = wantFlat[i]
		}
		if i < len(gotFlat) {
			g = gotFlat[i]
		}
		if w != g {
			return viol("%s: line %d is %q, expected %q; output %q", desc, i+1, g, w, short(res.Stdout, 700))
		}
	}
	return nil
}

// refOwner is the tree that contains the entry a path names.
func refOwner(v view, owner uint64, p string) uint64 {
	d := path.Dir(p)
	if d == "/" || d == "." {
		return owner
	}
	x := refWalk(v, owner, d)
	o := refOwner(v, owner, d)
	if x.Loc.Type == tRoot {
		return x.Loc.Obj
	}
	return o
}

func runC15(r *Runner) {
	cx := "hashname"
	cy := collideName(nameHash(cx), "k")
	names := []string{"a", "B b", cx, cy}
	attr := func(n *node, i int) *node {
		n.I.Nlink = uint32(i + 1)
		n.I.UID, n.I.GID = uint32(1000+i), uint32(100+i)
		if n.I.Size == 0 {
			n.I.Size = uint64(12345 * i)
		}
		n.I.Mode = modeFor(n.Ft)&^0777 | []uint32{0644, 0750, 0001, 0777, 0, 0421}[i%6]
		n.I.Atime, n.I.Otime = ts{1, 1}, ts{2, 2}
		n.I.Mtime = ts{1000000000 + int64(i), 5}
		n.I.Ctime = ts{1577934245 + int64(i)*86400*37, 7}
		return n
	}
	entry := func(name string, i, kind int) *node {
		ino := uint64(257 + i)
		var n *node
		switch kind {
		case 1:
			n = attr(fileN(name, ino, 0), i)
		case 2:
			n = attr(linkN(name, ino, "target"), i)
		case 3:
			n = &node{Name: name, Ft: []uint8{ftChr, ftBlk, ftFifo, ftSock}[i%4], Ino: ino}
			attr(n, i)
		case 4:
			n = attr(dirN(name, ino), i)
		case 5:
			n = attr(dirN(name, ino, attr(fileN("x", 270, 0), 3), attr(dirN(cy, 271, attr(fileN("y", 272, 0), 4), attr(dirN("z", 273), 1)), 5)), i)
		case 6: // subvolume with the same numbers as its parent's
			n = attr(subvolN(name, uint64(260+i), attr(fileN("a", 257, 7), 5), attr(dirN("d", 258, attr(fileN(cx, 259, 9), 2)), 3)), i)
		case 7:
			n = attr(subvolN(name, uint64(260+i), attr(subvolN("s", uint64(280+i), attr(fileN("a", 257, 8), 1), attr(dirN("dd", 258), 2)), 4)), i)
		case 8:
			n = fileN(name, ino, 0)
			n.NoInode = true
		}
		return n
	}
	subPaths := []string{"/", "/a", "/B b", "/" + cx, "/" + cy, "/nope", "/a/x", "/a/a", "/a/d", "/a/" + cy, "/B b/d", "/B b/d/" + cx, "/B b/s", "/B b/s/dd",
		"/B b/s/a", "/" + cx + "/d", "/" + cy + "/" + cy + "/y", "/" + cy + "/a", "/a/"}
	kinds := 9
	r.ForEach(func(yield func(Case) bool) {
		for a := 0; a < kinds; a++ {
			for b := 0; b < kinds; b++ {
				a, b := a, b
				if !yield(Case{fmt.Sprintf("tree/%d-%d", a, b), func(e *Env) *Violation {
					for c := 0; c < kinds; c++ {
						for d := 0; d < kinds; d++ {
							// Quick: all pairs of each of the two halves against
							// a reduced set of the other one.
							if r.Quick() && (a+2*b+3*c+5*d)%4 != 0 && c > 1 {
								continue
							}
							var kids []*node
							for i, k := range []int{a, b, c, d} {
								if n := entry(names[i], i, k); n != nil {
									kids = append(kids, n)
								}
							}
							its := fsItems(kids...)
							p := e.Path("ix")
							writeIndex(p, 16384, its)
							what := fmt.Sprintf("tree %d%d%d%d", a, b, c, d)
							if v := lsCheck(e, what, its, p, []string{"/"}, true, (a+d)%2 == 0, false, false); v != nil {
								return v
							}
							pth := subPaths[(a*5+b*3+c*7+d)%len(subPaths)]
							if v := lsCheck(e, what, its, p, []string{pth, "/" + cy}, d%2 == 0, a%2 == 0, false, false); v != nil {
								return v
							}
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
		// Every start path on trees holding every kind somewhere.
		for rot := 0; rot < kinds; rot++ {
			rot := rot
			if !yield(Case{fmt.Sprintf("paths/%d", rot), func(e *Env) *Violation {
				var kids []*node
				for i := range names {
					if n := entry(names[i], i, (rot+i*2)%kinds); n != nil {
						kids = append(kids, n)
					}
				}
				its := fsItems(kids...)
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				if v := lsCheck(e, "no argument", its, p, nil, false, false, false, false); v != nil {
					return v
				}
				for i, s := range subPaths {
					for _, rec := range []bool{false, true} {
						for _, ino := range []bool{false, true} {
							if v := lsCheck(e, "start path", its, p, []string{s}, rec, ino, false, i%5 == 0 && !rec); v != nil {
								return v
							}
						}
						for _, s2 := range subPaths {
							if v := lsCheck(e, "two start paths", its, p, []string{s, s2}, rec, false, false, false); v != nil {
								return v
							}
						}
					}
				}
				return nil
			}}) {
				return
			}
		}
		// Every permission and type, sizes, ids and times at boundaries.
		for ft := 1; ft <= 8; ft++ {
			ft := uint8(ft)
			if !yield(Case{fmt.Sprintf("modes/%d", ft), func(e *Env) *Violation {
				var kids []*node
				for m := 0; m < 512; m++ {
					n := &node{Name: fmt.Sprintf("f%03o", m), Ft: ft, Ino: uint64(1000 + m)}
					if ft == ftDir {
						n = dirN(n.Name, n.Ino)
					}
					n.I.Mode = modeFor(ft)&^0777 | uint32(m)
					if m%7 == 0 {
						n.I.Mode |= 07000
					}
					n.I.Nlink = uint32(m + 1)
					kids = append(kids, n)
				}
				// Every other bit of the mode, which has no column.
				for b := 9; b < 32; b++ {
					for _, m := range []uint32{0, 0421, 0777} {
						n := &node{Name: fmt.Sprintf("b%02d-%03o", b, m), Ft: ft, Ino: uint64(2000+b*4) + uint64(m&3)}
						if ft == ftDir {
							n = dirN(n.Name, n.Ino)
						}
						n.I.Mode = 1<<uint(b) | m
						n.I.Nlink = 1
						kids = append(kids, n)
					}
				}
				its := fsItems(kids...)
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				return lsCheck(e, "all permissions", its, p, []string{"/"}, false, false, false, false)
			}}) {
				return
			}
		}
		yield(Case{"fields", func(e *Env) *Violation {
			var kids []*node
			i := uint64(0)
			add := func(f func(n *node)) {
				i++
				n := fileN(fmt.Sprintf("f%04d", i), 1000+i, 0)
				n.I.Ctime, n.I.Mtime = defTime, ts{defTime.Sec + 86400*200, 0}
				f(n)
				kids = append(kids, n)
			}
			for _, x := range []uint64{0, 1, 9, 10, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				x := x
				add(func(n *node) { n.I.UID = uint32(x) })
				add(func(n *node) { n.I.GID = uint32(x) })
				add(func(n *node) { n.I.Nlink = uint32(x) })
				add(func(n *node) { n.I.Size = x })
				add(func(n *node) { n.I.Ctime = ts{int64(x), 999999999} })
			}
			for _, x := range []uint64{1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, max64} {
				x := x
				add(func(n *node) { n.I.Size = x })
			}
			for m := 1; m <= 12; m++ {
				for _, d := range []int{1, 9, 10, 28} {
					m, d := m, d
					add(func(n *node) {
						n.I.Ctime = ts{time.Date(2021, time.Month(m), d, m*2-1, d, 59, 0, time.UTC).Unix(), 0}
					})
				}
			}
			its := fsItems(kids...)
			p := e.Path("ix")
			writeIndex(p, 16384, its)
			return lsCheck(e, "fields at boundaries", its, p, []string{"/"}, false, true, false, false)
		}})
		// Directory graphs: every set of links between three directories.
		for mask := 0; mask < 512; mask++ {
			mask := mask
			if !yield(Case{fmt.Sprintf("graph/%d", mask), func(e *Env) *Violation {
				its := dirGraph(mask)
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				for _, s := range []string{"/", "/d1"} {
					if v := lsCheck(e, "directory graph", its, p, []string{s}, true, false, false, false); v != nil {
						return v
					}
				}
				return nil
			}}) {
				return
			}
		}
		// Links between subvolumes.
		for mask := 0; mask < 512; mask++ {
			mask := mask
			if !yield(Case{fmt.Sprintf("subvol-graph/%d", mask), func(e *Env) *Violation {
				its := subvolGraph(mask)
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				return lsCheck(e, "subvolume graph", its, p, []string{"/"}, true, false, false, false)
			}}) {
				return
			}
		}
		for k := 0; k < 6; k++ {
			k := k
			if !yield(Case{fmt.Sprintf("numbers/%d", k), func(e *Env) *Violation {
				its := fsItems(numberTree(k)...)
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				return lsCheck(e, "similar numbers", its, p, []string{"/"}, true, true, false, false)
			}}) {
				return
			}
		}
		for k := 0; k < packedKinds; k++ {
			k := k
			if !yield(Case{fmt.Sprintf("shared-item/%d", k), func(e *Env) *Violation {
				return eachPacked(k, packedKinds, true, func(what string, its []It) *Violation {
					p := e.Path("ix")
					writeIndex(p, 16384, its)
					return lsCheck(e, what, its, p, []string{"/"}, true, false, false, false)
				})
			}}) {
				return
			}
		}
		// Links to the root directory of the same tree.
		for mask := 0; mask < 512; mask++ {
			mask := mask
			if !yield(Case{fmt.Sprintf("root-graph/%d", mask), func(e *Env) *Violation {
				its := rootGraph(mask)
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				for _, start := range []string{"/", "/v", "/v/l00", "/v/l01/l10"} {
					if v := lsCheck(e, "directory graph with the root", its, p, []string{start}, true, false, false, false); v != nil {
						return v
					}
				}
				return nil
			}}) {
				return
			}
		}
		// Several versions: the newest entry and inode count.
		yield(Case{"versions", func(e *Env) *Violation {
			var its []It
			for g := uint64(1); g <= 5; g++ {
				n := attr(fileN("f", 300, g*100), int(g))
				n.Gen = g
				var sub []It
				emitTree(&sub, oFS, &node{Ft: ftDir, Kids: []*node{n}, Gen: g})
				its = append(its, sub...)
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				if v := lsCheck(e, "versions", its, p, []string{"/", "/f"}, false, true, false, false); v != nil {
					return v
				}
			}
			return nil
		}})
		// Names.
		yield(Case{"names", func(e *Env) *Violation {
			var kids []*node
			for c := 0x21; c < 256; c++ {
				if c == '/' || c == 0x7f || c == 0xff {
					continue
				}
				kids = append(kids, fileN("n"+string([]byte{byte(c)})+"m", uint64(256+c), 0))
			}
			for l := 1; l <= 255; l++ {
				kids = append(kids, dirN(strings.Repeat("L", l), uint64(1000+l)))
			}
			its := fsItems(kids...)
			p := e.Path("ix")
			writeIndex(p, 16384, its)
			return lsCheck(e, "names", its, p, []string{"/"}, true, false, false, true)
		}})
		// Names with bytes that cannot be printed as they are must not break
		// the table; how they are shown is up to ls.
		yield(Case{"odd-names", func(e *Env) *Violation {
			for c := 1; c < 256; c++ {
				if c == '/' || c > 0x20 && c < 0x7f {
					continue
				}
				for _, nm := range []string{"n%sm", "%s", "n%s", "n%sm%sk"} {
					nm = strings.ReplaceAll(nm, "%s", string([]byte{byte(c)}))
					for _, rec := range []bool{false, true} {
						n := attr(fileN(nm, 301, 0), 2)
						if rec {
							n = attr(dirN(nm, 301), 2)
						}
						kids := []*node{attr(fileN("\x21", 300, 0), 1), n, attr(dirN("zz", 302), 3), attr(fileN("y", 303, 0), 4)}
						p := e.Path("ix")
						its := fsItems(kids...)
						writeIndex(p, 16384, its)
						v := view{newModel(its...)}
						res := e.CLI("ls", "--metadata="+p, "--verbose=false", fmt.Sprintf("--recursive=%v", rec), "--inode=false", "/")
						e.r.State(1)
						if res.Exit != 0 || res.crashed() || res.Stderr != "" {
							return viol("name %q: %s", nm, res.brief())
						}
						e.r.Outcome(res.Stdout)
						want := lsDir(v, oFS, 256)
						ls := strings.Split(strings.TrimSuffix(res.Stdout, "\n"), "\n")
						n2 := len(want)
						if rec {
							n2 += 2 // headers
						}
						if len(ls) != n2 {
							return viol("name %q: %d lines, expected %d: %q", nm, len(ls), n2, res.Stdout)
						}
						for i, w := range want {
							g := parseRow(ls[i], false)
							if w.Name == nm {
								w.Name = ""
								if j := strings.LastIndexByte(g, '|'); j >= 0 && strings.Count(g, "|") == 6 {
									g = g[:j+1]
								}
							}
							if g != w.line(false) {
								return viol("name %q: line %q, expected %q", nm, g, w.line(false))
							}
						}
					}
				}
			}
			return nil
		}})
		yield(Case{"deep", func(e *Env) *Violation {
			n := dirN("end", 5000)
			for i := 0; i < 300; i++ {
				n = dirN(strconv.Itoa(i), uint64(1000+i), n)
			}
			its := fsItems(n)
			p := e.Path("ix")
			writeIndex(p, 16384, its)
			return lsCheck(e, "300 levels", its, p, []string{"/"}, true, false, false, false)
		}})
	})
}

// dirGraph makes three directories that contain entries for each other as
// given by mask.
func dirGraph(mask int) []It {
	dirs := []*node{dirN("d0", 300), dirN("d1", 301), dirN("d2", 302)}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if mask>>uint(i*3+j)&1 == 1 {
				dirs[i].Kids = append(dirs[i].Kids, &node{Name: fmt.Sprintf("l%d%d", i, j), Ft: ftDir, Ino: uint64(300 + j), NoInode: true})
			}
		}
		dirs[i].Kids = append(dirs[i].Kids, fileN(fmt.Sprint("f", i), uint64(310+i), 0))
	}
	// Emit the three directories and then hang their links in.
	return graphItems(dirs, nil)
}

// graphItems emits a root directory holding the given directories; links
// (entries with NoInode and the number of another directory) carry no items
// of their own.
func graphItems(dirs []*node, extra []*node) []It {
	var out []It
	emitTree(&out, oFS, &node{Ft: ftDir, Kids: append(append([]*node{}, dirs...), extra...)})
	return out
}

// rootGraph makes the root directory and two directories, in the file system
// tree and in subvolume 260, that contain entries for each other as given by
// mask.
func rootGraph(mask int) []It {
	var its []It
	inos := []uint64{256, 300, 301}
	for _, o := range []uint64{oFS, 260} {
		for i, ino := range inos {
			var ds []dirent
			for j, to := range inos {
				if mask>>uint(i*3+j)&1 == 1 {
					ds = append(ds, dirent{Loc: K{to, tInode, 0}, Type: ftDir, Name: fmt.Sprintf("l%d%d", i, j), Transid: 1})
				}
			}
			name := fmt.Sprintf("f%d-%d", i, o)
			ds = append(ds, dirent{Loc: K{310 + uint64(i), tInode, 0}, Type: ftReg, Name: name, Transid: 1})
			if o == oFS && i == 0 {
				ds = append(ds, dirent{Loc: K{260, tRoot, max64}, Type: ftDir, Name: "v", Transid: 1})
			}
			its = append(its, It{o, K{ino, tInode, 0}, 1, encInode(inodeT{Nlink: 1, Mode: 040755, UID: uint32(i)})},
				It{o, K{310 + uint64(i), tInode, 0}, 1, encInode(inodeT{Nlink: 1, Mode: 0100644, Size: o})})
			for _, d := range ds {
				its = append(its, It{o, K{ino, tDirItem, uint64(nameHash(d.Name))}, 1, encDirents(d)})
			}
		}
	}
	return append(its, It{oRoot, K{260, tRoot, 1}, 1, make([]byte, 239)})
}

// subvolGraph makes three subvolumes 260..262 that contain entries for each
// other as given by mask.
func subvolGraph(mask int) []It {
	var its []It
	var roots []*node
	for i := 0; i < 3; i++ {
		roots = append(roots, &node{Name: fmt.Sprint("s", i), Ft: ftDir, Kids: []*node{fileN(fmt.Sprint("f", i), 257, uint64(i))}})
	}
	for i := 0; i < 3; i++ {
		var ent []dirent
		for j := 0; j < 3; j++ {
			if mask>>uint(i*3+j)&1 == 1 {
				ent = append(ent, dirent{Loc: K{uint64(260 + j), tRoot, max64}, Type: ftDir, Name: fmt.Sprintf("l%d%d", i, j), Transid: 1})
			}
		}
		emitTree(&its, uint64(260+i), roots[i])
		for _, d := range ent {
			its = append(its, It{uint64(260 + i), K{256, tDirItem, uint64(nameHash(d.Name))}, 10, encDirents(d)})
		}
	}
	var top []dirent
	for i := 0; i < 2; i++ {
		top = append(top, dirent{Loc: K{uint64(260 + i), tRoot, max64}, Type: ftDir, Name: fmt.Sprint("s", i), Transid: 1})
	}
	emitTree(&its, oFS, &node{Ft: ftDir})
	for _, d := range top {
		its = append(its, It{oFS, K{256, tDirItem, uint64(nameHash(d.Name))}, 10, encDirents(d)})
	}
	return its
}
