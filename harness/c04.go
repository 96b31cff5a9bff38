package main

import (
	"fmt"
	"strings"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

// C04: path lookup.
func init() {
	register(&Prop{ID: "C04", Level: "model_checking",
		Rule: "all directory trees over 4 names (two with the same hash) x 10 entry kinds (absent, file, file and link whose number also has entries, empty and filled " +
			"directories and subvolumes, subvolumes below directories), nested to depth 3, looked up from the root of every tree; every chain of 6 directories and subvolumes; every path of length <= 3 over all names plus unknown and near-miss ones; " +
			"misplaced entries (hash key of another name); 3-way collisions; names of every length 1..255; several versions of entries; " +
			"non-trivial: distinct (path, result) pairs",
		Assumptions: []string{"a subvolume entry has type directory, as btrfs writes it", "the metadata file is opened read-only, i.e. the newest version of every entry counts"},
		Run:         runC04})
}

// refWalk resolves a path on the model's items.
func refWalk(v view, owner uint64, path string) *dirent {
	dir := uint64(256)
	comps := strings.Split(strings.Trim(path, "/"), "/")
	var cur *dirent
	for i, c := range comps {
		if i > 0 {
			if cur.Type != ftDir {
				return nil
			}
			if cur.Loc.Type == tRoot {
				owner, dir = cur.Loc.Obj, 256
			} else {
				dir = cur.Loc.Obj
			}
		}
		cur = nil
		for _, d := range v.dirents(owner, dir) {
			if d.Name == c {
				d := d
				cur = &d
				break
			}
		}
		if cur == nil {
			return nil
		}
	}
	return cur
}

func checkPaths(e *Env, its []It, paths []string, what string) *Violation {
	p := e.Path("ix")
	writeIndex(p, 16384, its)
	m := newModel(its...)
	v := view{m}
	ix := openRO(p, max64)
	defer ix.Close()
	e.r.State(1)
	e.r.Trace(1)
	owners := []uint64{oFS}
	for _, it := range its {
		if it.K == (K{256, tInode, 0}) && it.Owner != oFS && len(owners) < 4 && it.Owner != owners[len(owners)-1] {
			owners = append(owners, it.Owner)
		}
	}
	for n := 0; n < len(paths)*len(owners); n++ {
		path, o := paths[n/len(owners)], owners[n%len(owners)]
		what := what
		if o != oFS {
			what = fmt.Sprintf("%s, from subvolume %d", what, o)
		}
		e.r.Trans(1)
		want := refWalk(v, o, path)
		var got btrfs.DirItem = ix.FindDirItemForPath(o, path)
		if want == nil {
			if got != nil {
				return viol("%s: path %q does not exist, but lookup returns the entry %q -> %v", what, path, got.Name(), got.Location())
			}
			continue
		}
		if got == nil {
			return viol("%s: path %q is not found, it is entry %q -> %v", what, path, want.Name, want.Loc)
		}
		if got.Name() != want.Name || got.Location() != ixKey(want.Loc) || got.Type() != want.Type || got.TransID() != want.Transid {
			return viol("%s: path %q gives the entry %q -> %v type %d, expected %q -> %v type %d", what, path,
				got.Name(), got.Location(), got.Type(), want.Name, want.Loc, want.Type)
		}
		e.r.Outcome(fmt.Sprint(path, want.Loc, want.Type))
	}
	return nil
}

func allPaths(names []string, depth int) []string {
	var out []string
	var rec func(p string, d int)
	rec = func(p string, d int) {
		if d > 0 {
			out = append(out, p)
		}
		if d == depth {
			return
		}
		for _, n := range names {
			rec(p+"/"+n, d+1)
		}
	}
	rec("", 0)
	return out
}

func runC04(r *Runner) {
	// cx and cy have the same hash, cz too.
	cx := "hashname"
	cy := collideName(nameHash(cx), "k")
	cz := collideName(nameHash(cx), "q")
	names := []string{"a", "B", cx, cy}
	probes := append([]string{}, names...)
	probes = append(probes, "b", "a.", cz)
	// entry makes the entry of a kind; numbers repeat across trees on purpose.
	entry := func(name string, i, kind int) *node {
		ino := uint64(257 + i)
		switch kind {
		case 1:
			return fileN(name, ino, 0)
		case 2: // regular file whose number has directory entries, too
			n := fileN(name, ino, 0)
			n.Kids = []*node{fileN("a", 300, 0)}
			return n
		case 3:
			return dirN(name, ino)
		case 4:
			return dirN(name, ino, fileN("a", ino+10, 0), dirN(cy, ino+20, fileN("a", 258, 0), fileN(cx, 259, 0)))
		case 5:
			return dirN(name, ino, dirN(cx, ino+10, linkN("B", ino+30, "/x")), fileN(cy, ino+20, 0))
		case 6:
			return subvolN(name, uint64(260+i), fileN("a", 257, 0), dirN("B", 258, fileN(cx, 259, 0)), fileN(cx, 260, 0))
		case 7:
			return subvolN(name, uint64(260+i), subvolN("a", uint64(280+i), dirN("a", 257), fileN("B", 258, 0), fileN(cy, 300, 0)))
		case 8:
			return dirN(name, ino, subvolN("a", uint64(290+i), fileN("a", 257, 0), dirN(cx, 300+uint64(i), fileN("B", 301, 0))), dirN(cy, ino+20, fileN("B", 258, 0)))
		case 9: // other entries whose number has directory entries, too
			n := linkN(name, ino, "B")
			if i%2 == 1 {
				n = &node{Name: name, Ft: ftFifo, Ino: ino}
			}
			n.Kids = []*node{fileN("a", 300, 0), fileN(cy, 301, 0)}
			return n
		}
		return nil
	}
	paths := allPaths(probes, 3)
	r.Note("paths", len(paths))
	r.ForEach(func(yield func(Case) bool) {
		kinds := 10
		for a := 0; a < kinds; a++ {
			for b := 0; b < kinds; b++ {
				a, b := a, b
				if !yield(Case{fmt.Sprintf("tree/%d-%d", a, b), func(e *Env) *Violation {
					for c := 0; c < kinds; c++ {
						for d := 0; d < kinds; d++ {
							var kids []*node
							for i, k := range []int{a, b, c, d} {
								if n := entry(names[i], i, k); n != nil {
									kids = append(kids, n)
								}
							}
							if v := checkPaths(e, fsItems(kids...), paths, fmt.Sprintf("tree %d%d%d%d", a, b, c, d)); v != nil {
								return v
							}
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
		// Chains of directories and subvolumes, with numbers used again in every tree.
		for mask := 0; mask < 64; mask++ {
			mask := mask
			if !yield(Case{fmt.Sprintf("chain/%d", mask), func(e *Env) *Violation {
				var kid *node
				var ps []string
				path := ""
				for l := 5; l >= 0; l-- {
					kids := []*node{fileN(fmt.Sprint("f", l), uint64(270+l), 0), fileN("f", uint64(280+l), 0)}
					if kid != nil {
						kids = append(kids, kid)
					}
					if mask>>uint(l)&1 == 0 {
						kid = dirN("d", uint64(257+l%3), kids...)
						if l >= 3 {
							kid.Ino += 100
						}
					} else {
						kid = subvolN("d", uint64(257+l), kids...)
					}
				}
				for l := 0; l <= 6; l++ {
					for _, n := range []string{"f", "f0", "f1", "f2", "f3", "f4", "f5", "d"} {
						ps = append(ps, path+"/"+n)
					}
					path += "/d"
				}
				return checkPaths(e, fsItems(kid), ps, fmt.Sprintf("chain %06b", mask))
			}}) {
				return
			}
		}
		// Collisions of three names, every order in the item and every subset.
		for mask := 1; mask < 8; mask++ {
			for pi, p := range permutations(3) {
				mask, p := mask, p
				if !yield(Case{fmt.Sprintf("collide/%d/%d", mask, pi), func(e *Env) *Violation {
					var kids []*node
					for j, n := range p {
						if mask>>uint(n)&1 == 0 {
							continue
						}
						nm := []string{cx, cy, cz}[n]
						switch j {
						case 0:
							kids = append(kids, fileN(nm, uint64(300+n), 0))
						case 1:
							kids = append(kids, dirN(nm, uint64(300+n), fileN(cy, 400, 0), fileN(cz, 401, 0)))
						default:
							kids = append(kids, subvolN(nm, 270, dirN(cz, 257, fileN(cx, 258, 0)), fileN(cx, 259, 0)))
						}
					}
					return checkPaths(e, fsItems(kids...), paths, "colliding names")
				}}) {
					return
				}
			}
		}
		// Entries stored under a hash that is not that of their name.
		for i := 0; i < 4; i++ {
			for j := 0; j < 5; j++ {
				i, j := i, j
				if !yield(Case{fmt.Sprintf("misplaced/%d/%d", i, j), func(e *Env) *Violation {
					its := fsItems(fileN("a", 257, 0), dirN("B", 258, fileN("a", 261, 0)), fileN(cx, 259, 0), dirN(cy, 260, fileN("B", 262, 0)))
					var out []It
					for _, it := range its {
						if it.K.Type == tDirItem && it.K.Obj == 256 && it.K.Off == uint64(nameHash(names[i])) {
							switch j {
							case 0:
								it.K.Off++
							case 1:
								it.K.Off = 0
							case 2:
								it.K.Off = 1<<32 - 1
							case 3:
								it.K.Off = uint64(nameHash("b"))
							case 4:
								it.K.Off = uint64(nameHash(names[i])) | 1<<40
							}
						}
						out = append(out, it)
					}
					return checkPaths(e, out, paths, "misplaced entry "+names[i])
				}}) {
					return
				}
			}
		}
		// Several versions of an entry.
		for m := 0; m < 27; m++ {
			m := m
			if !yield(Case{fmt.Sprintf("versions/%d", m), func(e *Env) *Violation {
				var its []It
				x := m
				for g := uint64(1); g <= 3; g++ {
					k := x % 3
					x /= 3
					if k == 0 {
						continue
					}
					var n *node
					if k == 1 {
						n = fileN("a", 300+g, 0)
					} else {
						n = dirN("a", 400+g, fileN("B", 500+g, 0))
					}
					n.Gen = g * 10
					var sub []It
					emitTree(&sub, oFS, &node{Ft: ftDir, Kids: []*node{n}, Gen: g * 10})
					its = append(its, sub...)
				}
				return checkPaths(e, its, paths, "several versions")
			}}) {
				return
			}
		}
		// Names of every length.
		for l0 := 1; l0 <= 255; l0 += 16 {
			l0 := l0
			if !yield(Case{fmt.Sprintf("length/%d", l0), func(e *Env) *Violation {
				for l := l0; l < l0+16 && l <= 255; l++ {
					n := strings.Repeat("x", l-1) + "y"
					its := fsItems(dirN(n, 257, fileN(n, 258, 0)))
					ps := []string{"/" + n, "/" + n + "/" + n, "/" + n + "y", "/" + n[:l-1] + "z", "/" + n + "/" + n + "x"}
					if l > 1 {
						ps = append(ps, "/"+n[:l-1], "/"+n[1:], "/"+n+"/"+n[1:])
					}
					if v := checkPaths(e, its, ps, fmt.Sprintf("name of %d bytes", l)); v != nil {
						return v
					}
				}
				return nil
			}}) {
				return
			}
		}
		// Names of every byte.
		yield(Case{"bytes", func(e *Env) *Violation {
			var kids []*node
			var ps []string
			for c := 1; c < 256; c++ {
				if c == '/' {
					continue
				}
				n := "n" + string([]byte{byte(c)})
				kids = append(kids, fileN(n, uint64(256+c), 0))
				ps = append(ps, "/"+n)
			}
			return checkPaths(e, fsItems(kids...), append(ps, "/n", "/nn\x01"), "names of every byte")
		}})
		// Many entries.
		yield(Case{"many", func(e *Env) *Violation {
			var kids []*node
			var ps []string
			for i := 0; i < 3000; i++ {
				n := fmt.Sprintf("file-%d", i)
				kids = append(kids, fileN(n, uint64(1000+i), 0))
				ps = append(ps, "/"+n, "/d/"+n)
			}
			d := dirN("d", 900, kids[:1500]...)
			return checkPaths(e, fsItems(append(kids, d)...), append(ps, "/file-", "/file-3000", "/d"), "3000 entries")
		}})
	})
}
