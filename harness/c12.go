package main

import (
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"time"
)

// C12: recovery stays inside the destination.
func init() {
	register(&Prop{ID: "C12", Level: "model_checking",
		Rule: "all ordered triples of directory entries over an adversarial alphabet of names (separators, dots, empty, NUL), types and link targets, with and " +
			"without --clobber; all pairs for each of 10 states of the destination (links to directories and files, dangling links, hard links, " +
			"directories holding links, fifo, destination itself a link), repeated runs; names with every byte and every substitute of separators and dots; everything outside the destination is compared",
		Assumptions: []string{"nobody else changes the destination during the run"},
		Run:         runC12})
}

// hostile is one adversarial entry; items are the items of its target.
type hostile struct {
	id  string
	d   dirent
	its []It // of what it refers to
}

// hostileAlphabet returns the entries; out is the absolute path of the
// directory outside the destination.
func hostileAlphabet(out string) []hostile {
	var its []It
	ino := uint64(1000)
	file := func(name string) dirent {
		ino++
		its = append(its, It{oFS, K{ino, tInode, 0}, 10, encInode(inodeT{Size: 9, Nlink: 1, Mode: 0100644})},
			It{oFS, K{ino, tExtent, 0}, 10, encInline(10, []byte("recovered"))})
		return dirent{Loc: K{ino, tInode, 0}, Type: ftReg, Name: name}
	}
	empty := func(name string) dirent {
		ino++
		its = append(its, It{oFS, K{ino, tInode, 0}, 10, encInode(inodeT{Nlink: 1, Mode: 0100644})})
		return dirent{Loc: K{ino, tInode, 0}, Type: ftReg, Name: name}
	}
	large := func(name string) dirent { // holes only
		ino++
		its = append(its, It{oFS, K{ino, tInode, 0}, 10, encInode(inodeT{Size: 20000, Nlink: 1, Mode: 0100644})})
		return dirent{Loc: K{ino, tInode, 0}, Type: ftReg, Name: name}
	}
	link := func(name, target string) dirent {
		ino++
		its = append(its, It{oFS, K{ino, tInode, 0}, 10, encInode(inodeT{Size: uint64(len(target)), Nlink: 1, Mode: 0120777})},
			It{oFS, K{ino, tExtent, 0}, 10, encInline(10, []byte(target))})
		return dirent{Loc: K{ino, tInode, 0}, Type: ftLnk, Name: name}
	}
	dir := func(name string, kids ...dirent) dirent {
		ino++
		me := ino
		its = append(its, It{oFS, K{me, tInode, 0}, 10, encInode(inodeT{Nlink: 1, Mode: 040755})})
		for i, k := range kids {
			its = append(its, It{oFS, K{me, tDirItem, uint64(i + 1)}, 10, encDirents(k)})
		}
		return dirent{Loc: K{me, tInode, 0}, Type: ftDir, Name: name}
	}
	nsub := uint64(300)
	subvol := func(name string, names ...string) dirent {
		nsub++
		var kids []*node
		for i, n := range names {
			kids = append(kids, inlineN(n, uint64(300+i), "recovered"))
		}
		emitTree(&its, nsub, &node{Ft: ftDir, Kids: kids})
		return dirent{Loc: K{nsub, tRoot, max64}, Type: ftDir, Name: name}
	}
	var hs []hostile
	add := func(id string, d dirent) {
		hs = append(hs, hostile{id, d, its})
		its = nil
	}
	add("file a", file("a"))
	add("dir a", dir("a", file("f"), file("file"), link("l", "x")))
	add("dir a{empty}", dir("a", empty("file"), large("f"), empty("dir")))
	add("dir a{dir f}", dir("a", dir("dir", file("new")), dir("f", file("x"))))
	for _, t := range []string{out, "../outside", out + "/file", out + "/new", "../outside/dangling", "..", "b", ".", "/"} {
		add("link a->"+t, link("a", t))
	}
	add("link b->a", link("b", "a"))
	add("link b->a/file", link("b", "a/file"))
	add("file b", file("b"))
	add("dir b", dir("b", file("file"), file("new")))
	add("empty a", empty("a"))
	add("large a", large("a"))
	add("empty b", empty("b"))
	add("subvol a", subvol("a", "f", "file", "new"))
	for _, n := range []string{"..", ".", "", "../outside", "../outside/file", "../outside/new", "a/file", "a/new", "/", out + "/file", "a/../../outside/file",
		"../new", "a\x00b", "..\x00", ".\x00", "\x00..", "..\x00/", "../", "b/../../outside", "..\\outside\\new", "..\\outside", "%2e%2e", "$HOME", "~"} {
		add("file "+n, file(n))
		add("dir "+n, dir(n, file("file"), file("new"), link("l", "x")))
		add("link "+n, link(n, "x"))
	}
	add("dir b{link, dir}", dir("b", link("a", "../../outside"), dir("a", file("file"), file("new"))))
	add("dir b{link, file}", dir("b", link("a", "../../outside/file"), file("a")))
	add("dir b{dangling, file}", dir("b", link("a", "../../outside/new"), file("a")))
	add("subvol ..", subvol("..", "file", "new"))
	return hs
}

// coreC12 is how many entries the quick check combines in triples.
const coreC12 = 22

var preC12 = []string{"none", "a=link-dir", "a=link-file", "a=dangling", "a=hardlink", "a=dir{file=link}", "a=dir{file=hardlink}", "a=fifo", "dest=link", "b=link-dir", "subvol=link"}

func setupC12(e *Env, pre string) (base, dest string) {
	base = e.Path("b")
	os.MkdirAll(base, 0777)
	os.Chmod(base, 0777) // the run may write here
	out := filepath.Join(base, "outside")
	dest = filepath.Join(base, "dest")
	os.RemoveAll(dest)
	os.RemoveAll(filepath.Join(base, "real"))
	if _, err := os.Stat(out); err != nil {
		os.MkdirAll(filepath.Join(out, "dir"), 0777)
		os.WriteFile(filepath.Join(out, "file"), []byte("precious data"), 0666)
		os.WriteFile(filepath.Join(out, "f"), []byte("more precious data"), 0666)
		os.WriteFile(filepath.Join(out, "dir", "x"), []byte("deep"), 0666)
		t := time.Unix(1500000000, 0)
		for _, p := range []string{"file", "f", "dir/x", "dir", "."} {
			q := filepath.Join(out, p)
			fi, _ := os.Stat(q)
			if fi.IsDir() {
				os.Chmod(q, 0777)
			} else {
				os.Chmod(q, 0666)
			}
			os.Chown(q, nobody, nobody)
			os.Chtimes(q, t, t)
		}
	}
	os.Mkdir(dest, 0777)
	os.Chown(dest, nobody, nobody)
	a := filepath.Join(dest, "a")
	switch pre {
	case "a=link-dir":
		os.Symlink(out, a)
	case "a=link-file":
		os.Symlink(out+"/file", a)
	case "a=dangling":
		os.Symlink(out+"/new", a)
	case "a=hardlink":
		os.Link(out+"/file", a)
	case "a=dir{file=link}":
		os.Mkdir(a, 0777)
		os.Symlink(out+"/file", a+"/file")
		os.Symlink(out+"/new", a+"/f")
		os.Symlink(out, a+"/dir")
	case "a=dir{file=hardlink}":
		os.Mkdir(a, 0777)
		os.Link(out+"/file", a+"/file")
		os.Link(out+"/f", a+"/f")
	case "a=fifo":
		syscall.Mkfifo(a, 0666)
	case "b=link-dir":
		os.Symlink("../outside", filepath.Join(dest, "b"))
	case "subvol=link":
		os.Symlink(out, filepath.Join(dest, "subvol_301"))
		os.Symlink(out, filepath.Join(dest, "subvol_302"))
	case "dest=link":
		os.Rename(dest, filepath.Join(base, "real"))
		os.Symlink("real", dest)
	}
	filepath.Walk(dest, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode()&os.ModeSymlink == 0 {
			if fi.IsDir() {
				os.Chmod(p, 0777)
			}
			if fi.Mode()&os.ModeNamedPipe != 0 {
				os.Chmod(p, 0666)
			}
		} else {
			os.Lchown(p, nobody, nobody)
		}
		return nil
	})
	return
}

// wipeC12 restores the outside after a violation.
func wipeC12(e *Env) { e.rmDest("b") }

func runC12(r *Runner) {
	proto := hostileAlphabet("/x")
	n := len(proto)
	run := func(e *Env, pre string, clobber bool, runs int, idx ...int) *Violation {
		base, dest := setupC12(e, pre)
		hs := hostileAlphabet(filepath.Join(base, "outside"))
		ids := ""
		var used []It
		for i, x := range idx {
			used = append(used, hs[x].its...)
			used = append(used, It{oFS, K{256, tDirItem, uint64(i + 1)}, 10, encDirents(hs[x].d)})
			ids += fmt.Sprintf("[%s]", hs[x].id)
		}
		used = append(used, It{oFS, K{256, tInode, 0}, 10, encInode(inodeT{Nlink: 1, Mode: 040755})})
		meta := e.Path("ix")
		writeIndex(meta, 16384, used)
		os.WriteFile(e.Path("img0"), pat(0, 8192), 0644)
		before := fingerprint(e.Dir, "b/dest", "b/real", ".stdout", ".stderr")
		for i := 0; i < runs; i++ {
			e.r.State(1)
			res := e.runRecover(meta, dest, clobber)
			e.r.Trace(1)
			desc := fmt.Sprintf("entries %s, destination %s, clobber=%v, run %d", ids, pre, clobber, i+1)
			if res.Hung != "" {
				wipeC12(e)
				v := viol("%s: %s", desc, res.brief())
				v.Hung = true
				return v
			}
			if res.crashed() {
				return viol("%s: %s", desc, res.brief())
			}
			after := fingerprint(e.Dir, "b/dest", "b/real", ".stdout", ".stderr")
			e.r.Trans(len(after))
			if d := diffPrints(before, after); d != "" {
				wipeC12(e)
				return viol("%s: outside of the destination %s", desc, d)
			}
			if fi, err := os.Lstat(dest); err != nil || pre == "dest=link" && fi.Mode()&os.ModeSymlink == 0 {
				return viol("%s: the destination itself was replaced", desc)
			}
		}
		return nil
	}
	r.ForEach(func(yield func(Case) bool) {
		for a := 0; a < n; a++ {
			for cl := 0; cl < 2; cl++ {
				a, cl := a, cl
				if !yield(Case{fmt.Sprintf("triples/%d/clobber%d", a, cl), func(e *Env) *Violation {
					defer wipeC12(e)
					setupC12(e, "none")
					// All entries for "a" and "b" that interact: triples over
					// the first ones, pairs with everything else.
					for b := 0; b < n; b++ {
						if v := run(e, "none", cl == 1, 1, a, b); v != nil {
							return v
						}
						if r.Quick() && (a >= coreC12 || b >= coreC12) {
							continue
						}
						for c := 0; c < n; c++ {
							if c >= coreC12 && r.Quick() {
								break
							}
							if v := run(e, "none", cl == 1, 1, a, b, c); v != nil {
								return v
							}
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
		for pi := range preC12[1:] {
			for cl := 0; cl < 2; cl++ {
				pre, cl := preC12[pi+1], cl
				if !yield(Case{fmt.Sprintf("pre/%s/clobber%d", pre, cl), func(e *Env) *Violation {
					defer wipeC12(e)
					for a := 0; a < n; a++ {
						for b := -1; b < n; b++ {
							if b < 0 {
								if v := run(e, pre, cl == 1, 2, a); v != nil {
									return v
								}
								continue
							}
							if r.Quick() && (a >= coreC12 || b >= coreC12) {
								continue
							}
							if v := run(e, pre, cl == 1, 1+(a+b)%2, a, b); v != nil {
								return v
							}
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
		// Names that may be taken for other ones: with every byte, and with
		// what other encodings use for separators and dots.
		seps := []string{"\xc0\xaf", "\xe0\x80\xaf", "\u2215", "\u2044", "\uff0f", "%2f", "%5c", "\\x2f", "\\057", "&#47;", "\xff\x2e", "\u202e", " /", "\n/", "\u0000/"}
		for c := 0; c < 256; c++ {
			seps = append(seps, string([]byte{byte(c)}))
		}
		for cl := 0; cl < 2; cl++ {
			for part := 0; part < 16; part++ {
				cl, part := cl, part
				if !yield(Case{fmt.Sprintf("bytes/%d/clobber%d", part, cl), func(e *Env) *Violation {
					defer wipeC12(e)
					for i, c := range seps {
						if i%16 != part {
							continue
						}
						for _, dots := range []string{"..", "\uff0e\uff0e", "\u2025", "%2e%2e", "\xc0\xae\xc0\xae"} {
							if dots != ".." && r.Quick() && len(c) == 1 && c != "/" && c != "\\" && c != "\x00" {
								continue
							}
							names := []string{c, dots + c, c + dots, dots[:len(dots)/2] + c + dots[len(dots)/2:], dots + c + "new", dots + c + "outside" + c + "new",
								dots + c + "outside" + c + "file", c + dots + c + "new", "a" + c + dots + c + dots + c + "new", c + c, dots + c + c + "new", dots + dots + c + "new", c + "tmp"}
							for t := 0; t < 3; t++ {
								_, dest := setupC12(e, "none")
								var ns []*node
								for k, n := range names {
									switch ino := uint64(300 + 10*k); t {
									case 0:
										ns = append(ns, inlineN(n, ino, "recovered"))
									case 1:
										ns = append(ns, dirN(n, ino, inlineN("file", ino+1, "recovered"), inlineN(dots+c+"new", ino+2, "recovered"), linkN("l", ino+3, "x")))
									default:
										ns = append(ns, linkN(n, ino, "../outside"), inlineN(n+c+"new", ino+1, "recovered"))
									}
								}
								for k, n := range ns[:len(names)] {
									ns = append(ns, subvolN(fmt.Sprint("v", k), uint64(400+k), n))
								}
								meta := e.Path("ix")
								writeIndex(meta, 16384, fsItems(ns...))
								before := fingerprint(e.Dir, "b/dest", ".stdout", ".stderr")
								e.r.State(1)
								res := e.runRecover(meta, dest, cl == 1)
								e.r.Trace(1)
								desc := fmt.Sprintf("names such as %q, kind %d, clobber=%v", dots+c+"new", t, cl == 1)
								if res.crashed() {
									v := viol("%s: %s", desc, res.brief())
									v.Hung = res.Hung != ""
									return v
								}
								after := fingerprint(e.Dir, "b/dest", ".stdout", ".stderr")
								e.r.Trans(len(after))
								if d := diffPrints(before, after); d != "" {
									return viol("%s: outside of the destination %s", desc, d)
								}
							}
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
		// The same scenarios when two runs of different images use one
		// destination: links of the first, files of the second.
		yield(Case{"two-images", func(e *Env) *Violation {
			defer wipeC12(e)
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					if r.Quick() && (a >= coreC12+4 || b >= coreC12+4) {
						continue
					}
					for cl := 0; cl < 2; cl++ {
						base, dest := setupC12(e, "none")
						hs := hostileAlphabet(filepath.Join(base, "outside"))
						var before map[string]string
						for i, x := range []int{a, b} {
							used := append(append([]It{}, hs[x].its...), It{oFS, K{256, tDirItem, 1}, 10, encDirents(hs[x].d)})
							meta := e.Path("ix")
							writeIndex(meta, 16384, used)
							e.r.State(1)
							before = fingerprint(e.Dir, "b/dest", ".stdout", ".stderr")
							res := e.runRecover(meta, dest, cl == 1)
							e.r.Trace(1)
							if res.crashed() {
								return viol("two images [%s] then [%s]: %s", hs[a].id, hs[b].id, res.brief())
							}
							after := fingerprint(e.Dir, "b/dest", ".stdout", ".stderr")
							if d := diffPrints(before, after); d != "" {
								wipeC12(e)
								return viol("two images [%s] then [%s], clobber=%v, run %d: outside of the destination %s", hs[a].id, hs[b].id, cl == 1, i+1, d)
							}
						}
					}
				}
			}
			return nil
		}})
	})
}

// runRecover runs recover with an image that is not needed.
func (e *Env) runRecover(meta, dest string, clobber bool) Res {
	img := e.Path("img0")
	if _, err := os.Stat(img); err != nil {
		os.WriteFile(img, pat(0, 8192), 0644)
	}
	return recoverCLI(e, false, img, meta, dest, clobber)
}
