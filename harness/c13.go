package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// C13: existing entries of the destination.
func init() {
	register(&Prop{ID: "C13", Level: "model_checking",
		Rule: "all pairs of (recovered kind, existing kind) for two entries in the same and in nested directories: 6 recovered x 15 existing kinds, with and without " +
			"--clobber, one to three runs, alternating options, subvolumes and unreferenced subvolumes; the whole destination is compared with a reference; " +
			"non-trivial: distinct destinations",
		Assumptions: []string{"the destination is writable"},
		Run:         runC13})
}

const bigC13 = 20000

// recKinds are the kinds of recovered entries.
func recC13(name string, ino uint64, k int) *node {
	switch k {
	case 0:
		return inlineN(name, ino, "new content")
	case 1:
		return fileN(name, ino, bigC13, ext{Disk: mib, Num: 20480})
	case 2:
		return fileN(name, ino, 0)
	case 3:
		t := "new/target"
		if ino < 400 {
			t = "t" // may be as short as that
		}
		return linkN(name, ino, t)
	case 4:
		return dirN(name, ino, inlineN("f", ino+1, "new f"), linkN("l", ino+2, "new l"), dirN("d", ino+3, inlineN("f", ino+4, "deep")))
	case 5:
		return subvolN(name, ino, inlineN("f", 300, "new f"), linkN("l", 302, "new l"), dirN("d", 303, inlineN("f", 304, "deep")))
	}
	return nil
}

// preC13 creates an existing entry at path p.
func preC13(p string, k int) bool {
	w := func(p string, n int, c byte) {
		os.WriteFile(p, []byte(strings.Repeat(string([]byte{c}), n)), 0644)
	}
	switch k {
	case 0:
		return false
	case 1:
		w(p, 5, 'o')
	case 2:
		w(p, 11, 'o')
	case 3:
		w(p, 30000, 'o')
	case 4:
		w(p, 0, 'o')
	case 5:
		os.Symlink("existing-file", p)
		w(filepath.Join(filepath.Dir(p), "existing-file"), 7, 'e')
	case 6:
		os.Symlink("nowhere", p)
	case 7:
		os.Symlink("existing-dir", p)
		os.Mkdir(filepath.Join(filepath.Dir(p), "existing-dir"), 0755)
	case 8:
		os.Mkdir(p, 0755)
	case 9:
		os.Mkdir(p, 0755)
		w(filepath.Join(p, "other"), 9, 'x')
		w(filepath.Join(p, "f"), 9000, 'y')
	case 10:
		os.Mkdir(p, 0755)
		os.Symlink("f", filepath.Join(p, "l"))
		os.Mkdir(filepath.Join(p, "d"), 0755)
		os.Symlink("zzz", filepath.Join(p, "d", "f"))
	case 11:
		os.Mkdir(p, 0755)
		os.Mkdir(filepath.Join(p, "f"), 0755)
		w(filepath.Join(p, "d"), 3, 'z')
		os.Mkdir(filepath.Join(p, "l"), 0755)
		w(filepath.Join(p, "l", "keep"), 3, 'z')
	case 12:
		syscall.Mkfifo(p, 0644)
	case 13: // symlink with the recovered target
		if filepath.Base(p) == "a" {
			os.Symlink("t", p)
		} else {
			os.Symlink("new/target", p)
		}
	case 14: // file with the recovered content
		os.WriteFile(p, []byte("new content"), 0644)
	}
	return true
}

const nPreC13 = 15

func chownAll(dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, nobody, nobody)
		}
		return nil
	})
}

func runC13(r *Runner) {
	run := func(e *Env, im *Image, what string, its []It, setup func(dest string), opts []bool) *Violation {
		meta := e.Path("ix")
		writeIndex(meta, 16384, its)
		dest := e.rmDest("dest")
		os.Mkdir(dest, 0755)
		setup(dest)
		chownAll(dest)
		for i, cl := range opts {
			pre := readTree(dest)
			e.r.State(1)
			e.Seq++
			res := recoverCLI(e, e.Seq%211 == 0, im.Path, meta, dest, cl)
			e.r.Trace(1)
			desc := fmt.Sprintf("%s, run %d of %v", what, i+1, opts)
			if res.crashed() || res.Exit != 0 {
				v := viol("%s: %s", desc, res.brief())
				v.Hung = res.Hung != ""
				return v
			}
			w := refRecover(its, im.Read, pre, cl)
			got := readTree(dest)
			e.r.Trans(len(got))
			if d := w.diff(got); d != "" {
				return viol("%s: %s; stderr %q", desc, d, short(res.Stderr, 300))
			}
			if i > 0 && opts[i] == opts[i-1] || i > 0 && !cl {
				if d := diffTree(pre, got); d != "" {
					return viol("%s: repeating the recovery changed the destination: %s", desc, d)
				}
			}
			e.r.Outcome(treeString(got))
		}
		return nil
	}
	optss := [][]bool{{false, false}, {true, true}, {false, true}, {true, false, true}}
	base := []It{chunkItem(0, 6*mib, 1, 0)}
	r.ForEach(func(yield func(Case) bool) {
		for rk := 0; rk < 6; rk++ {
			for pk := 0; pk < nPreC13; pk++ {
				rk, pk := rk, pk
				if !yield(Case{fmt.Sprintf("pair/%d/%d", rk, pk), func(e *Env) *Violation {
					im := rcvImage(e)
					defer im.Close()
					for rk2 := 0; rk2 < 6; rk2++ {
						for pk2 := 0; pk2 < nPreC13; pk2++ {
							for oi, opts := range optss {
								if r.Quick() && oi >= 2 && (rk2+pk2)%3 != 0 {
									continue
								}
								// Side by side.
								its := append(append([]It{}, base...), fsItems(recC13("a", 300, rk), recC13("b", 400, rk2))...)
								if v := run(e, im, fmt.Sprintf("a: %d over %d, b: %d over %d", rk, pk, rk2, pk2), its, func(d string) {
									preC13(filepath.Join(d, "a"), pk)
									preC13(filepath.Join(d, "b"), pk2)
								}, opts); v != nil {
									return v
								}
								// One below the other, when there is a directory.
								if r.Quick() && oi >= 2 {
									continue
								}
								its = append(append([]It{}, base...), fsItems(dirN("top", 290, recC13("a", 300, rk), dirN("sub", 291, recC13("b", 400, rk2))))...)
								emitTree(&its, 700, &node{Ft: ftDir, Kids: []*node{recC13("b", 800, rk2)}})
								if v := run(e, im, fmt.Sprintf("nested a: %d over %d, b: %d over %d", rk, pk, rk2, pk2), its, func(d string) {
									os.MkdirAll(filepath.Join(d, "top", "sub"), 0755)
									preC13(filepath.Join(d, "top", "a"), pk)
									preC13(filepath.Join(d, "top", "sub", "b"), pk2)
									if pk2%2 == 0 {
										os.Mkdir(filepath.Join(d, "subvol_700"), 0755)
										preC13(filepath.Join(d, "subvol_700", "b"), pk2)
									} else {
										preC13(filepath.Join(d, "subvol_700"), pk2)
									}
								}, opts); v != nil {
									return v
								}
							}
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
	})
}

// treeString identifies a destination.
func treeString(t map[string]fent) string {
	var n uint64
	for k, f := range t {
		n += hash64(k + f.kind() + f.Target + string(f.Data))
	}
	return fmt.Sprint(n, len(t))
}
