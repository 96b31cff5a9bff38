package main

import (
	"fmt"
	"os"
	"path/filepath"
	"syscall"
)

// C14: broken entries do not harm others and are reported.
func init() {
	register(&Prop{ID: "C14", Level: "model_checking",
		Rule: "a tree with files of several extents, inline files, links, directories and subvolumes; every fault of a catalogue of 40 at every entry and extent " +
			"it applies to, all pairs of faults (thorough: all triples of two-extent faults), every truncation of the image in 2 KiB steps, all reads failing, every unreadable 4 KiB and all pairs of them; " +
			"complete comparison of the destination and of the warnings; non-trivial: distinct destinations and warnings",
		Assumptions: []string{"which reads fail is given by addresses; failing system calls are explored in C26"},
		Run:         runC14})
}

type faultC14 struct {
	id string
	// its changes the items; pre the destination before the run.
	its func(its []It) []It
	pre func(dest string)
}

// treeC14 returns the items of the undamaged tree. The extents lie one after
// the other at the end of the image, which is 1 MiB long.
func treeC14() []It {
	at := uint64(13*mib + 512*1024)
	x := func(off, n uint64) ext {
		e := ext{Off: off, Disk: at, Num: n}
		at += n
		return e
	}
	its := []It{
		chunkItem(13*mib, mib, 1, 0),
		chunkItem(20*mib, mib, 1, mib),             // beyond the image
		chunkItem(30*mib, mib, 1, mib-4096),        // straddles its end
		chunkItem(40*mib, mib, 1, 1<<63),           // not an offset
		chunkItem(50*mib, mib, 1, 1<<63-8192),      // becomes negative
		chunkItem(60*mib, mib, 1, max64-4096),      // wraps around
		chunkItem(70*mib, mib, 1, mib-8192),        // exactly at the end
		chunkItem(80*mib, mib, 1, 1<<62),           // far beyond
		chunkItem(90*mib, mib, 1, uint64(1<<63-1)), // largest offset
	}
	its = append(its, fsItems(
		fileN("file-one", 300, 3*8192, x(0, 8192), x(8192, 8192), x(16384, 8192)),
		inlineN("inline-two", 301, "inline data of two"),
		linkN("link-three", 302, "target/of/three"),
		dirN("dir-four", 303, fileN("inner-five", 304, 8192, x(0, 8192)), linkN("inner-six", 305, "six"), dirN("inner-dir", 306, inlineN("bottom", 307, "bottom"))),
		subvolN("vol-seven", 400, fileN("in-eight", 300, 8192, x(0, 8192)), dirN("in-nine", 303, inlineN("in-ten", 304, "ten"))),
		fileN("last-eleven", 308, 10000, x(0, 12288)),
	)...)
	emitTree(&its, 500, &node{Ft: ftDir, Kids: []*node{fileN("orphan-twelve", 300, 8192, x(0, 8192))}})
	return its
}

func faultsC14() []faultC14 {
	var fs []faultC14
	add := func(id string, its func([]It) []It, pre func(string)) {
		fs = append(fs, faultC14{id, its, pre})
	}
	// edit replaces the data of one item.
	edit := func(o uint64, k K, f func(b []byte) []byte) func([]It) []It {
		return func(its []It) []It {
			out := append([]It{}, its...)
			for i := range out {
				if out[i].Owner == o && out[i].K == k {
					out[i].Data = f(append([]byte{}, out[i].Data...))
				}
			}
			return out
		}
	}
	drop := func(o uint64, k K) func([]It) []It {
		return func(its []It) []It {
			var out []It
			for _, it := range its {
				if it.Owner != o || it.K != k {
					out = append(out, it)
				}
			}
			return out
		}
	}
	exts := []struct {
		o   uint64
		k   K
		num uint64
	}{
		{oFS, K{300, tExtent, 0}, 8192}, {oFS, K{300, tExtent, 8192}, 8192}, {oFS, K{300, tExtent, 16384}, 8192},
		{oFS, K{304, tExtent, 0}, 8192}, {400, K{300, tExtent, 0}, 8192}, {oFS, K{308, tExtent, 0}, 12288}, {500, K{300, tExtent, 0}, 8192},
	}
	for _, x := range exts {
		x := x
		set := func(id string, f func(b []byte)) {
			add(fmt.Sprintf("%s %d:%v", id, x.o, x.k), edit(x.o, x.k, func(b []byte) []byte { f(b); return b }), nil)
		}
		disk := func(id string, d uint64) {
			set(id, func(b []byte) { le.PutUint64(b[21:], d) })
		}
		disk("beyond the image", 20*mib)
		disk("straddling the end", 30*mib)
		disk("negative address", 40*mib)
		disk("becomes negative", 50*mib)
		disk("address wraps", 60*mib)
		disk("address after wrapping", 60*mib+8192)
		disk("at the exact end", 70*mib) // 8 KiB are there, 12 KiB are not
		disk("far beyond", 80*mib)
		disk("largest address", 90*mib)
		disk("no chunk above", 1<<50)
		disk("no chunk below", 4096)
		disk("no chunk between", 14*mib+4096)
		disk("largest", max64)
		set("huge offset", func(b []byte) { le.PutUint64(b[37:], 1<<63) })
		set("offset wraps", func(b []byte) { le.PutUint64(b[37:], max64-4095) })
		set("offset to the end", func(b []byte) { le.PutUint64(b[37:], mib-4096) })
		set("compressed", func(b []byte) { b[16] = 1 })
		set("compressed zstd", func(b []byte) { b[16] = 3 })
		set("encrypted", func(b []byte) { b[17] = 1 })
	}
	for _, x := range []struct {
		o uint64
		k K
	}{{oFS, K{301, tExtent, 0}}, {oFS, K{307, tExtent, 0}}, {400, K{304, tExtent, 0}}, {oFS, K{302, tExtent, 0}}, {oFS, K{305, tExtent, 0}}} {
		x := x
		for cut := 1; cut < 4; cut++ {
			cut := cut
			add(fmt.Sprintf("inline data cut %d %d:%v", cut, x.o, x.k), edit(x.o, x.k, func(b []byte) []byte {
				if len(b) >= 21+cut {
					return b[:len(b)-cut]
				}
				return b[:21]
			}), nil)
		}
		add(fmt.Sprintf("compressed inline %d:%v", x.o, x.k), edit(x.o, x.k, func(b []byte) []byte { b[16] = 1; return b }), nil)
	}
	for _, i := range []uint64{302, 305} {
		add(fmt.Sprintf("no link data %d", i), drop(oFS, K{i, tExtent, 0}), nil)
		add(fmt.Sprintf("empty link %d", i), edit(oFS, K{i, tExtent, 0}, func(b []byte) []byte { le.PutUint64(b[8:], 0); return b[:21] }), nil)
		add(fmt.Sprintf("NUL in link %d", i), edit(oFS, K{i, tExtent, 0}, func(b []byte) []byte {
			if len(b) > 22 {
				b[22] = 0
			}
			return b
		}), nil)
		for _, at := range []uint64{13*mib + 8192, 20 * mib, 30*mib + 2048, 30*mib + 4096 - 6, 40 * mib, 50 * mib, 60 * mib, 1 << 50, 4096, max64, 0} {
			at := at
			for _, c := range []uint8{0, 1} {
				c := c
				add(fmt.Sprintf("link %d stored at %d compression %d", i, at, c), edit(oFS, K{i, tExtent, 0}, func(b []byte) []byte {
					return encExtent(extT{Gen: 10, RAM: 4096, Type: 1, Compr: c, Disk: at, DiskLen: 4096, Num: 4096})
				}), nil)
			}
		}
		add(fmt.Sprintf("link too long %d", i), edit(oFS, K{i, tExtent, 0}, func(b []byte) []byte { return encInline(10, pat(0, 5000)) }), nil)
	}
	for _, x := range []struct{ o, i uint64 }{{oFS, 300}, {oFS, 301}, {oFS, 302}, {oFS, 303}, {oFS, 304}, {400, 300}, {oFS, 308}, {500, 300}} {
		x := x
		add(fmt.Sprintf("no inode %d:%d", x.o, x.i), drop(x.o, K{x.i, tInode, 0}), nil)
		add(fmt.Sprintf("no metadata %d:%d", x.o, x.i), func(its []It) []It {
			var out []It
			for _, it := range its {
				if it.Owner != x.o || it.K.Obj != x.i {
					out = append(out, it)
				}
			}
			return out
		}, nil)
		if x.o == oFS && (x.i == 300 || x.i == 304) {
			for _, sz := range []uint64{1 << 63, max64, 1<<63 + 5} {
				sz := sz
				add(fmt.Sprintf("size %d of %d", sz, x.i), edit(x.o, K{x.i, tInode, 0}, func(b []byte) []byte { le.PutUint64(b[16:], sz); return b }), nil)
			}
		}
	}
	// Targets that cannot be created.
	for _, p := range []string{"file-one", "inline-two", "link-three", "dir-four/inner-five", "dir-four/inner-dir/bottom", "vol-seven/in-eight", "last-eleven", "subvol_500/orphan-twelve"} {
		p := p
		add("directory in the way of "+p, nil, func(d string) { os.MkdirAll(filepath.Join(d, p), 0755) })
	}
	for _, p := range []string{"dir-four", "dir-four/inner-dir", "vol-seven", "vol-seven/in-nine", "subvol_500"} {
		p := p
		add("file in the way of "+p, nil, func(d string) {
			os.MkdirAll(filepath.Join(d, filepath.Dir(p)), 0755)
			os.WriteFile(filepath.Join(d, p), []byte("in the way"), 0644)
		})
	}
	// Directory entries.
	entry := func(id string, dir uint64, d dirent) {
		add(id, func(its []It) []It {
			return append(append([]It{}, its...), It{oFS, K{dir, tDirItem, uint64(nameHash(d.Name))}, 10, encDirents(d)})
		}, nil)
	}
	for _, dir := range []uint64{256, 303} {
		entry(fmt.Sprint("loop to itself in ", dir), dir, dirent{Loc: K{dir, tInode, 0}, Type: ftDir, Name: "zz-loop"})
		entry(fmt.Sprint("loop to the root in ", dir), dir, dirent{Loc: K{256, tInode, 0}, Type: ftDir, Name: "zz-root"})
		entry(fmt.Sprint("second link to a directory in ", dir), dir, dirent{Loc: K{306, tInode, 0}, Type: ftDir, Name: "zz-second"})
		entry(fmt.Sprint("second link to a subvolume in ", dir), dir, dirent{Loc: K{400, tRoot, max64}, Type: ftDir, Name: "zz-subvol"})
		for _, n := range []string{"..", ".", "", "a/b", "/", "n\x00n"} {
			entry(fmt.Sprintf("name %q in %d", n, dir), dir, dirent{Loc: K{301, tInode, 0}, Type: ftReg, Name: n})
		}
		for _, t := range []uint8{0, 8, 9, 255} {
			entry(fmt.Sprintf("type %d in %d", t, dir), dir, dirent{Loc: K{301, tInode, 0}, Type: t, Name: "zz-type"})
		}
		entry(fmt.Sprint("link to nothing in ", dir), dir, dirent{Loc: K{9999, tInode, 0}, Type: ftReg, Name: "zz-nothing"})
		entry(fmt.Sprint("symlink to nothing in ", dir), dir, dirent{Loc: K{9999, tInode, 0}, Type: ftLnk, Name: "zz-nolink"})
	}
	return fs
}

func runC14(r *Runner) {
	faults := faultsC14()
	clean := treeC14()
	run := func(e *Env, im *Image, clobber bool, idx ...int) *Violation {
		its := clean
		dest := e.rmDest("dest")
		os.Mkdir(dest, 0755)
		what := ""
		for _, i := range idx {
			f := faults[i]
			what += "[" + f.id + "]"
			if f.its != nil {
				its = f.its(its)
			}
			if f.pre != nil {
				f.pre(dest)
			}
		}
		chownAll(dest)
		return runPreC14(e, what, its, im, dest, clobber)
	}
	mk := func(e *Env, size int64) *Image {
		im := e.NewImage("img", size)
		if size > 0 {
			im.Write(0, pat(0, uint64(size)))
		}
		return im
	}
	r.ForEach(func(yield func(Case) bool) {
		if !yield(Case{"none", func(e *Env) *Violation {
			im := mk(e, mib)
			defer im.Close()
			return run(e, im, false)
		}}) {
			return
		}
		for _, clobber := range []bool{false, true} {
			clobber := clobber
			yield(Case{fmt.Sprint("image-end/", clobber), func(e *Env) *Violation {
				return imageEnd(e, func(what string, its []It, im *Image) *Violation {
					dest := e.rmDest("dest")
					os.Mkdir(dest, 0755)
					chownAll(dest)
					return runPreC14(e, what, its, im, dest, clobber)
				})
			}})
		}
		// Broken and sound entries in one item.
		for k := 0; k < packedKinds; k++ {
			k := k
			if !yield(Case{fmt.Sprintf("shared-item/%d", k), func(e *Env) *Violation {
				im := mk(e, 4096)
				defer im.Close()
				return eachPacked(k, packedKinds, r.Thorough(), func(what string, its []It) *Violation {
					dest := e.rmDest("dest")
					os.Mkdir(dest, 0755)
					chownAll(dest)
					return runPreC14(e, what, its, im, dest, k%2 == 0)
				})
			}}) {
				return
			}
		}
		for a := range faults {
			a := a
			if !yield(Case{fmt.Sprintf("fault/%d", a), func(e *Env) *Violation {
				im := mk(e, mib)
				defer im.Close()
				if v := run(e, im, true, a); v != nil {
					return v
				}
				if v := run(e, im, false, a); v != nil {
					return v
				}
				for b := range faults {
					if b <= a && r.Quick() {
						continue
					}
					if faults[a].its == nil && faults[b].its == nil && faults[a].pre != nil && faults[b].pre != nil && conflictC14(faults[a].id, faults[b].id) {
						continue
					}
					if v := run(e, im, (a+b)%5 != 0, a, b); v != nil {
						return v
					}
				}
				return nil
			}}) {
				return
			}
		}
		// The image ends early: at every 2 KiB.
		for sz := int64(0); sz <= mib; sz += 2048 {
			sz := sz
			if sz > 0 && sz < 480*1024 || r.Quick() && sz > 640*1024 {
				continue
			}
			if !yield(Case{fmt.Sprintf("truncated/%d", sz), func(e *Env) *Violation {
				im := mk(e, sz)
				defer im.Close()
				if v := run(e, im, false); v != nil {
					return v
				}
				im2 := mk(e, sz+1)
				defer im2.Close()
				return run(e, im2, true)
			}}) {
				return
			}
		}
		// Bad sectors: each 4 KiB of the extents, pairs, and runs.
		for lo := uint64(512 * 1024); lo < 608*1024; lo += 4096 {
			lo := lo
			if !yield(Case{fmt.Sprintf("sectors/%d", lo), func(e *Env) *Violation {
				im := mk(e, mib)
				defer im.Close()
				sect := func(o uint64) badRange { return badRange{o, o + 4096} }
				bads := [][]badRange{{sect(lo)}, {{lo + 512, lo + 1024}}, {{lo, lo + 64*1024}}, {{lo, mib}}, {{512 * 1024, lo + 4096}}}
				for p := lo + 4096; p < 608*1024; p += 4096 {
					bads = append(bads, []badRange{sect(lo), sect(p)})
				}
				for i, bad := range bads {
					dest := e.rmDest("dest")
					os.Mkdir(dest, 0755)
					chownAll(dest)
					if v := runPreC14(e, "", clean, im, dest, i%2 == 0, bad...); v != nil {
						return v
					}
				}
				return nil
			}}) {
				return
			}
		}
		// Every read of the image fails.
		for a := -1; a < len(faults); a++ {
			a := a
			if !yield(Case{fmt.Sprintf("unreadable/%d", a), func(e *Env) *Violation {
				d := e.Path("imgdir")
				os.MkdirAll(d, 0755)
				im := &Image{Path: d}
				if a < 0 {
					return run(e, im, false)
				}
				return run(e, im, true, a)
			}}) {
				return
			}
		}
	})
}

// conflictC14 tells whether two obstacles cannot be set up together.
func conflictC14(a, b string) bool {
	f := func(s string) string { return s[len("directory in the way of "):] }
	g := func(s string) string { return s[len("file in the way of "):] }
	p := func(s string) string {
		if s[0] == 'd' {
			return f(s)
		}
		return g(s)
	}
	x, y := p(a)+"/", p(b)+"/"
	return len(x) < len(y) && y[:len(x)] == x || len(y) < len(x) && x[:len(y)] == y || x == y
}

func runPreC14(e *Env, what string, its []It, im *Image, dest string, clobber bool, bad ...badRange) *Violation {
	meta := e.Path("ix")
	writeIndex(meta, 16384, its)
	pre := readTree(dest)
	e.r.State(1)
	e.Seq++
	var res Res
	desc := fmt.Sprintf("%s clobber=%v", what, clobber)
	if len(bad) > 0 {
		res = e.ExecBad(bad, syscall.EIO, "recover", "--metadata="+meta, "--verbose=false", fmt.Sprintf("--clobber=%v", clobber), im.Path, dest)
		desc += fmt.Sprintf(" bad sectors %v", bad)
	} else {
		res = recoverCLI(e, e.Seq%151 == 0, im.Path, meta, dest, clobber)
	}
	e.r.Trace(1)
	if res.crashed() || res.Exit != 0 {
		v := viol("%s: %s", desc, res.brief())
		v.Hung = res.Hung != ""
		return v
	}
	rd := im.Read
	if im.f == nil {
		rd = func(off, n uint64) ([]byte, bool) { return nil, n == 0 }
	}
	if len(bad) > 0 {
		rd = func(off, n uint64) ([]byte, bool) {
			for _, b := range bad {
				if off < uint64(b.hi) && uint64(b.lo) < off+n {
					return nil, false
				}
			}
			return im.Read(off, n)
		}
	}
	w := refRecover(its, rd, pre, clobber)
	got := readTree(dest)
	e.r.Trans(len(got))
	e.r.Outcome(treeString(got) + fmt.Sprint(len(res.Stderr)))
	if d := w.diff(got); d != "" {
		return viol("%s: %s; stderr %q", desc, d, short(res.Stderr, 300))
	}
	if d := w.warnings(res.Stderr, dest); d != "" {
		return viol("%s: %s", desc, d)
	}
	return nil
}
