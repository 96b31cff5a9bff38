package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
)

// C11: content of recovered files, links and directories.
func init() {
	register(&Prop{ID: "C11", Level: "model_checking",
		Rule: "all extent sequences over 7 kinds in 3 (thorough 4) slots x 9 file sizes x 6 chunk layouts (one beyond 4 GiB); all overlaps of two and three extents of different " +
			"generations; lengths around the copy buffer; extents of up to 128 MiB and extents ending beyond 2^63; images ending with the data; sparse files of 1 TiB; links stored in regular extents; all directory shapes with 3 entries of 8 kinds at two levels and unreferenced " +
			"subvolumes; names with every byte; non-trivial: distinct destination trees",
		Assumptions: []string{"extents are not compressed", "single-stripe chunks"},
		Run:         runC11})
}

// layout is a chunk layout together with the extents of logical address
// space a test may use.
type layout struct {
	name   string
	chunks []It
	areas  [][2]uint64 // logical start, length
}

const mib = 1 << 20

// rcvImage makes the image all layouts map into: 6 MiB of pattern.
func rcvImage(e *Env) *Image {
	im := e.NewImage("img", 6*mib)
	im.Write(0, pat(0, 6*mib))
	return im
}

// image is the image that the layout maps into.
func (l layout) image(e *Env) *Image {
	if l.name != "far" {
		return rcvImage(e)
	}
	im := e.NewImage("img", 9<<30+4*mib)
	for _, at := range []uint64{0, 1<<31 - mib, 1<<32 - mib, 9 << 30} {
		im.Write(at, pat(at, 3*mib))
	}
	return im
}

func layouts() []layout {
	two := func(l, length, off uint64, gen uint64) It {
		it := It{oChunk, K{256, tChunk, l}, gen, encChunk(chunkT{Len: length, Owner: 2, StripeLen: 65536, Type: 0x21,
			IOAlign: 4096, IOWidth: 4096, Sector: 4096, Sub: 1,
			Stripes: []stripeT{{Dev: 1, Off: off}, {Dev: 1, Off: off + 2*mib}}})}
		return it
	}
	g := func(l, length, off, gen uint64) It {
		it := chunkItem(l, length, 1, off)
		it.Gen = gen
		return it
	}
	return []layout{
		{"identity", []It{chunkItem(0, 1<<32, 1, 0)}, [][2]uint64{{mib, 4 * mib}}},
		{"one", []It{chunkItem(13*mib, 4*mib, 1, mib)}, [][2]uint64{{13 * mib, 4 * mib}}},
		{"three-reversed", []It{chunkItem(20*mib, mib, 1, 4*mib), chunkItem(21*mib, mib, 1, 2*mib+4096), chunkItem(24*mib, mib, 1, mib)},
			[][2]uint64{{24 * mib, mib}, {20 * mib, mib}, {21 * mib, mib}}},
		{"dup", []It{two(1<<40, 2*mib, 2*mib, 10)}, [][2]uint64{{1 << 40, 2 * mib}}},
		{"versions", []It{g(8*mib, 2*mib, 0, 3), g(8*mib, 2*mib, 3*mib, 9), g(8*mib, 2*mib, mib, 5), g(30*mib, 2*mib, mib, 7)},
			[][2]uint64{{8 * mib, 2 * mib}, {30 * mib, 2 * mib}}},
		// Beyond and across 2 and 4 GiB, on the device and in the chunks.
		{"far", []It{chunkItem(1<<31-mib, 2*mib, 1, 1<<32-mib), chunkItem(1<<32-mib, 2*mib, 1, 9<<30), chunkItem(1<<45, 2*mib, 1, 1<<31-mib)},
			[][2]uint64{{1<<31 - mib, 2 * mib}, {1<<32 - mib, 2 * mib}, {1 << 45, 2 * mib}}},
	}
}

// alloc hands out logical ranges of a layout in a fixed rotation, including
// the very start and the very end of each area.
type alloc struct {
	l layout
	n uint64
}

func (a *alloc) get(n uint64) uint64 {
	i := a.n
	a.n++
	ar := a.l.areas[i%uint64(len(a.l.areas))]
	if n > ar[1] {
		panic("alloc")
	}
	switch i % 5 {
	case 0:
		return ar[0]
	case 1:
		return ar[0] + ar[1] - n
	}
	step := uint64(4096)
	if k := (ar[1] - n) / step; k > 0 {
		return ar[0] + (i*7919)%(k+1)*step
	}
	return ar[0]
}

const S = 4096

// extSeqs enumerates sequences of extents in slots of one sector and calls f
// with each.
func extSeqs(slots int, a func() *alloc, f func(id string, exts []ext, end uint64)) {
	var rec func(i int, id string, exts []ext, end uint64)
	rec = func(i int, id string, exts []ext, end uint64) {
		f(id, exts, end)
		if i == slots {
			return
		}
		for k := 0; k < 8; k++ {
			var n ext
			l := uint64(S)
			switch k {
			case 0: // gap
				rec(i+1, id+"_", exts, end+S)
				continue
			case 1: // regular
				n = ext{Off: end, Disk: a().get(S), Num: S}
			case 2: // two sectors
				l = 2 * S
				n = ext{Off: end, Disk: a().get(l), Num: l}
			case 3: // the end of a larger extent
				n = ext{Off: end, Disk: a().get(4 * S), DiskLen: 4 * S, EOff: 3 * S, Num: S}
			case 4: // the middle of a larger extent
				l = 2 * S
				n = ext{Off: end, Disk: a().get(4 * S), DiskLen: 4 * S, EOff: S, Num: l}
			case 5:
				n = ext{Off: end, Num: S} // hole
			case 6:
				n = ext{Off: end, Disk: a().get(S), Num: S, Pre: true}
			case 7: // inline, only at the start
				if i != 0 {
					continue
				}
				b := pat(77, 1000)
				n = ext{Inline: b}
				l = S
			}
			rec(i+1, id+fmt.Sprint(k), append(exts[:len(exts):len(exts)], n), end+l)
		}
	}
	rec(0, "", nil, 0)
}

// sizesFor are the file sizes tried for extents that end at end.
func sizesFor(end uint64) []uint64 {
	return []uint64{end, end + 1, end - 1, end + 5000, end / 2, 1, 0, end - S + 1, end - S}
}

func runC11(r *Runner) {
	slots := 3
	if r.Thorough() {
		slots = 4
	}
	ls := layouts()
	// batch recovers many files at once.
	batch := func(e *Env, what string, l layout, im *Image, files []*node) *Violation {
		its := append(append([]It{}, l.chunks...), fsItems(files...)...)
		return recoverAs(e, what, its, im, len(files)%2 == 0)
	}
	r.ForEach(func(yield func(Case) bool) {
		for li := range ls {
			l := ls[li]
			for sz := 0; sz < 10; sz++ {
				sz := sz
				if !yield(Case{fmt.Sprintf("extents/%s/size%d", l.name, sz), func(e *Env) *Violation {
					im := l.image(e)
					defer im.Close()
					al := &alloc{l: l, n: uint64(sz)}
					var files []*node
					var v *Violation
					flush := func() {
						if len(files) > 0 && v == nil {
							v = batch(e, "layout "+l.name, l, im, files)
						}
						files = nil
					}
					extSeqs(slots, func() *alloc { return al }, func(id string, exts []ext, end uint64) {
						if v != nil {
							return
						}
						n := fileN("f"+id, uint64(1000+len(files)), 0, exts...)
						if sz == 9 {
							if len(exts) == 0 {
								return
							}
							n.NoInode = true
						} else {
							n.I.Size = sizesFor(end)[sz]
							if n.I.Size > end+1<<20 {
								n.I.Size = 0
							}
						}
						files = append(files, n)
						if len(files) >= 200 {
							flush()
						}
					})
					flush()
					return v
				}}) {
					return
				}
			}
		}
		// Overlapping extents of different generations.
		type ov struct {
			off, n uint64
			kind   int
		}
		var ovs []ov
		for off := uint64(0); off < 3; off++ {
			for n := uint64(1); n <= 3; n++ {
				for k := 0; k < 3; k++ {
					ovs = append(ovs, ov{off, n, k})
				}
			}
		}
		mk := func(al *alloc, o ov, gen uint64) ext {
			x := ext{Off: o.off * S, Num: o.n * S, Gen: gen}
			switch o.kind {
			case 0:
				x.Disk = al.get(o.n*S + S)
				x.DiskLen = o.n*S + S
				x.EOff = S
			case 2:
				x.Disk, x.Pre = al.get(o.n*S), true
			}
			return x
		}
		perms := permutations(3)
		for oi := range ovs {
			o := ovs[oi]
			for li := range ls {
				l := ls[li]
				if r.Quick() && li != oi%len(ls) {
					continue
				}
				if !yield(Case{fmt.Sprintf("overlap/%s/%d", l.name, oi), func(e *Env) *Violation {
					im := l.image(e)
					defer im.Close()
					al := &alloc{l: l}
					var files []*node
					add := func(xs ...ext) *Violation {
						n := fileN(fmt.Sprintf("f%d", len(files)), uint64(1000+len(files)), 6*S-100, xs...)
						n.Gen = 20
						files = append(files, n)
						if len(files) >= 200 {
							v := batch(e, "overlap", l, im, files)
							files = nil
							return v
						}
						return nil
					}
					for _, p := range ovs {
						for g := 0; g < 2; g++ {
							if v := add(mk(al, o, uint64(5+g)), mk(al, p, uint64(6-g))); v != nil {
								return v
							}
						}
						for _, q := range ovs {
							if r.Quick() && (o.kind == 2 || p.kind == 2 || q.kind == 2 || p.off > q.off) {
								continue
							}
							for _, pm := range perms {
								if v := add(mk(al, o, uint64(5+pm[0])), mk(al, p, uint64(5+pm[1])), mk(al, q, uint64(5+pm[2]))); v != nil {
									return v
								}
							}
						}
					}
					if len(files) > 0 {
						return batch(e, "overlap", l, im, files)
					}
					return nil
				}}) {
					return
				}
			}
		}
		// Lengths around the copy buffer and odd ones.
		for li := range ls {
			l := ls[li]
			if !yield(Case{"lengths/" + l.name, func(e *Env) *Violation {
				im := l.image(e)
				defer im.Close()
				al := &alloc{l: l}
				for _, n := range []uint64{1, 2, 511, 512, 4095, 4097, 65535, 65536, 65537, mib - 4096, mib - 1, mib, mib + 1, 2*mib - 1, 2 * mib, 2*mib + 4096, 3*mib + 1, 4 * mib} {
					var files []*node
					for _, eo := range []uint64{0, 1, 4096, 12345} {
						for _, cut := range []uint64{0, 1, 100} {
							if n <= cut {
								continue
							}
							max := uint64(0)
							for _, a := range l.areas {
								if max == 0 || a[1] < max {
									max = a[1]
								}
							}
							if n+eo > max {
								continue
							}
							files = append(files, fileN(fmt.Sprintf("f%d-%d-%d", n, eo, cut), uint64(1000+len(files)), 3+n-cut,
								ext{Off: 3, Disk: al.get(n + eo), EOff: eo, Num: n, DiskLen: n + eo}))
						}
					}
					if len(files) > 0 {
						if v := batch(e, "lengths", l, im, files); v != nil {
							return v
						}
					}
				}
				return nil
			}}) {
				return
			}
		}
		// Inline data of every length.
		yield(Case{"inline", func(e *Env) *Violation {
			im := rcvImage(e)
			defer im.Close()
			var files []*node
			for n := 0; n <= 4096; n++ {
				if r.Quick() && n > 70 && n%61 != 0 && n < 4040 {
					continue
				}
				files = append(files, inlineN(fmt.Sprintf("i%d", n), uint64(1000+n), string(pat(uint64(n), uint64(n)))))
				k := fileN(fmt.Sprintf("s%d", n), uint64(10000+n), uint64(n), ext{Inline: pat(5, uint64((n*7)%4000))})
				files = append(files, k)
			}
			return recoverAs(e, "inline", fsItems(files...), im, false)
		}})
		yield(Case{"sparse", func(e *Env) *Violation { return sparseC11(e) }})
		for k := 0; k < 4; k++ {
			k := k
			yield(Case{fmt.Sprintf("big/%d", k), func(e *Env) *Violation {
				im, its, files := bigFiles(e, k)
				defer im.Close()
				return recoverAs(e, fmt.Sprint("extents of up to 128 MiB, group ", k), append(its, fsItems(files...)...), im, false)
			}})
		}
		yield(Case{"huge", func(e *Env) *Violation {
			im := rcvImage(e)
			defer im.Close()
			return recoverAs(e, "extents that end beyond 2^63", append([]It{chunkItem(0, 1<<32, 1, 0)}, fsItems(hugeFiles()...)...), im, false)
		}})
		// The image ends with the data, or a little before or after it.
		yield(Case{"image-end", func(e *Env) *Violation {
			return imageEnd(e, func(what string, its []It, im *Image) *Violation { return recoverAs(e, what, its, im, false) })
		}})
		// Links whose targets are stored like the data of files.
		for li := range ls {
			l := ls[li]
			yield(Case{"link-extents/" + l.name, func(e *Env) *Violation {
				im := l.image(e)
				defer im.Close()
				al := &alloc{l: l}
				var files []*node
				for _, n := range []uint64{0, 1, 2, 60, 255, 256, 1000, 4094, 4095} {
					for _, eo := range []uint64{0, S} {
						for _, kind := range []int{0, 1, 2, 3} {
							x := ext{Disk: al.get(2 * S), EOff: eo, DiskLen: 2 * S, Num: S}
							k := fileN(fmt.Sprintf("l%d-%d-%d", n, eo, kind), uint64(1000+len(files)), n, x)
							k.Ft = ftLnk
							_, p, _ := view{newModel(l.chunks...)}.phys(x.Disk)
							t := pat(n, n)
							if n == 0 { // more than recorded
								t, k.Exts[0].Num = pat(n, 60), 60
							}
							for i := range t {
								t[i] = 'a' + t[i]%26
							}
							im.Write(p+eo, append(t, 0))
							switch kind {
							case 1: // an older target
								k.Exts = append(k.Exts, ext{Inline: []byte("old"), Gen: 2})
							case 2: // not written
								k.Exts[0].Pre = true
							case 3:
								k.Exts[0].Disk = 0
							}
							files = append(files, k)
						}
					}
					if len(files) >= 8 {
						if v := batch(e, "links with regular extents", l, im, files); v != nil {
							return v
						}
						files, al = nil, &alloc{l: l}
					}
				}
				return nil
			}})
		}
		// Directory shapes.
		kinds := 9
		kid := func(name string, i, k int) *node {
			ino := uint64(300 + i*20)
			switch k {
			case 1:
				return inlineN(name, ino, "data of "+name)
			case 2:
				return linkN(name, ino, "../some/target")
			case 3:
				return dirN(name, ino)
			case 4:
				return dirN(name, ino, inlineN("x", ino+1, "x"), linkN("l", ino+2, "/x"), dirN(name, ino+3, inlineN("x", ino+4, "deep"), dirN("e", ino+5)))
			case 5:
				return subvolN(name, uint64(400+i), inlineN("x", 300, "in subvolume"), dirN("d", 301, inlineN("x", 302, "in subvolume directory")))
			case 6:
				return subvolN(name, uint64(400+i*2), subvolN("s", uint64(401+i*2), inlineN("x", 320, "two down"), dirN("d", 340)), inlineN("y", 300, "one down"))
			case 7:
				return dirN(name, ino, subvolN(name, uint64(420+i), linkN("x", 300, "t"), inlineN("z", 302, "z")))
			case 8:
				return &node{Name: name, Ft: ftFifo, Ino: ino}
			}
			return nil
		}
		cx := "hashname"
		cy := collideName(nameHash(cx), "k")
		for a := 0; a < kinds; a++ {
			for u := 0; u < 4; u++ {
				a, u := a, u
				if !yield(Case{fmt.Sprintf("shape/%d/%d", a, u), func(e *Env) *Violation {
					im := e.NewImage("img", 4096)
					defer im.Close()
					for b := 0; b < kinds; b++ {
						for c := 0; c < kinds; c++ {
							var kids []*node
							for i, k := range []int{a, b, c} {
								if n := kid([]string{cx, "n", cy}[i], i, k); n != nil {
									kids = append(kids, n)
								}
							}
							its := fsItems(kids...)
							if u > 0 {
								emitTree(&its, 500, &node{Ft: ftDir, Kids: []*node{inlineN("orphan", 300, "orphan"), kid("k", 0, c)}[:1+btoi(c > 0 && c < 5)]})
							}
							if u > 1 {
								emitTree(&its, 600, &node{Ft: ftDir, Kids: []*node{dirN(cx, 300, inlineN("a", 301, "a"))}})
							}
							if u > 2 { // two versions of a root item, an empty tree
								its = append(its, It{oRoot, K{600, tRoot, 7}, 3, encRoot(3)})
								emitTree(&its, 1<<40, &node{Ft: ftDir})
							}
							if v := recoverAs(e, fmt.Sprintf("shape %d%d%d unreferenced %d", a, b, c, u), its, im, u == 1); v != nil {
								return v
							}
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
		// Names and link targets.
		yield(Case{"names", func(e *Env) *Violation {
			im := e.NewImage("img", 4096)
			defer im.Close()
			var kids []*node
			for c := 1; c < 256; c++ {
				if c == '/' {
					continue
				}
				s := string([]byte{byte(c)})
				if c != '.' {
					kids = append(kids, inlineN(s, uint64(1000+c), s))
				}
				kids = append(kids, inlineN("n"+s+"m", uint64(2000+c), s), linkN("l"+s, uint64(3000+c), "t"+s+"t"),
					dirN(s+"dd", uint64(4000+c), inlineN(s+s+"x", uint64(5000+c), s)))
			}
			for l := 2; l <= 255; l++ {
				kids = append(kids, inlineN(strings.Repeat("L", l), uint64(6000+l), "x"))
			}
			for _, l := range []int{1, 2, 255, 256, 1023, 4000, 4095} {
				kids = append(kids, linkN(fmt.Sprintf("link%d", l), uint64(7000+l), strings.Repeat("t", l)))
			}
			for i, t := range []string{"/", ".", "..", "/etc/passwd", "../../x", "a//b/", " ", "x\ny", "x\n", "//", "a//", "x/.", "x/..", "./", " x ", "\\"} {
				kids = append(kids, linkN(fmt.Sprintf("t%d", i), uint64(12000+i), t))
			}
			return recoverAs(e, "names", fsItems(kids...), im, false)
		}})
		for k := 0; k < 7; k++ {
			k := k
			yield(Case{fmt.Sprintf("numbers/%d", k), func(e *Env) *Violation {
				im := e.NewImage("img", 4096)
				defer im.Close()
				var its []It
				if k < 6 {
					its = fsItems(numberTree(k)...)
				} else {
					its = fsItems(inlineN("f", 1000, "top"))
					for b := uint(0); b < 63; b++ {
						if t := uint64(1000 ^ 1<<b); t >= 256 {
							emitTree(&its, t, &node{Ft: ftDir, Kids: []*node{inlineN("f", 1000, fmt.Sprint("tree ", t)), linkN(fmt.Sprint("l", b), 1001, fmt.Sprint(b))}})
						}
					}
				}
				return recoverAs(e, "similar numbers", its, im, false)
			}})
		}
		// Versions: the newest entry, inode, target.
		yield(Case{"versions", func(e *Env) *Violation {
			im := rcvImage(e)
			defer im.Close()
			for _, p := range permutations(4) {
				its := []It{chunkItem(0, 6*mib, 1, 0)}
				for _, g := range p {
					n := inlineN("f", 300, strings.Repeat(fmt.Sprint(g), 10+g*7))
					l := linkN("l", 301, fmt.Sprint("target", g))
					x := fileN("x", 302, uint64(g+1)*1000, ext{Disk: mib + uint64(g)*8192, Num: 8192})
					kids := []*node{n, l, x, inlineN(fmt.Sprint("only", g), uint64(310+g), "o")}
					d := &node{Ft: ftDir, Kids: kids, Gen: uint64(g + 1)}
					for _, k := range kids {
						k.Gen = uint64(g + 1)
					}
					var sub []It
					emitTree(&sub, oFS, d)
					its = append(its, sub...)
				}
				if v := recoverAs(e, fmt.Sprint("versions ", p), its, im, false); v != nil {
					return v
				}
			}
			return nil
		}})
		yield(Case{"deep", func(e *Env) *Violation {
			im := e.NewImage("img", 4096)
			defer im.Close()
			n := inlineN("end", 5000, "end")
			for i := 0; i < 300; i++ {
				n = dirN(fmt.Sprint(i), uint64(1000+i), n)
			}
			return recoverAs(e, "300 levels", fsItems(n), im, false)
		}})
	})
}

// imageEnd calls f with a file of which a part lies near the end of the image.
func imageEnd(e *Env, f func(what string, its []It, im *Image) *Violation) *Violation {
	for _, n := range []uint64{1, 100, 4095, 4096, 4097, 65536 + 1, mib - 1, mib + 1, 3*mib - 5} {
		for _, d := range []int64{0, 1, 4095, -1, -4096} {
			for kind := 0; kind < 4; kind++ {
				size := int64(mib+n) + d
				if size < mib {
					continue
				}
				im := e.NewImage("img", size)
				im.Write(0, pat(0, uint64(size)))
				up := (n + S - 1) / S * S
				x := fileN("f", 300, n, ext{Disk: mib, Num: up, Gen: 4})
				switch kind {
				case 1: // the end is replaced
					x.Exts = append(x.Exts, ext{Off: up - S, Disk: 8192, Num: S, Gen: 5})
				case 2: // an older extent is unreadable
					x.Exts = append(x.Exts, ext{Disk: mib + up + S, Num: up, Gen: 3})
				case 3:
					if n >= S {
						im.Close()
						continue
					}
					x.Ft = ftLnk
					t := pat(n, uint64(size)-mib)
					for i := range t {
						t[i] = 'a' + t[i]%26
					}
					im.Write(mib, t)
				}
				v := f(fmt.Sprintf("image ends %d bytes after the data of %d bytes, kind %d", d, n, kind),
					append([]It{chunkItem(0, 16*mib, 1, 0)}, fsItems(x, fileN("g", 301, 5000, ext{Disk: 16384, Num: 8192}), linkN("l", 302, "target"))...), im)
				im.Close()
				if v != nil {
					return v
				}
			}
		}
	}
	return nil
}

// bigFiles makes files with extents of up to 128 MiB in a sparse image.
func bigFiles(e *Env, k int) (*Image, []It, []*node) {
	im := e.NewImage("img", 300*mib)
	at := uint64(5 * mib)
	var lens []uint64
	switch k {
	case 0:
		lens = []uint64{8*mib - S, 8 * mib, 8*mib + S, 16*mib + S}
	case 1:
		lens = []uint64{64*mib - S, 64*mib + S}
	case 2:
		lens = []uint64{128*mib - 3*S}
	case 3:
		lens = []uint64{128 * mib}
	}
	var files []*node
	for i, n := range lens {
		// Marks at the start and the end and at powers of two and multiples
		// of odd step sizes, also one byte early.
		for _, p := range []uint64{0, n - 600, n / 2} {
			im.Write(at+p, pat(p+n, 600))
		}
		for p := uint64(65536); p < n; p *= 2 {
			im.Write(at+p-300, pat(p, 600))
		}
		for p := uint64(mib - 3000); p < n; p += 1357 * 977 {
			im.Write(at+p, pat(p, 700))
		}
		f := fileN(fmt.Sprintf("f%d", n), uint64(300+i), n-5, ext{Disk: at, Num: n, Gen: 4})
		if i%2 == 1 || k > 1 {
			// A part is replaced.
			f.I.Size = n + 2*S
			im.Write(S, pat(99, 2*S))
			f.Exts = append(f.Exts, ext{Off: n/2/S*S + 16*S, Disk: S, Num: 2 * S, Gen: 6}, ext{Off: n, Disk: S, Num: S, Gen: 4})
		}
		files = append(files, f)
		at += n + S
	}
	return im, []It{chunkItem(0, 1<<32, 1, 0)}, files
}

// hugeFiles have extents that end far beyond their size, up to beyond the
// largest number.
func hugeFiles() []*node {
	var files []*node
	for _, n := range []uint64{1<<40 + S, 1<<63 - S, 1<<63 - 1, 1 << 63, 1<<63 + S, max64 - S + 1, max64 - 2*S, max64} {
		for kind := 0; kind < 3; kind++ {
			for gen := uint64(4); gen < 7; gen++ {
				x := ext{Off: S, Num: n, Gen: gen}
				switch kind {
				case 0:
					x.Disk = mib + S
				case 1:
					x.Disk, x.Pre = mib+S, true
				}
				files = append(files, fileN(fmt.Sprintf("f%d-%d-%d", n, kind, gen), uint64(1000+len(files)), 5*S-7,
					ext{Disk: 2 * mib, Num: 2 * S, Gen: 5}, ext{Off: 3 * S, Disk: 3 * mib, Num: S, Gen: 5}, x))
			}
		}
	}
	return files
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// sparseC11: files that are far larger than their data.
func sparseC11(e *Env) *Violation {
	im := rcvImage(e)
	defer im.Close()
	const T = 1 << 40
	all := []It{chunkItem(0, 6*mib, 1, 0)}
	type sp struct {
		n     *node
		at    uint64
		img   uint64
		bytes uint64
	}
	files := []sp{
		{fileN("gap", 300, T, ext{Off: T / 2, Disk: mib, Num: 8192}), T / 2, mib, 8192},
		{fileN("hole", 301, T, ext{Off: 0, Num: T / 2}, ext{Off: T / 2, Disk: mib + 4096, Num: 8192}, ext{Off: T/2 + 8192, Num: T/2 - 8192}), T / 2, mib + 4096, 8192},
		{fileN("pre", 302, T, ext{Off: 0, Num: T - 4096, Disk: 8192, Pre: true}, ext{Off: T - 4096, Disk: mib + 8192, Num: 4096}), T - 4096, mib + 8192, 4096},
		{fileN("only-hole", 303, T, ext{Off: 0, Num: T}), 0, 0, 0},
		{fileN("old-over", 304, T, ext{Off: 0, Num: T, Gen: 5}, ext{Off: T / 4, Disk: mib, Num: 8192, Gen: 6}, ext{Off: T/4 + 4096, Num: T / 4, Gen: 7}), T / 4, mib, 4096},
		{fileN("tail", 305, T+1234), 0, 0, 0},
	}
	var kids []*node
	for _, f := range files {
		kids = append(kids, f.n)
	}
	meta := e.Path("ix")
	writeIndex(meta, 16384, append(all, fsItems(kids...)...))
	dest := e.rmDest("dest")
	res := recoverCLI(e, false, im.Path, meta, dest, false)
	e.r.State(1)
	e.r.Trace(1)
	if res.crashed() || res.Exit != 0 || res.Stderr != "" {
		return viol("sparse files: %s", res.brief())
	}
	for _, f := range files {
		p := dest + "/" + f.n.Name
		fi, err := os.Lstat(p)
		if err != nil {
			return viol("sparse %s: %v", f.n.Name, err)
		}
		if uint64(fi.Size()) != f.n.I.Size {
			return viol("sparse %s: size %d, expected %d", f.n.Name, fi.Size(), f.n.I.Size)
		}
		st := fi.Sys().(*syscall.Stat_t)
		if st.Blocks*512 > 64*mib {
			return viol("sparse %s: occupies %d bytes", f.n.Name, st.Blocks*512)
		}
		h, _ := os.Open(p)
		if f.bytes > 0 {
			b := make([]byte, f.bytes+8192)
			lo := f.at - 4096
			m, _ := h.ReadAt(b, int64(lo))
			want := make([]byte, f.bytes+8192)
			copy(want[4096:], pat(f.img, f.bytes))
			if string(b[:m]) != string(want[:m]) || m < int(f.bytes)+4096 {
				h.Close()
				return viol("sparse %s: wrong data around %d: %s", f.n.Name, f.at, diffBytes(want[:m], b[:m]))
			}
		}
		// Nothing but zeros elsewhere: walk the data segments.
		pos := int64(0)
		for {
			a, err := syscall.Seek(int(h.Fd()), pos, 3)
			if err != nil {
				break
			}
			z, _ := syscall.Seek(int(h.Fd()), a, 4)
			buf := make([]byte, z-a)
			h.ReadAt(buf, a)
			for i, c := range buf {
				o := uint64(a) + uint64(i)
				if c != 0 && !(o >= f.at && o < f.at+f.bytes) {
					h.Close()
					return viol("sparse %s: byte %#x at %d, expected 0", f.n.Name, c, o)
				}
			}
			pos = z
		}
		h.Close()
	}
	e.rmDest("dest")
	return nil
}
