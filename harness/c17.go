package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"syscall"
)

// C17: file content through a mount.
func init() {
	register(&Prop{ID: "C17", Level: "model_checking",
		Rule: "all extent sequences over 7 kinds in 3 (thorough 4) slots x 8 file sizes x 6 chunk layouts (one beyond 4 GiB), overlapping extents of different generations, " +
			"odd lengths, sparse files up to the size limit, extents of 9 GiB around all powers of two, unreadable parts of 8 kinds next to readable ones, with and without an image; inodes and trees whose numbers differ in one bit; for each file all " +
			"reads between any two points around every extent and file boundary; all ordered pairs of reads on one and on two handles for selected files; every history of 4 (5) steps of opening, reading, closing files of several trees with equal inode numbers; " +
			"non-trivial: distinct files read",
		Assumptions: []string{"the kernel's side of the FUSE protocol is played by the explorer", "single-stripe chunks"},
		Run:         runC17})
}

// fileModel is the expected content of a file; bytes marked as bad cannot be
// read.
type fileModel struct {
	size uint64
	segs []fseg // later ones win
}

type fseg struct {
	off, n uint64
	kind   int // 0 zeros, 1 data, 2 unreadable, 3 on the device
	data   []byte
	phys   uint64
}

func (v view) fileModel(owner, ino uint64) *fileModel {
	exts := v.m.all(owner, tExtent, ino)
	sort.SliceStable(exts, func(i, j int) bool { return exts[i].Gen < exts[j].Gen })
	f := &fileModel{size: v.inode(owner, ino).Size}
	for _, e := range exts {
		s := fseg{off: e.K.Off}
		enc := e.Data[16]|e.Data[17]|e.Data[18]|e.Data[19] != 0
		if e.Data[20] == 0 {
			s.kind, s.data = 1, e.Data[21:]
			s.n = uint64(len(s.data))
			if n := le.Uint64(e.Data[8:]); n > s.n || enc {
				f.segs = append(f.segs, fseg{off: s.off, n: n, kind: 2})
			}
			if enc {
				continue
			}
			f.segs = append(f.segs, s)
			continue
		}
		disk, off, num := le.Uint64(e.Data[21:]), le.Uint64(e.Data[37:]), le.Uint64(e.Data[45:])
		s.n = num
		switch {
		case enc:
			s.kind = 2
		case disk == 0 || e.Data[20] == 2:
		default:
			s.kind = 2
			if _, p, ok := v.phys(disk); ok {
				s.kind, s.phys = 3, p+off
			}
		}
		f.segs = append(f.segs, s)
	}
	return f
}

// read returns the expected bytes of a range, and whether all of them can be
// read. im may be nil.
func (f *fileModel) read(im *Image, off, n uint64) ([]byte, bool) {
	if off >= f.size {
		return nil, true
	}
	if n > f.size-off {
		n = f.size - off
	}
	out := make([]byte, n)
	bad := make([]bool, n)
	for _, s := range f.segs {
		a, b := s.off, s.off+s.n
		if b < a {
			b = max64
		}
		if a < off {
			a = off
		}
		if b > off+n {
			b = off + n
		}
		if a >= b {
			continue
		}
		o, k := out[a-off:b-off], bad[a-off:b-off]
		for i := range k {
			k[i] = s.kind == 2
			o[i] = 0
		}
		switch s.kind {
		case 1:
			copy(o, s.data[a-s.off:])
		case 3:
			ok := im != nil
			if ok {
				d, okr := im.Read(s.phys+a-s.off, b-a)
				if ok = okr; ok {
					copy(o, d)
				} else {
					for i := range k {
						if d, okr := im.Read(s.phys+a-s.off+uint64(i), 1); okr {
							o[i] = d[0]
						} else {
							k[i] = true
						}
					}
				}
			} else {
				for i := range k {
					k[i] = true
				}
			}
		}
	}
	for _, b := range bad {
		if b {
			return out, false
		}
	}
	return out, true
}

// points are the interesting offsets of a file.
func (f *fileModel) points() []uint64 {
	set := map[uint64]bool{0: true, 1: true}
	around := func(p uint64) {
		for _, d := range []uint64{max64, 0, 1} {
			if q := p + d; q < 1<<63 {
				set[q] = true
			}
		}
	}
	around(f.size)
	for _, s := range f.segs {
		around(s.off)
		if s.off+s.n >= s.off {
			around(s.off + s.n)
		}
	}
	var out []uint64
	for p := range set {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// checkRead performs one read and compares it.
func (f *fileModel) checkRead(m *Mnt, im *Image, node, fh, off, n uint64) *Violation {
	want, ok := f.read(im, off, n)
	got, err := m.Read(node, fh, off, uint32(n))
	m.e.r.Trans(1)
	what := func() string { return fmt.Sprintf("reading %d bytes at %d of a file of %d bytes", n, off, f.size) }
	if ok {
		if err != 0 {
			return viol("%s: %v, although all data is there", what(), err)
		}
		if !bytes.Equal(want, got) {
			return viol("%s: %s", what(), diffBytes(want, got))
		}
		return nil
	}
	if err != 0 {
		return nil
	}
	if im == nil && len(got) == len(want) {
		// Without an image, missing data may read as zeros; want has zeros
		// for it.
		if bytes.Equal(want, got) {
			return nil
		}
		return viol("%s without an image: got unrelated bytes: %s", what(), diffBytes(want, got))
	}
	return viol("%s: got %d bytes although some of them cannot be read", what(), len(got))
}

const maxRead = 128 << 10

// checkFile opens a file and reads it in all ways.
func checkFile(m *Mnt, v view, im *Image, dir uint64, x vref, name string, exhaustive bool) *Violation {
	g := m.Lookup(dir, name)
	if g.err != 0 {
		return viol("looking up %s: %v", name, g.err)
	}
	defer m.Forget(g.node, 1)
	c, _ := v.child(x, name)
	f := v.fileModel(c.owner, c.ino)
	fh, err := m.Open(g.node, 0)
	if err != 0 {
		return viol("opening %s: %v", name, err)
	}
	defer m.Release(g.node, fh)
	a, err := m.GetattrFh(g.node, fh)
	if err != 0 || v.diffAttr(c, a) != "" {
		return viol("attributes of the open file %s: %v %s", name, err, v.diffAttr(c, a))
	}
	pts := f.points()
	type rd struct{ off, n uint64 }
	var rds []rd
	for i, p := range pts {
		for _, q := range pts[i+1:] {
			if q-p <= maxRead {
				rds = append(rds, rd{p, q - p})
			}
		}
		rds = append(rds, rd{p, maxRead})
	}
	for _, q := range rds {
		if vi := f.checkRead(m, im, g.node, fh, q.off, q.n); vi != nil {
			vi.Msg = name + ": " + vi.Msg
			return vi
		}
	}
	// From the start to the end.
	if f.size <= 130*mib {
		for off := uint64(0); ; off += 65536 {
			if vi := f.checkRead(m, im, g.node, fh, off, 65536); vi != nil {
				vi.Msg = name + ": " + vi.Msg
				return vi
			}
			if off > f.size {
				break
			}
		}
	}
	if exhaustive {
		// All ordered pairs of reads, the second one on either handle.
		fh2, err := m.Open(g.node, 0)
		if err != 0 {
			return viol("opening %s again: %v", name, err)
		}
		for i := range rds {
			for j := range rds {
				for _, h := range []uint64{fh, fh2} {
					if vi := f.checkRead(m, im, g.node, fh, rds[i].off, rds[i].n); vi != nil {
						return vi
					}
					if vi := f.checkRead(m, im, g.node, h, rds[j].off, rds[j].n); vi != nil {
						vi.Msg = fmt.Sprintf("%s, after reading %d bytes at %d: %s", name, rds[i].n, rds[i].off, vi.Msg)
						return vi
					}
				}
			}
		}
		m.Release(g.node, fh2)
		for _, q := range rds {
			if vi := f.checkRead(m, im, g.node, fh, q.off, q.n); vi != nil {
				return vi
			}
		}
	}
	m.e.r.State(1)
	m.e.r.Outcome(fmt.Sprint(f.size, f.segs))
	return nil
}

// mountFiles checks all files of the top-level directory.
func mountFiles(e *Env, real bool, its []It, im *Image, exhaustive bool) (vi *Violation) {
	var m *Mnt
	defer catch(&m, &vi)
	m = e.mountModel(real, its, im)
	v := view{newModel(its...)}
	g := m.Walk("rescue")
	if g.err != 0 {
		return viol("looking up the rescue directory: %v", g.err)
	}
	x := vref{oFS, 256, ftDir}
	for _, d := range v.dirents(oFS, 256) {
		if d.Type != ftReg {
			continue
		}
		if vi := checkFile(m, v, im, g.node, x, d.Name, exhaustive); vi != nil {
			return vi
		}
	}
	e.r.Trace(1)
	return nil
}

// mountTree checks all files of a tree.
func mountTree(e *Env, its []It, im *Image) (vi *Violation) {
	var m *Mnt
	defer catch(&m, &vi)
	m = e.mountModel(false, its, im)
	v := view{newModel(its...)}
	var walk func(x vref, node uint64) *Violation
	walk = func(x vref, node uint64) *Violation {
		for _, d := range v.dirents(x.owner, x.ino) {
			switch c, _ := v.child(x, d.Name); d.Type {
			case ftReg:
				if vi := checkFile(m, v, im, node, x, d.Name, false); vi != nil {
					vi.Msg = fmt.Sprintf("inode %d of tree %d: %s", c.ino, c.owner, vi.Msg)
					return vi
				}
			case ftDir:
				g := m.Lookup(node, d.Name)
				if g.err != 0 {
					return viol("looking up %s: %v", d.Name, g.err)
				}
				if vi := walk(c, g.node); vi != nil {
					return vi
				}
				m.Forget(g.node, 1)
			}
		}
		return nil
	}
	g := m.Walk("rescue")
	if g.err != 0 {
		return viol("looking up the rescue directory: %v", g.err)
	}
	vi = walk(vref{oFS, 256, ftDir}, g.node)
	e.r.Trace(1)
	return vi
}

// longC17 reads at all powers of two and some other places of extents that
// are longer than 4 GiB.
func longC17(e *Env) (vi *Violation) {
	const n = 9 << 30
	const start = 1<<30 + 5*mib
	im := e.NewImage("long", start+n)
	defer im.Close()
	var at []uint64
	for b := uint(16); b < 34; b++ {
		for _, k := range []uint64{1, 3, 5} {
			if p := k << b; p < n-65536 {
				at = append(at, p)
			}
		}
	}
	at = append(at, 65536, n-65536, n-S)
	for _, p := range at {
		im.Write(start+p-3000, pat(p, 6000)[:min64(6000, n-p+3000)])
	}
	its := append(fsItems(
		fileN("a", 300, n-100, ext{Disk: 64 * mib, Num: n}),
		fileN("b", 301, n, ext{Disk: 64 * mib, DiskLen: n, EOff: 1 << 32, Num: n - 1<<32}, ext{Off: n - 1<<32, Disk: 64 * mib, DiskLen: n, EOff: 1 << 31, Num: 1 << 32}),
		fileN("c", 302, n, ext{Off: S, Disk: 64*mib + 1<<33, Num: 1 << 20}, ext{Off: S + 1<<20, Disk: 64 * mib, Num: n - 1<<20 - S}),
	), chunkItem(64*mib, n, 1, start))
	var m *Mnt
	defer catch(&m, &vi)
	m = e.mountModel(false, its, im)
	v := view{newModel(its...)}
	for i, name := range []string{"a", "b", "c"} {
		g := m.Walk("rescue/" + name)
		if g.err != 0 {
			return viol("looking up %s: %v", name, g.err)
		}
		fh, err := m.Open(g.node, 0)
		if err != 0 {
			return viol("opening %s: %v", name, err)
		}
		f := v.fileModel(oFS, uint64(300+i))
		for _, p := range at {
			for _, d := range []uint64{0, 1 << 32, max64 - 1<<32 + 1, max64 - 1<<31 + 1, n - 1<<32 - 1<<31, S + 1<<20, 1<<33 - S} {
				q := p + d
				if q >= n || q < 5000 {
					continue
				}
				for _, s := range []uint64{q - 3000, q - 1, q, q + 17} {
					for _, k := range []uint64{1, 512, 5000, 65536} {
						if vi := f.checkRead(m, im, g.node, fh, s, k); vi != nil {
							vi.Msg = name + ": " + vi.Msg
							return vi
						}
					}
				}
			}
		}
		m.Release(g.node, fh)
		m.Forget(g.node, 1)
		e.r.State(1)
		e.r.Outcome("long/" + name)
	}
	e.r.Trace(1)
	return nil
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

const nBadExts = 10

// badExts are extents that cannot be read, or only partly, each 2 sectors.
// The image ends at 6 MiB; layout "tail" maps beyond it.
func badExts() (chunks []It, f func(k int, off uint64) (string, It)) {
	chunks = []It{chunkItem(0, 6*mib, 1, 0), chunkItem(64*mib, 8*mib, 1, 2*mib), chunkItem(128*mib, mib, 1, 1<<62),
		chunkItem(160*mib, mib, 1, max64-4095), chunkItem(192*mib, mib, 1, 1<<63)}
	f = func(k int, off uint64) (string, It) {
		x := extT{Gen: 10, RAM: 2 * S, Type: 1, Disk: mib, DiskLen: 2 * S, Num: 2 * S}
		what := ""
		switch k {
		case 0:
			x.Disk, what = 32*mib, "unmapped"
		case 1:
			x.Disk, what = 64*mib+4*mib-S, "partly beyond the end of the image"
		case 2:
			x.Disk, what = 64*mib+5*mib, "beyond the end of the image"
		case 3:
			x.Compr, what = 1, "compressed"
		case 4:
			x.Enc, what = 1, "encrypted"
		case 5:
			x.Other, what = 1, "encoded"
		case 6:
			x.Disk, what = 128*mib, "far beyond the end of the image"
		case 7:
			x.Disk, what = max64-S+1, "at the end of the address space"
		case 8:
			x.Disk, what = 160*mib+2*S, "behind the end of all addresses"
		case 9:
			x.Disk, what = 192*mib, "at a negative offset"
		default:
			return "", It{}
		}
		return what, It{Owner: oFS, Gen: 10, K: K{0, tExtent, off}, Data: encExtent(x)}
	}
	return
}

// sameNumbers are files of several trees with one inode number, and a second
// file of one of these trees.
var sameNumbers = []string{"rescue/f", "rescue/v/f", "rescue/d/w/f", "rescue/v/u/f", "rescue/v/g"}

func sameNumberTree() []It {
	return fsItems(
		fileN("f", 300, 2*S-7, ext{Off: 0, Disk: 2 * mib, Num: 2 * S}),
		subvolN("v", 256,
			fileN("f", 300, 2*S+9, ext{Off: 0, Disk: 3 * mib, Num: S}, ext{Off: S, Disk: mib, Num: 2 * S}),
			fileN("g", 301, 2*S, ext{Off: 0, Num: S}, ext{Off: S, Disk: 3 * mib, EOff: S, DiskLen: 2 * S, Num: S}),
			subvolN("u", 257, fileN("f", 300, 3*S, ext{Off: 0, Disk: 3 * mib, Num: S, Pre: true}, ext{Off: S, Disk: 4 * mib, Num: S}))),
		dirN("d", 301, subvolN("w", 300, inlineN("f", 300, string(pat(77, 1500))))))
}

// fileHistories runs every sequence of steps that starts with opening the
// files of the prefix; a step opens a file (again) and reads it, reads through
// a handle that is open, or closes one. Every sequence has its own mount.
func fileHistories(e *Env, its []It, im *Image, prefix []int, steps int) *Violation {
	type op struct{ kind, arg int } // open file, read handle, close handle
	var seq []op
	for _, f := range prefix {
		seq = append(seq, op{0, f})
	}
	v := view{newModel(its...)}
	exec := func() (vi *Violation) {
		var m *Mnt
		defer catch(&m, &vi)
		m = e.mountModel(false, its, im)
		type handle struct {
			node, fh uint64
			f        *fileModel
			file     int
		}
		var hs []*handle
		what := ""
		for _, o := range seq {
			var h *handle
			switch o.kind {
			case 0:
				p := sameNumbers[o.arg]
				what += fmt.Sprintf(" open %s;", p)
				g := m.Walk(p)
				if g.err != 0 {
					return viol("after%s looking up: %v", what, g.err)
				}
				fh, err := m.Open(g.node, 0)
				if err != 0 {
					return viol("after%s opening: %v", what, err)
				}
				x, _ := v.resolve(strings.TrimPrefix(p, "rescue"))
				h = &handle{g.node, fh, v.fileModel(x.owner, x.ino), o.arg}
				hs = append(hs, h)
			case 1:
				h = hs[o.arg]
				what += fmt.Sprintf(" read handle %d (%s);", o.arg, sameNumbers[h.file])
			case 2:
				h = hs[o.arg]
				what += fmt.Sprintf(" close handle %d (%s);", o.arg, sameNumbers[h.file])
				m.Release(h.node, h.fh)
				m.Forget(h.node, 1)
			}
			e.r.Trans(1)
			if o.kind == 2 {
				continue
			}
			for _, q := range [][2]uint64{{0, 65536}, {S - 3, 10}} {
				if vi := h.f.checkRead(m, im, h.node, h.fh, q[0], q[1]); vi != nil {
					vi.Msg = "after" + what + " " + vi.Msg
					return vi
				}
			}
		}
		e.r.State(1)
		e.r.Trace(1)
		return nil
	}
	var rec func(open []bool) *Violation
	rec = func(open []bool) *Violation {
		if len(seq) == steps || e.r.expired() {
			return exec()
		}
		try := func(o op, open []bool) *Violation {
			seq = append(seq, o)
			vi := rec(open)
			seq = seq[:len(seq)-1]
			return vi
		}
		for f := range sameNumbers {
			if vi := try(op{0, f}, append(append([]bool{}, open...), true)); vi != nil {
				return vi
			}
		}
		for h := range open {
			if !open[h] {
				continue
			}
			if vi := try(op{1, h}, open); vi != nil {
				return vi
			}
			o := append([]bool{}, open...)
			o[h] = false
			if vi := try(op{2, h}, o); vi != nil {
				return vi
			}
		}
		return nil
	}
	open := make([]bool, len(prefix))
	for i := range open {
		open[i] = true
	}
	return rec(open)
}

func runC17(r *Runner) {
	slots := 3
	if r.Thorough() {
		slots = 4
	}
	ls := layouts()
	r.ForEach(func(yield func(Case) bool) {
		add := func(id string, f func(e *Env) *Violation) bool { return yield(Case{id, f}) }
		batch := func(e *Env, l layout, im *Image, files []*node, ex bool) *Violation {
			return mountFiles(e, false, append(append([]It{}, l.chunks...), fsItems(files...)...), im, ex)
		}
		for li := range ls {
			l := ls[li]
			for sz := 0; sz < 9; sz++ {
				sz := sz
				if !add(fmt.Sprintf("extents/%s/size%d", l.name, sz), func(e *Env) *Violation {
					im := l.image(e)
					defer im.Close()
					al := &alloc{l: l, n: uint64(sz)}
					var files []*node
					var v *Violation
					flush := func() {
						if len(files) > 0 && v == nil {
							v = batch(e, l, im, files, false)
						}
						files = nil
					}
					extSeqs(slots, func() *alloc { return al }, func(id string, exts []ext, end uint64) {
						if v != nil || e.r.expired() {
							return
						}
						n := fileN("f"+id, uint64(1000+len(files)), sizesFor(end)[sz], exts...)
						if n.I.Size > end+1<<20 {
							n.I.Size = 0
						}
						if files = append(files, n); len(files) >= 200 {
							flush()
						}
					})
					flush()
					return v
				}) {
					return
				}
			}
		}
		// Overlaps of two extents of different generations, and of three.
		type ov struct {
			off, n uint64
			kind   int
		}
		var ovs []ov
		for off := uint64(0); off < 3; off++ {
			for n := uint64(1); n <= 3; n++ {
				for k := 0; k < 3; k++ {
					ovs = append(ovs, ov{off, n, k})
				}
			}
		}
		mk := func(al *alloc, o ov, gen uint64) ext {
			x := ext{Off: o.off * S, Num: o.n * S, Gen: gen}
			switch o.kind {
			case 0:
				x.Disk = al.get(o.n*S + S)
				x.DiskLen = o.n*S + S
				x.EOff = S
			case 2:
				x.Disk, x.Pre = al.get(o.n*S), true
			}
			return x
		}
		for oi := range ovs {
			o := ovs[oi]
			l := ls[oi%len(ls)]
			if !add(fmt.Sprintf("overlap/%d", oi), func(e *Env) *Violation {
				im := l.image(e)
				defer im.Close()
				al := &alloc{l: l}
				var files []*node
				flush := func() *Violation {
					v := batch(e, l, im, files, false)
					files = nil
					return v
				}
				for _, p := range ovs {
					for g := uint64(0); g < 2; g++ {
						n := fileN(fmt.Sprintf("f%d", len(files)), uint64(1000+len(files)), 6*S-100, mk(al, o, 5+g), mk(al, p, 6-g))
						n.Gen = 20
						files = append(files, n)
					}
					for _, q := range ovs {
						if q.kind == 2 || p.kind == 2 || r.Quick() && (q.off < p.off || (q.off+p.n)%2 == 0) {
							continue
						}
						n := fileN(fmt.Sprintf("f%d", len(files)), uint64(1000+len(files)), 6*S-100, mk(al, o, 6), mk(al, p, 5), mk(al, q, 7))
						n.Gen = 20
						files = append(files, n)
						if len(files) > 200 {
							if v := flush(); v != nil {
								return v
							}
						}
					}
				}
				return flush()
			}) {
				return
			}
		}
		// Odd lengths, offsets and sizes.
		for li := range ls {
			l := ls[li]
			if !add("lengths/"+l.name, func(e *Env) *Violation {
				im := l.image(e)
				defer im.Close()
				al := &alloc{l: l}
				max := uint64(mib)
				var files []*node
				for _, n := range []uint64{1, 2, 511, 512, 4095, 4097, 65535, 65536, 65537, 131071, 131072, 131073, mib - 12345, mib} {
					for _, eo := range []uint64{0, 1, 4096, 12345} {
						for _, cut := range []uint64{0, 1, 100} {
							if n <= cut || n+eo > max {
								continue
							}
							files = append(files, fileN(fmt.Sprintf("f%d-%d-%d", n, eo, cut), uint64(1000+len(files)), 3+n-cut,
								ext{Off: 3, Disk: al.get(n + eo), EOff: eo, Num: n, DiskLen: n + eo}))
						}
					}
				}
				return batch(e, l, im, files, false)
			}) {
				return
			}
		}
		// Inline files of every small length, and cut or extended by the
		// file size.
		if !add("inline", func(e *Env) *Violation {
			var files []*node
			for n := 0; n <= 64; n++ {
				for _, d := range []int{-64, -1, 0, 1, 5000} {
					if n+d < 0 {
						continue
					}
					files = append(files, fileN(fmt.Sprintf("i%d-%d", n, d), uint64(1000+len(files)), uint64(n+d), ext{Inline: pat(uint64(n), uint64(n))}))
				}
			}
			for _, n := range []int{100, 1000, 2047, 2048, 3800, 4095} {
				files = append(files, inlineN(fmt.Sprintf("i%d", n), uint64(1000+len(files)), string(pat(9, uint64(n)))))
			}
			if v := batch(e, layout{}, nil, files, false); v != nil {
				return v
			}
			im := rcvImage(e)
			defer im.Close()
			return batch(e, ls[0], im, files, false)
		}) {
			return
		}
		for k := 0; k < 4; k++ {
			k := k
			if !add(fmt.Sprintf("big/%d", k), func(e *Env) *Violation {
				im, its, files := bigFiles(e, k)
				defer im.Close()
				return mountFiles(e, false, append(its, fsItems(files...)...), im, false)
			}) {
				return
			}
		}
		if !add("huge", func(e *Env) *Violation {
			im := rcvImage(e)
			defer im.Close()
			// An extent with data that is longer than its chunk may be
			// refused altogether.
			var files []*node
			for _, f := range hugeFiles() {
				if x := f.Exts[2]; x.Disk == 0 || x.Pre {
					files = append(files, f)
				}
			}
			return batch(e, ls[0], im, files, false)
		}) {
			return
		}
		// Inode and tree numbers that differ in one bit.
		for k := 0; k < 2; k++ {
			k := k
			if !add(fmt.Sprintf("numbers/%d", k), func(e *Env) *Violation { return mountTree(e, fsItems(numberTree(k)...), nil) }) {
				return
			}
		}
		// Extents of more than 4 GiB, on a large device.
		if !add("long", longC17) {
			return
		}
		// Sparse files up to the size limit.
		if !add("sparse", func(e *Env) *Violation {
			im := rcvImage(e)
			defer im.Close()
			var files []*node
			for _, b := range []uint{31, 32, 33, 40, 43, 62} {
				for _, d := range []uint64{1 << b, 1<<b - S, 1<<b - 2*S, 1<<b + S} {
					for _, sz := range []uint64{d + S, d + S - 1, d, d + 10*S} {
						files = append(files, fileN(fmt.Sprintf("s%d-%d-%d", b, d, sz), uint64(1000+len(files)), sz,
							ext{Off: 0, Disk: 2 * mib, Num: S}, ext{Off: 2 * S, Num: d - 2*S}, ext{Off: d, Disk: 3 * mib, Num: S}))
					}
				}
			}
			files = append(files, fileN("empty-huge", 5000, 1<<63-1), fileN("max", 5001, 1<<63-1, ext{Off: 1<<63 - S, Disk: 2 * mib, Num: S}))
			return batch(e, ls[0], im, files, false)
		}) {
			return
		}
		// Unreadable parts next to readable ones, in every order.
		chunks, bad := badExts()
		for k := 0; k < nBadExts; k++ {
			for _, with := range []bool{true, false} {
				with := with
				k := k
				if !add(fmt.Sprintf("bad/%d/image%v", k, with), func(e *Env) *Violation {
					var im *Image
					if with {
						im = rcvImage(e)
						defer im.Close()
					}
					good := func(i int, off uint64) []ext {
						switch i {
						case 0:
							return nil
						case 1:
							return []ext{{Off: off, Disk: mib + 65536, Num: S}}
						case 2:
							return []ext{{Off: off, Num: S}}
						case 3:
							return []ext{{Off: off, Disk: 64*mib + 4096, Num: S, Pre: true}}
						}
						if off == 0 {
							return []ext{{Off: off, Inline: pat(5, 500)}}
						}
						return []ext{{Off: off, Disk: mib + 65536, EOff: 2 * S, DiskLen: 3 * S, Num: S}}
					}
					its := append([]It{}, chunks...)
					var files []*node
					var extra []It
					for a := 0; a < 5; a++ {
						for b := 0; b < 5; b++ {
							for k2 := -1; k2 < nBadExts; k2++ {
								_, x := bad(k, S)
								end := uint64(3 * S)
								ino := uint64(1000 + len(files))
								x.K.Obj = ino
								extra = append(extra, x)
								if k2 >= 0 {
									_, y := bad(k2, end)
									y.K.Obj = ino
									extra = append(extra, y)
									end += 2 * S
								}
								files = append(files, fileN(fmt.Sprintf("f%d-%d-%d", a, b, k2), ino, end+S-5, append(good(a, 0), good(b, end)...)...))
							}
						}
					}
					its = append(append(its, fsItems(files...)...), extra...)
					return mountFiles(e, false, its, im, false)
				}) {
					return
				}
			}
		}
		// Inline data that is cut short, compressed or encrypted.
		if !add("bad/inline", func(e *Env) *Violation {
			im := rcvImage(e)
			defer im.Close()
			its := append([]It{}, chunks...)
			var files []*node
			var extra []It
			for n := 1; n <= 40; n += 13 {
				for b := 16; b < 20; b++ {
					for _, ram := range []uint64{0, 1, 20, 4096} {
						ino := uint64(1000 + len(files))
						d := encInline(10, pat(1, uint64(n)))
						le.PutUint64(d[8:], uint64(n)+ram)
						if b > 16 {
							d[b] = 1
						}
						extra = append(extra, It{oFS, K{ino, tExtent, 0}, 10, d})
						files = append(files, fileN(fmt.Sprintf("f%d-%d-%d", n, b, ram), ino, uint64(n)+ram))
					}
				}
			}
			its = append(append(its, fsItems(files...)...), extra...)
			return mountFiles(e, false, its, im, false)
		}) {
			return
		}
		// No image: every kind of extent.
		if !add("no-image", func(e *Env) *Violation {
			al := &alloc{l: ls[0]}
			var files []*node
			extSeqs(2, func() *alloc { return al }, func(id string, exts []ext, end uint64) {
				files = append(files, fileN("f"+id, uint64(1000+len(files)), end+3, exts...))
			})
			return batch(e, ls[0], nil, files, false)
		}) {
			return
		}
		// Ordered pairs of reads on selected files, on two handles.
		sel := [][]ext{
			{{Off: 0, Disk: mib, Num: 2 * S}},
			{{Off: 0, Disk: mib, Num: S}, {Off: S, Disk: 3 * mib, Num: S}},
			{{Off: 0, Disk: mib, Num: S}, {Off: S, Num: S}},
			{{Off: S, Disk: mib, Num: S}, {Off: 3 * S, Disk: 2 * mib, Num: S}},
			{{Off: 0, Inline: pat(3, 1000)}, {Off: S, Disk: mib, Num: S}},
			{{Off: 0, Disk: mib, Num: S, Pre: true}, {Off: S, Disk: 2 * mib, EOff: S, DiskLen: 3 * S, Num: 2 * S}},
			{{Off: 0, Inline: pat(3, 1000)}},
			{},
		}
		for i := range sel {
			i := i
			for real := 0; real < 2; real++ {
				real := real == 1
				if !add(fmt.Sprintf("pairs/%d/%v", i, real), func(e *Env) *Violation {
					im := rcvImage(e)
					defer im.Close()
					end := uint64(0)
					for _, x := range sel[i] {
						end = x.Off + x.Num
						if x.Inline != nil {
							end = uint64(len(x.Inline))
						}
					}
					its := append(append([]It{}, ls[0].chunks...), fsItems(fileN("f", 300, end, sel[i]...), fileN("g", 301, end+100, sel[i]...))...)
					return mountFiles(e, real, its, im, !real || i < 2)
				}) {
					return
				}
			}
		}
		// Histories of opening, reading and closing files of several trees
		// that have the same inode numbers.
		steps := 4
		if r.Thorough() {
			steps = 5
		}
		for i := range sameNumbers {
			for j := range sameNumbers {
				i, j := i, j
				if !add(fmt.Sprintf("history/%d-%d", i, j), func(e *Env) *Violation {
					im := rcvImage(e)
					defer im.Close()
					its := append(append([]It{}, ls[0].chunks...), sameNumberTree()...)
					return fileHistories(e, its, im, []int{i, j}, steps)
				}) {
					return
				}
			}
		}
		// The image becomes shorter while it is mounted.
		add("shrink", func(e *Env) (vi *Violation) {
			im := rcvImage(e)
			defer im.Close()
			var m *Mnt
			defer catch(&m, &vi)
			its := append(append([]It{}, ls[0].chunks...), fsItems(fileN("f", 300, 4*S, ext{Off: 0, Disk: 2 * mib, Num: 4 * S}))...)
			m = e.mountModel(false, its, im)
			v := view{newModel(its...)}
			g := m.Walk("rescue")
			for k := uint64(0); k <= 9; k++ {
				im.Size = int64(2*mib + 4*S - k*S/2)
				syscall.Ftruncate(int(im.f.Fd()), im.Size)
				if vi := checkFile(m, v, im, g.node, vref{oFS, 256, ftDir}, "f", false); vi != nil {
					return vi
				}
			}
			return nil
		})
	})
}
