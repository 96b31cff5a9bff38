package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// C07: scans. The reference decides from the image's block list alone which
// items the metadata must hold.
func init() {
	register(&Prop{ID: "C07", Level: "model_checking",
		Rule: "every block kind (leaf sizes, nodes of every level, empty, foreign and near-miss ids, unaligned, superblock copies) at every boundary slot of the image " +
			"and every pair of (slot, kind); every count of items a leaf can hold and sizes; every header field at boundaries; totals around the 10000-item batch; leaves around every power of two up to 8 GiB (thorough: 256 GiB); " +
			"all orders of overlapping leaves; all pairs of leaves that agree or differ in address, generation, tree, flags and items, and triples; all sequences of <= 3 scans of 3 images; block sizes 4K-64K; partial last blocks; " +
			"non-trivial: distinct stored item sets",
		Assumptions: []string{"leaves start at multiples of the block size", "two leaves that state different data for the same (tree, key, generation) may leave either one"},
		Run:         runC07})
}

func recon(e *Env, img, meta string, bs int, id UUID) Res {
	return reconBy(e.CLI, img, meta, bs, id)
}

func reconBy(run func(...string) Res, img, meta string, bs int, id UUID) Res {
	return run("recon", "--metadata="+meta, "--progress=false", "--verbose=false",
		fmt.Sprintf("--block-size=%d", bs), "--id="+id.String(), img)
}

type rawIt struct {
	It
	Off, Size uint32
}

// readIndex returns every stored item version.
func readIndex(path string) (out []rawIt, err error) {
	ix, err := index.OpenReadOnly(path)
	if err != nil {
		return nil, err
	}
	defer ix.Close()
	for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
		_ = v
		k := r.Key()
		raw := []byte(r.Item())
		it := rawIt{It: It{r.Owner(), K{k.ObjectID, k.Type, k.Offset}, r.Generation(), append([]byte(nil), raw[25:]...)}}
		it.Off, it.Size = r.Item().Offset(), r.Item().Size()
		ik := r.Item().Key()
		if ik != k {
			return nil, fmt.Errorf("item stored under key %v has key %v", k, ik)
		}
		out = append(out, it)
	}
	return out, nil
}

func sortIts(its []It) {
	sort.SliceStable(its, func(i, j int) bool {
		a, b := its[i], its[j]
		if a.Owner != b.Owner {
			return a.Owner < b.Owner
		}
		if a.K != b.K {
			return lessK(a.K, b.K)
		}
		return a.Gen < b.Gen
	})
}

// cmpItems compares the stored versions with the expected ones; alt lists the
// acceptable data for versions stated differently by several leaves.
func cmpItems(path string, m *idxModel, alt map[string][][]byte) string {
	got, err := readIndex(path)
	if err != nil {
		return fmt.Sprintf("metadata does not open: %v", err)
	}
	i := 0
	id := func(it It) string { return fmt.Sprintf("%d:%v@%d", it.Owner, it.K, it.Gen) }
	for _, w := range m.items {
		if i >= len(got) {
			return fmt.Sprintf("item %s is missing (%d items stored, %d expected)", id(w), len(got), len(m.items))
		}
		g := got[i]
		if g.Owner != w.Owner || g.K != w.K || g.Gen != w.Gen {
			return fmt.Sprintf("stored item %d is %s, expected %s (%d stored, %d expected)", i, id(g.It), id(w), len(got), len(m.items))
		}
		ok := bytes.Equal(g.Data, w.Data)
		for _, a := range alt[id(w)] {
			ok = ok || bytes.Equal(g.Data, a)
		}
		if !ok {
			return fmt.Sprintf("data of %s: %s", id(w), diffBytes(w.Data, g.Data))
		}
		if int(g.Size) != len(g.Data) {
			return fmt.Sprintf("size of %s is %d, expected %d", id(w), g.Size, len(w.Data))
		}
		i++
	}
	if i < len(got) {
		return fmt.Sprintf("unexpected item %s of %d bytes is stored (%d stored, %d expected)", id(got[i].It), len(got[i].Data), len(got), len(m.items))
	}
	return ""
}

type blk struct {
	off  uint64
	data []byte
	// Items that must be captured from it; nil for blocks to be ignored.
	its []It
}

// kindsC07 are the kinds of blocks a scan may meet. n makes their contents
// distinct.
var kindsC07 = []string{"leaf1", "leaf3", "leaffull", "node", "node255", "empty", "foreign", "near0", "near127", "unaligned", "super", "superlog", "zero", "garbage"}

func mkBlock(kind string, bs int, n int, off uint64) blk {
	it := func(i, sz int) It {
		d := make([]byte, sz)
		for j := range d {
			d[j] = byte(n*31 + i*7 + j)
		}
		return It{Owner: uint64(5 + n%2), K: K{uint64(256 + n), uint8(1 + i*3), uint64(i)}, Gen: uint64(10 + n), Data: d}
	}
	leaf := func(id UUID, its []It) []byte {
		return encLeaf(bs, id, off, uint64(5+n%2), uint64(10+n), its)
	}
	three := []It{it(0, 160), it(4, 40), it(9, 0)}
	switch kind {
	case "leaf1":
		its := []It{it(0, 160)}
		return blk{off, leaf(fsid1, its), its}
	case "leaf3":
		return blk{off, leaf(fsid1, three), three}
	case "leaffull":
		// Item headers and data meet exactly.
		its := append([]It(nil), three...)
		its = append(its, it(12, bs-leafSpace(its)-itemLen))
		return blk{off, leaf(fsid1, its), its}
	case "node":
		b := leaf(fsid1, three)
		b[100] = 1
		return blk{off, b, nil}
	case "node255":
		b := leaf(fsid1, three)
		b[100] = 255
		return blk{off, b, nil}
	case "empty":
		b := leaf(fsid1, three)
		le.PutUint32(b[96:], 0)
		return blk{off, b, nil}
	case "foreign":
		return blk{off, leaf(fsid2, three), nil}
	case "near0":
		u := fsid1
		u[0] ^= 0x80
		return blk{off, leaf(u, three), nil}
	case "near127":
		return blk{off, leaf(fsid1n, three), nil}
	case "unaligned":
		return blk{off + 512, leaf(fsid1, three)[:bs-512], nil}
	case "super", "superlog":
		b := make([]byte, bs)
		copy(b, encSuper(off, kind == "superlog"))
		return blk{off, b, nil}
	case "garbage":
		return blk{off, pat(off, uint64(bs)), nil}
	}
	return blk{off, make([]byte, bs), nil}
}

// encSuper encodes the fields of a superblock that overlap a leaf header.
func encSuper(off uint64, log bool) []byte {
	b := make([]byte, 4096)
	copy(b[32:], fsid1[:])
	le.PutUint64(b[48:], off)
	le.PutUint64(b[56:], 1)
	le.PutUint64(b[64:], 0x4d5f53665248425f)
	le.PutUint64(b[72:], 4711)     // generation
	le.PutUint64(b[80:], 30408704) // root
	le.PutUint64(b[88:], 22020096) // chunk root
	if log {
		le.PutUint64(b[96:], 30523392) // log root: set after a crash
	}
	le.PutUint64(b[112:], 100<<20)
	le.PutUint64(b[128:], 6)
	le.PutUint64(b[136:], 1)
	return b
}

func slotsC07(bs int, size int64) []uint64 {
	b := uint64(bs)
	last := uint64(size)/b*b - b
	return []uint64{0x10000 + b, 0x10000 + 2*b, 0x100000, 0x4000000 - b, 0x4000000, 0x4000000 + b, last - b, last}
}

func sizeFor(bs int) int64 { return 64<<20 + 100*int64(bs) }

// writeBlocks writes blocks to an image that is all zero elsewhere.
func (e *Env) imageWith(name string, size int64, blks []blk) *Image {
	im := e.NewImage(name, size)
	for _, b := range blks {
		if int64(b.off) >= size {
			continue
		}
		d := b.data
		if int64(b.off)+int64(len(d)) > size {
			d = d[:size-int64(b.off)]
		}
		im.Write(b.off, d)
	}
	return im
}

func expectOf(blks []blk) (*idxModel, map[string][][]byte) {
	var all []It
	alt := map[string][][]byte{}
	for _, b := range blks {
		for _, it := range b.its {
			all = append(all, it)
			id := fmt.Sprintf("%d:%v@%d", it.Owner, it.K, it.Gen)
			alt[id] = append(alt[id], it.Data)
		}
	}
	m := newModel(all...)
	return m, alt
}

func descBlks(blks []blk) string {
	s := ""
	for i, b := range blks {
		if i == 6 {
			s += fmt.Sprintf(" ... (%d blocks)", len(blks))
			break
		}
		s += fmt.Sprintf(" [%#x: %d items]", b.off, len(b.its))
	}
	return s
}

// scanCheck scans an image of the given blocks into a fresh file and compares.
func scanCheck(e *Env, what string, bs int, size int64, blks []blk) *Violation {
	im := e.imageWith("img", size, blks)
	im.Close()
	meta := e.Path("meta")
	os.Remove(meta)
	run := e.CLI
	if size > 100<<30 {
		run = e.Exec // takes a minute
	}
	res := reconBy(run, im.Path, meta, bs, fsid1)
	e.r.State(1)
	e.r.Trace(1)
	m, alt := expectOf(blks)
	e.r.Trans(len(m.items) + len(blks))
	if res.Exit != 0 || res.crashed() {
		return viol("%s: recon fails: %s", what, res.brief())
	}
	if res.Stderr != "" {
		return viol("%s: recon warns about an intact image: %s", what, res.brief())
	}
	e.r.Outcome(itemsString(m.items))
	if d := cmpItems(meta, m, alt); d != "" {
		return viol("%s (block size %d, image of %d bytes,%s): %s", what, bs, size, descBlks(blks), d)
	}
	return nil
}

func runC07(r *Runner) {
	sizes := []int{4096, 16384, 65536}
	if r.Thorough() {
		sizes = []int{4096, 8192, 16384, 32768, 65536}
	}
	r.ForEach(func(yield func(Case) bool) {
		// Leaves that are almost taken for a superblock.
		for _, bs := range sizes[:2] {
			bs := bs
			if !yield(Case{fmt.Sprintf("magic/%d", bs), func(e *Env) *Violation {
				var blks []blk
				at := uint64(0x4000000 - 20*bs)
				for bit := 0; bit < 64; bit++ {
					b := mkBlock("leaf3", bs, bit, at)
					le.PutUint64(b.data[64:], 0x4d5f53665248425f^1<<uint(bit))
					setCsum(b.data)
					blks = append(blks, b)
					at += uint64(bs)
				}
				return scanCheck(e, "leaves with almost the magic of superblocks", bs, sizeFor(bs), blks)
			}}) {
				return
			}
		}
		for _, bs := range sizes {
			bs := bs
			size := sizeFor(bs)
			slots := slotsC07(bs, size)
			pairKinds := kindsC07
			for si, s := range slots {
				for _, k := range kindsC07 {
					s, k := s, k
					if k == "unaligned" && si == len(slots)-1 || (k == "super" || k == "superlog") && s != 0x4000000 {
						continue
					}
					if !yield(Case{fmt.Sprintf("one/bs%d/%#x/%s", bs, s, k), func(e *Env) *Violation {
						return scanCheck(e, "one "+k, bs, size, []blk{mkBlock(k, bs, 1, s)})
					}}) {
						return
					}
				}
			}
			for i := 0; i < len(slots); i++ {
				for j := i + 1; j < len(slots); j++ {
					i, j := i, j
					for _, k1 := range pairKinds {
						k1 := k1
						if k1[0] == 's' && slots[i] != 0x4000000 {
							continue
						}
						if !yield(Case{fmt.Sprintf("two/bs%d/%d-%d/%s", bs, i, j, k1), func(e *Env) *Violation {
							for _, k2 := range pairKinds {
								if k2[0] == 's' && slots[j] != 0x4000000 {
									continue
								}
								if v := scanCheck(e, k1+" and "+k2, bs, size, []blk{mkBlock(k1, bs, 1, slots[i]), mkBlock(k2, bs, 2, slots[j])}); v != nil {
									return v
								}
							}
							return nil
						}}) {
							return
						}
					}
				}
			}
		}
		if r.Thorough() {
			ks := []string{"leaf3", "leaffull", "node", "empty", "foreign", "unaligned"}
			bs := 4096
			slots := slotsC07(bs, sizeFor(bs))
			for m := 0; m < 1<<uint(len(slots)); m++ {
				var ss []uint64
				for i, s := range slots {
					if m>>uint(i)&1 == 1 {
						ss = append(ss, s)
					}
				}
				if len(ss) != 3 {
					continue
				}
				for _, a := range ks {
					for _, b := range ks {
						a, b := a, b
						if !yield(Case{fmt.Sprintf("three/%d/%s-%s", m, a, b), func(e *Env) *Violation {
							for _, c := range ks {
								if v := scanCheck(e, a+", "+b+" and "+c, bs, sizeFor(bs), []blk{mkBlock(a, bs, 1, ss[0]), mkBlock(b, bs, 2, ss[1]), mkBlock(c, bs, 3, ss[2])}); v != nil {
									return v
								}
							}
							return nil
						}}) {
							return
						}
					}
				}
			}
		}
		// Superblock mirrors always present, leaves everywhere else.
		for _, bs := range sizes {
			bs := bs
			if !yield(Case{fmt.Sprintf("dense/bs%d", bs), func(e *Env) *Violation {
				size := sizeFor(bs)
				var blks []blk
				n := 0
				for _, base := range []uint64{0x10000, 0x400000, 0x4000000 - 20*uint64(bs), 0x4000000 + 60*uint64(bs)} {
					for i := uint64(1); i < 40; i++ {
						off := base + i*uint64(bs)
						if off == 0x4000000 {
							blks = append(blks, mkBlock("superlog", bs, 0, off))
							continue
						}
						n++
						k := kindsC07[n%len(kindsC07)]
						if k[0] == 's' {
							k = "leaf3"
						}
						blks = append(blks, mkBlock(k, bs, n, off))
					}
				}
				return scanCheck(e, "dense image", bs, size, blks)
			}}) {
				return
			}
		}
		// Devices beyond 4 GiB, and in the thorough tier beyond the last
		// superblock copy at 256 GiB.
		bigs := []struct {
			bs   int
			size int64
		}{{16384, 4<<30 + 64<<14}, {65536, 9<<30 + 40<<16}}
		if r.Thorough() {
			bigs = append(bigs, struct {
				bs   int
				size int64
			}{65536, 256<<30 + 40<<16})
		}
		for _, g := range bigs {
			g := g
			if !yield(Case{fmt.Sprintf("large/bs%d/%d", g.bs, g.size), func(e *Env) *Violation {
				var blks []blk
				n := 0
				last := uint64(g.size) - uint64(g.bs)
				seen := map[uint64]bool{last: true}
				for _, c := range []uint64{1 << 27, 1 << 28, 1 << 29, 1 << 30, 1 << 31, 3 << 30, 1 << 32, 1<<32 + 1<<16, 1 << 33, 0x4000000000} {
					for d := int64(-2); d <= 2; d++ {
						off := uint64(int64(c) + d*int64(g.bs))
						if off > last || seen[off] {
							continue
						}
						seen[off] = true
						n++
						k := []string{"leaf3", "leaf1", "leaffull", "node", "foreign", "leaf3", "garbage"}[n%7]
						if d == 0 {
							k = "leaf3"
						}
						if off == 0x4000000000 {
							k = "superlog"
						}
						blks = append(blks, mkBlock(k, g.bs, n, off))
					}
				}
				blks = append(blks, mkBlock("leaf3", g.bs, n+1, last))
				return scanCheck(e, "large device", g.bs, g.size, blks)
			}}) {
				return
			}
		}
		// Every number of items a leaf can hold.
		for _, bs := range sizes {
			for _, sz := range []int{0, 1, 53, 160, 500} {
				bs, sz := bs, sz
				if !yield(Case{fmt.Sprintf("counts/bs%d/size%d", bs, sz), func(e *Env) *Violation {
					max := (bs - hdrLen) / (itemLen + sz)
					var blks []blk
					off := uint64(0x10000)
					total := 0
					for n := 1; n <= max; n++ {
						if max > 130 && n > 60 && n < max-60 && n%37 != 0 {
							continue
						}
						var its []It
						for i := 0; i < n; i++ {
							its = append(its, It{5, K{uint64(256 + i), uint8(i), uint64(n)}, uint64(n), bytes.Repeat([]byte{byte(n), byte(i), 1}, sz/3+1)[:sz]})
						}
						off += uint64(bs)
						blks = append(blks, blk{off, encLeaf(bs, fsid1, off, 5, uint64(n), its), its})
						total += n
						if total > 120000 {
							break
						}
					}
					return scanCheck(e, "leaves with every item count", bs, sizeFor(bs), blks)
				}}) {
					return
				}
			}
		}
		// Item sizes 0..all that fits.
		for _, bs := range sizes {
			bs := bs
			if !yield(Case{fmt.Sprintf("sizes/bs%d", bs), func(e *Env) *Violation {
				var blks []blk
				off := uint64(0x10000)
				max := bs - hdrLen - itemLen
				for n := 0; n <= max; n++ {
					if n > 300 && n < max-40 && n%(max/40) != 0 {
						continue
					}
					its := []It{{7, K{1, 128, uint64(n)}, 3, pat(uint64(n*8), uint64(n))}}
					off += uint64(bs)
					blks = append(blks, blk{off, encLeaf(bs, fsid1, off, 7, 3, its), its})
				}
				return scanCheck(e, "leaves with every item size", bs, sizeFor(bs), blks)
			}}) {
				return
			}
		}
		// Header fields.
		yield(Case{"header", func(e *Env) *Violation { return c07Header(e, 4096) }})
		yield(Case{"levels", func(e *Env) *Violation {
			var blks []blk
			for l := 0; l < 256; l++ {
				b := mkBlock("leaf3", 4096, l, 0x20000+uint64(l)*4096)
				b.data[100] = byte(l)
				if l != 0 {
					b.its = nil
				}
				blks = append(blks, b)
			}
			return scanCheck(e, "blocks of every level", 4096, sizeFor(4096), blks)
		}})
		// Around the batch limit.
		totals := []int{9999, 10000, 10001, 10002, 20001, 20002, 20003}
		if r.Thorough() {
			totals = append(totals, 30003, 40004, 100000)
		}
		for _, tot := range totals {
			tot := tot
			if !yield(Case{fmt.Sprintf("batch/%d", tot), func(e *Env) *Violation {
				return scanCheck(e, fmt.Sprintf("%d items", tot), 16384, sizeFor(16384), manyLeaves(16384, tot, 0x20000))
			}}) {
				return
			}
		}
		// Device sizes that are not a multiple of the block size.
		for _, bs := range sizes {
			for _, extra := range []int64{0, 1, 511, 512, int64(bs) / 2, int64(bs) - 1, int64(bs), int64(bs) + 1} {
				bs, extra := bs, extra
				if !yield(Case{fmt.Sprintf("tail/bs%d/%d", bs, extra), func(e *Env) *Violation {
					size := sizeFor(bs) + extra
					b := uint64(bs)
					last := uint64(size)/b*b - b
					blks := []blk{mkBlock("leaf3", bs, 1, last), mkBlock("leaf1", bs, 2, last-b), mkBlock("leaffull", bs, 3, last+b)}
					blks[2].its = nil // partial
					return scanCheck(e, "partial last block", bs, size, blks)
				}}) {
					return
				}
			}
		}
		// Leaves that agree or differ in address, generation, tree, flags and
		// items, in every order and at every distance.
		type lk struct{ addr, gen, owner, flags, items int }
		var lks, lks3 []lk
		for i := 0; i < 48; i++ {
			l := lk{i % 2, i / 2 % 2, i / 4 % 2, i / 8 % 2, i / 16}
			lks = append(lks, l)
			if l.owner == 0 && l.flags == 0 {
				lks3 = append(lks3, l)
			}
		}
		mk := func(off uint64, l lk) blk {
			g, ow := uint64(3+6*l.gen), uint64(5+2*l.owner)
			var its []It
			switch l.items {
			case 0:
				its = []It{{ow, K{256, 1, 0}, g, longD("inode")}, {ow, K{256, 108, 0}, g, longD("extent")}}
			case 1:
				its = []It{{ow, K{256, 1, 0}, g, longD("other")}, {ow, K{256, 108, 4096}, g, longD("extent 2")}}
			case 2:
				its = []It{{ow, K{300, 1, 0}, g, longD("another inode")}}
			}
			b := encLeaf(4096, fsid1, uint64(1<<30+l.addr<<20), ow, g, its)
			if l.flags == 1 {
				le.PutUint64(b[56:], 0x0100000000000003)
				copy(b[64:80], fsid2[:])
				setCsum(b)
			}
			return blk{off, b, its}
		}
		for i, a := range lks {
			i, a := i, a
			if !yield(Case{fmt.Sprintf("kin/%d", i), func(e *Env) *Violation {
				for _, b := range lks {
					for _, gap := range []uint64{4096, 2 << 20} {
						if v := scanCheck(e, fmt.Sprintf("leaves %+v, %+v", a, b), 4096, sizeFor(4096), []blk{mk(0x20000, a), mk(0x20000+gap, b)}); v != nil {
							return v
						}
					}
				}
				for _, b := range lks3 {
					for _, c := range lks3 {
						if a.owner+a.flags > 0 && e.r.Quick() {
							continue
						}
						if v := scanCheck(e, fmt.Sprintf("leaves %+v, %+v, %+v", a, b, c), 4096, sizeFor(4096),
							[]blk{mk(0x20000, a), mk(0x21000, b), mk(0x400000, c)}); v != nil {
							return v
						}
					}
				}
				return nil
			}}) {
				return
			}
		}
		// Orders of overlapping leaves.
		perms := permutations(4)
		for pi, p := range perms {
			p := p
			if !yield(Case{fmt.Sprintf("order/%d", pi), func(e *Env) *Violation {
				var blks []blk
				for pos, n := range p {
					off := uint64(0x20000 + pos*4096)
					var its []It
					for i := 0; i < 3; i++ {
						its = append(its, It{5, K{256, 108, uint64((n + i) * 4096)}, uint64(3 + n/2), longD(fmt.Sprint("n", n/2, n+i))})
					}
					blks = append(blks, blk{off, encLeaf(4096, fsid1, off, 5, uint64(3+n/2), its), its})
				}
				return scanCheck(e, "overlapping leaves", 4096, sizeFor(4096), blks)
			}}) {
				return
			}
		}
		// Histories of scans into one file.
		depth := 2
		if r.Thorough() {
			depth = 3
		}
		var seqs [][]int
		var rec func(s []int)
		rec = func(s []int) {
			if len(s) > 0 {
				seqs = append(seqs, append([]int(nil), s...))
			}
			if len(s) == depth {
				return
			}
			for i := 0; i < 4; i++ {
				rec(append(s, i))
			}
		}
		rec(nil)
		for _, s := range seqs {
			s := s
			if !yield(Case{fmt.Sprintf("scans/%v", s), func(e *Env) *Violation { return c07Scans(e, s) }}) {
				return
			}
		}
		yield(Case{"real-binary", func(e *Env) *Violation {
			blks := append(manyLeaves(16384, 12000, 0x20000), mkBlock("superlog", 16384, 1, 0x4000000), mkBlock("leaf3", 16384, 2, 0x4000000+16384))
			im := e.imageWith("img", sizeFor(16384), blks)
			im.Close()
			meta := e.Path("meta-real")
			os.Remove(meta)
			res := e.Exec("recon", "--metadata="+meta, "--progress=false", "--id="+fsid1.String(), im.Path)
			if res.Exit != 0 {
				return viol("recon fails: %s", res.brief())
			}
			m, alt := expectOf(blks)
			e.r.Trace(1)
			if d := cmpItems(meta, m, alt); d != "" {
				return viol("real binary: %s", d)
			}
			return nil
		}})
	})
}

func permutations(n int) [][]int {
	var out [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>uint(i)&1 == 0 {
				rec(append(p, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return out
}

// manyLeaves makes leaves holding tot small items in total.
func manyLeaves(bs, tot int, off uint64) []blk {
	var blks []blk
	per := (bs - hdrLen) / (itemLen + 2)
	for n := 0; n < tot; {
		var its []It
		for len(its) < per && n < tot {
			its = append(its, It{5, K{uint64(256 + n), 48, uint64(n)}, 9, []byte{byte(n), byte(n >> 8)}})
			n++
		}
		blks = append(blks, blk{off, encLeaf(bs, fsid1, off, 5, 9, its), its})
		off += uint64(bs)
	}
	return blks
}

// c07Header sets header fields of a leaf to boundary values that must not
// change what is captured, or must select exactly this block.
func c07Header(e *Env, bs int) *Violation {
	var blks []blk
	n := 0
	add := func(edit func(b []byte) (owner, gen uint64, ok bool)) {
		n++
		off := 0x20000 + uint64(n*bs)
		its := []It{{5, K{uint64(1000 + n), 1, 0}, 7, longD(fmt.Sprint("h", n))}, {5, K{uint64(1000 + n), 108, 4096}, 7, longD(fmt.Sprint("x", n))}}
		d := encLeaf(bs, fsid1, off, 5, 7, its)
		o, g, ok := edit(d)
		for i := range its {
			its[i].Owner, its[i].Gen = o, g
		}
		if !ok {
			its = nil
		}
		blks = append(blks, blk{off, d, its})
	}
	vals := []uint64{0, 1, 255, 256, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, max64 - 1, max64}
	for _, v := range vals {
		v := v
		if v != max64 { // tree number 2^64-1 is the metadata marker
			add(func(b []byte) (uint64, uint64, bool) { le.PutUint64(b[88:], v); return v, 7, true })
		}
		add(func(b []byte) (uint64, uint64, bool) { le.PutUint64(b[80:], v); return 5, v, true })
		add(func(b []byte) (uint64, uint64, bool) { le.PutUint64(b[48:], v); return 5, 7, true })
		add(func(b []byte) (uint64, uint64, bool) { le.PutUint64(b[56:], v); return 5, 7, true })
		add(func(b []byte) (uint64, uint64, bool) { le.PutUint64(b[64:], v); return 5, 7, true })
		add(func(b []byte) (uint64, uint64, bool) { le.PutUint64(b[0:], v); return 5, 7, true })
	}
	for bit := 0; bit < 128; bit++ {
		bit := bit
		add(func(b []byte) (uint64, uint64, bool) { b[32+bit/8] ^= 1 << uint(bit%8); return 5, 7, false })
	}
	// Keys at boundaries.
	for _, a := range vals {
		for _, ty := range []uint8{0, 1, 127, 128, 255} {
			n++
			off := 0x20000 + uint64(n*bs)
			its := []It{{5, K{a, ty, 1}, 8, longD(fmt.Sprint(a))}, {5, K{77, ty, a}, 8, longD(fmt.Sprint(a, ty))}}
			blks = append(blks, blk{off, encLeaf(bs, fsid1, off, 5, 8, its), its})
		}
	}
	return scanCheck(e, "header and key fields at boundaries", bs, sizeFor(bs), blks)
}

// c07Scans runs a sequence of scans of up to four images into one file.
func c07Scans(e *Env, seq []int) *Violation {
	const bs = 16384
	size := sizeFor(bs)
	imgs := [][]blk{
		{mkBlock("leaf3", bs, 1, 0x20000), mkBlock("leaffull", bs, 2, 0x40000)},
		{mkBlock("leaf3", bs, 1, 0x80000), mkBlock("leaf1", bs, 3, 0x20000)},
		append(manyLeaves(bs, 10500, 0x100000), mkBlock("leaf1", bs, 4, 0x20000)),
		nil,
	}
	meta := e.Path("meta")
	os.Remove(meta)
	var all []blk
	for step, s := range seq {
		im := e.imageWith("img", size, imgs[s])
		im.Close()
		res := recon(e, im.Path, meta, bs, fsid1)
		all = append(all, imgs[s]...)
		e.r.State(1)
		e.r.Trace(1)
		if res.Exit != 0 || res.Stderr != "" {
			return viol("scan %d of %v: %s", step, seq, res.brief())
		}
		m, alt := expectOf(all)
		e.r.Trans(len(m.items))
		if d := cmpItems(meta, m, alt); d != "" {
			return viol("after scan %d of %v: %s", step, seq, d)
		}
	}
	return nil
}
