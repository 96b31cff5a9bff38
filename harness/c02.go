package main

import (
	"bytes"
	"fmt"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// C02: range iteration.
func init() {
	register(&Prop{ID: "C02", Level: "model_checking",
		Rule: "every set of up to 3 (quick) or 4 (thorough) item versions over 2 trees x 5 keys x 3 generations, iterated over every " +
			"interval of 13 bounds (stored and absent keys, open ends) at every generation; all generation patterns of three " +
			"adjacent keys; every derived listing over boundary ids; multi-page indices; non-trivial: distinct iteration results",
		Assumptions: []string{"a key equal to the upper bound belongs to the interval, as the documentation of Range says"},
		Run:         runC02})
}

type rangeEl struct {
	it   It
	data []byte
}

// walk drains a range with a bound on the number of steps.
func walk(rg index.Range, first []byte, limit int) (out []rangeEl, ended bool) {
	v := first
	for n := 0; rg.HasNext(); n++ {
		if n > limit {
			return out, false
		}
		k := rg.Key()
		out = append(out, rangeEl{It{rg.Owner(), K{k.ObjectID, k.Type, k.Offset}, rg.Generation(), append([]byte(nil), rg.Item().Data()...)}, append([]byte(nil), v...)})
		v = rg.Next()
	}
	return out, true
}

func cmpRange(what string, m *idxModel, got []rangeEl, ended bool, want []It) *Violation {
	d := func() string {
		s := ""
		for i, g := range got {
			if i == 12 {
				s += " ..."
				break
			}
			s += fmt.Sprintf(" %d:%v@%d", g.it.Owner, g.it.K, g.it.Gen)
		}
		return s
	}
	if !ended {
		return viol("%s over index {%s}: iteration does not end, yields%s", what, itemsString(m.items), d())
	}
	for i, g := range got {
		if i >= len(want) {
			return viol("%s over index {%s}: yields%s, which is more than {%s}", what, itemsString(m.items), d(), itemsString(want))
		}
		w := want[i]
		if g.it.Owner != w.Owner || g.it.K != w.K || g.it.Gen != w.Gen {
			return viol("%s over index {%s}: yields%s, expected {%s}", what, itemsString(m.items), d(), itemsString(want))
		}
		if !bytes.Equal(g.data, w.Data) || !bytes.Equal(g.it.Data, w.Data) {
			return viol("%s over index {%s}: data of %v is %q / %q, expected %q", what, itemsString(m.items), w.K, g.data, g.it.Data, w.Data)
		}
	}
	if len(got) < len(want) {
		return viol("%s over index {%s}: yields%s, expected {%s}", what, itemsString(m.items), d(), itemsString(want))
	}
	return nil
}

func exploreRanges(e *Env, its []It, owners []uint64, bounds []K, gens []uint64) *Violation {
	p := e.Path("ix")
	writeIndex(p, 16384, its)
	m := newModel(its...)
	ix := openRO(p, max64)
	defer ix.Close()
	e.r.State(1)
	e.r.Trace(1)
	for _, g := range gens {
		ix.Generation = g
		for _, o := range owners {
			for _, a := range bounds {
				for _, b := range bounds {
					if lessK(b, a) {
						continue
					}
					rg, v := ix.Range(o, ixKey(a), ixKey(b))
					if rg.Index() != ix {
						return viol("Range.Index() is not the index it was made from")
					}
					got, ended := walk(rg, v, len(its)+2)
					e.r.Trans(len(got) + 1)
					want := m.ranged(o, a, b, g)
					if v := cmpRange(fmt.Sprintf("range of tree %d from %v to %v at generation %d", o, a, b, g), m, got, ended, want); v != nil {
						return v
					}
					if len(want) > 0 {
						e.r.Outcome(fmt.Sprint(g, o, a, b, itemsString(want)))
					}
				}
			}
		}
	}
	return nil
}

func runC02(r *Runner) {
	keys := []K{{256, tDirItem, 5}, {256, tDirItem, 7}, {256, tDirItem, max64}, {257, tDirItem, 5}, {256, tExtent, 0}}
	gens := []uint64{1, 5, 9}
	owners := []uint64{5, 6}
	qgens := []uint64{0, 1, 3, 5, 9, max64}
	bounds := append([]K{}, keys...)
	bounds = append(bounds, K{0, 0, 0}, K{256, tDirItem, 0}, K{256, tDirItem, 6}, K{0, tDirItem, 0},
		K{lastFree, tDirItem, max64}, K{lastFree, 255, max64}, K{256, tInode, 0}, K{258, tDirItem, 0})
	var alpha []It
	for _, o := range owners {
		for _, k := range keys {
			for _, g := range gens {
				alpha = append(alpha, It{o, k, g, longD(fmt.Sprint(o, k, g))})
			}
		}
	}
	max := 3
	if r.Thorough() {
		max = 4
	}
	r.ForEach(func(yield func(Case) bool) {
		if !yield(Case{"set/empty", func(e *Env) *Violation {
			return exploreRanges(e, nil, []uint64{0, 5, 6, max64 - 1}, bounds, qgens)
		}}) {
			return
		}
		for sz := 1; sz <= max; sz++ {
			for i := range alpha {
				sz, i := sz, i
				if !yield(Case{fmt.Sprintf("set/%d/%d", sz, i), func(e *Env) *Violation {
					var v *Violation
					subsets(len(alpha)-i-1, sz-1, sz-1, func(s []int) bool {
						its := []It{alpha[i]}
						for _, x := range s {
							its = append(its, alpha[i+1+x])
						}
						v = exploreRanges(e, its, owners, bounds, qgens)
						return v == nil && !e.r.expired()
					})
					return v
				}}) {
					return
				}
			}
		}
		// Every combination of generation sets of three adjacent keys, with
		// neighbours in the surrounding trees.
		masks := 8
		kk := []K{{256, tExtent, 0}, {256, tExtent, 4096}, {256, tExtent, 8192}}
		for x := 0; x < masks*masks*masks; x++ {
			x := x
			if !yield(Case{fmt.Sprintf("gens/%d", x), func(e *Env) *Violation {
				var its []It
				y := x
				for _, k := range kk {
					for b := 0; b < 3; b++ {
						if y&1 != 0 {
							its = append(its, It{5, k, []uint64{0, 5, max64}[b], longD(fmt.Sprint(k, b))})
						}
						y >>= 1
					}
				}
				its = append(its, It{4, K{256, tExtent, 0}, 5, longD("l")}, It{6, K{256, tExtent, 4096}, 5, longD("r")},
					It{5, K{255, tExtent, 4096}, 5, longD("p")}, It{5, K{257, tExtent, 4096}, 5, longD("n")})
				return exploreRanges(e, its, []uint64{4, 5, 6}, []K{{256, tExtent, 0}, {256, tExtent, 1}, {256, tExtent, 4096}, {256, tExtent, 8192}, {256, tExtent, max64}, {lastFree, 255, max64}}, []uint64{0, 1, 5, 6, max64})
			}}) {
				return
			}
		}
		// Trees and ids at the ends of their ranges.
		ext := []It{}
		for _, o := range []uint64{0, 1, 255, 256, max64 - 1} {
			for _, k := range []K{{0, 0, 0}, {0, 255, max64}, {max64, 0, 0}, {max64, 255, max64}, {256, 1, 0}, {lastFree, 132, 5}} {
				for _, g := range []uint64{0, max64} {
					ext = append(ext, It{o, k, g, longD(fmt.Sprint(o, k, g))})
				}
			}
		}
		eb := []K{{0, 0, 0}, {256, 1, 0}, {0, 132, 0}, {lastFree, 132, 5}, {0, 255, 0}, {lastFree, 255, max64}, {max64, 255, max64}}
		for i := range ext {
			i := i
			if !yield(Case{fmt.Sprintf("ends/%d", i), func(e *Env) *Violation {
				for j := i; j < len(ext); j++ {
					if v := exploreRanges(e, []It{ext[i], ext[j]}, []uint64{0, 1, 255, 256, max64 - 1}, eb, []uint64{0, max64}); v != nil {
						return v
					}
				}
				return nil
			}}) {
				return
			}
		}
		ids := []uint64{1, 5, 255, 256, 257, 258, 1 << 32, lastFree}
		for mask := 0; mask < 1<<len(ids); mask++ {
			mask := mask
			if !yield(Case{fmt.Sprintf("derived/%d", mask), func(e *Env) *Violation { return derivedListings(e, ids, mask) }}) {
				return
			}
		}
		for _, sz := range []int{0, 300, 4000} {
			sz := sz
			if !yield(Case{fmt.Sprintf("pages/%d", sz), func(e *Env) *Violation {
				var its []It
				for i := 0; i < 120; i++ {
					for g := uint64(1); g <= uint64(1+i%5); g++ {
						its = append(its, It{5, K{256 + uint64(i/40), tCsum, uint64(i) * 4096}, g * 3, bytes.Repeat([]byte{byte(i), byte(g)}, sz)})
					}
				}
				return exploreRanges(e, its, []uint64{5}, []K{{256, tCsum, 0}, {256, tCsum, 40960}, {257, tCsum, 0}, {258, tCsum, max64}}, []uint64{0, 3, 4, 9, 15, max64})
			}}) {
				return
			}
		}
	})
}

// derivedListings compares the listings the commands use with the model.
func derivedListings(e *Env, ids []uint64, mask int) *Violation {
	var its []It
	owners := []uint64{5, 256}
	for i, id := range ids {
		if mask>>i&1 == 0 {
			continue
		}
		g := uint64(3 + i%2*4)
		its = append(its, It{oRoot, K{id, tRoot, 0}, g, encRoot(g)})
		if i%2 == 0 {
			its = append(its, It{oRoot, K{id, tRoot, uint64(i + 1)}, g + 1, encRoot(g + 1)},
				It{oRoot, K{id, tRoot, 0}, g + 2, encRoot(g + 2)})
		}
		its = append(its, It{oRoot, K{id, tRootRef, 256}, g, longD("rootref-------------")})
		for _, o := range owners {
			for _, t := range []uint8{tDirItem, tXattr, tDirIndex} {
				for _, off := range []uint64{0, 77, 0xffffffff} {
					if (int(off)+i)%3 == 1 {
						continue
					}
					its = append(its, It{o, K{id, t, off}, g, encDirents(dirent{Loc: K{id, 1, off}, Type: t, Name: fmt.Sprint(o, off)})})
				}
			}
			for _, off := range []uint64{0, 4096, 1 << 40} {
				its = append(its, It{o, K{id, tExtent, off}, g + off%3, encExtent(extT{Type: 1, Disk: id, Num: off + 1})})
			}
		}
		its = append(its, It{oChunk, K{256, tChunk, id << 20}, g, simpleChunk(1<<20, 1, id)},
			It{oChunk, K{256, tChunk, id << 20}, g + 1, simpleChunk(1<<20, 2, id)},
			It{oChunk, K{257, tChunk, id << 20}, g, simpleChunk(1<<20, 9, id)},
			It{oChunk, K{1, tDevItem, id}, g, append([]byte{byte(i)}, make([]byte, 97)...)},
			It{oChunk, K{2, tDevItem, id}, g, append([]byte{99}, make([]byte, 97)...)})
	}
	// At the ends of the range of subvolumes.
	for i, k := range []K{{lastFree, tRoot, 0}, {lastFree, tRoot, 9}, {lastFree, tRoot, max64}, {lastFree + 1, tRoot, 0}, {255, tRoot, max64}, {256, tRoot, max64}} {
		if (mask+i)%3 > 0 || mask%2 > 0 {
			its = append(its, It{oRoot, k, 4, encRoot(4)})
		}
	}
	p := e.Path("ix")
	writeIndex(p, 16384, its)
	m := newModel(its...)
	ix := openRO(p, max64)
	defer ix.Close()
	e.r.State(1)
	e.r.Trace(1)
	chk := func(what string, rg index.Range, first []byte, want []It, g uint64) *Violation {
		got, ended := walk(rg, first, len(its)+2)
		e.r.Trans(len(got) + 1)
		if len(want) > 0 {
			e.r.Outcome(what + fmt.Sprint(g) + itemsString(want))
		}
		return cmpRange(fmt.Sprintf("%s at generation %d", what, g), m, got, ended, want)
	}
	for _, g := range []uint64{0, 3, 4, 5, max64} {
		ix.Generation = g
		rg, f := ix.Subvolumes()
		if v := chk("Subvolumes", rg, f, m.ranged(oRoot, K{256, tRoot, 0}, K{lastFree, tRoot, max64}, g), g); v != nil {
			return v
		}
		c, cf := ix.Chunks()
		if v := chk("Chunks", c, cf, m.ranged(oChunk, K{256, tChunk, 0}, K{256, tChunk, max64}, g), g); v != nil {
			return v
		}
		d, df := ix.DevItems()
		if v := chk("DevItems", d, df, m.ranged(oChunk, K{1, tDevItem, 0}, K{1, tDevItem, max64}, g), g); v != nil {
			return v
		}
		for _, o := range []uint64{4, 5, 256, 257} {
			for _, id := range ids {
				a, af := ix.DirItems(o, id)
				if v := chk(fmt.Sprintf("DirItems(%d,%d)", o, id), a, af, m.ranged(o, K{id, tDirItem, 0}, K{id, tDirItem, max64}, g), g); v != nil {
					return v
				}
				x, xf := ix.XAttrItems(o, id)
				if v := chk(fmt.Sprintf("XAttrItems(%d,%d)", o, id), x, xf, m.ranged(o, K{id, tXattr, 0}, K{id, tXattr, max64}, g), g); v != nil {
					return v
				}
				f, ff := ix.FileExtentItems(o, id)
				if v := chk(fmt.Sprintf("FileExtentItems(%d,%d)", o, id), f, ff, m.ranged(o, K{id, tExtent, 0}, K{id, tExtent, max64}, g), g); v != nil {
					return v
				}
				q, qf := ix.RangeAll(o, tDirIndex, id)
				if v := chk(fmt.Sprintf("RangeAll(%d,%d)", o, id), q, qf, m.ranged(o, K{id, tDirIndex, 0}, K{id, tDirIndex, max64}, g), g); v != nil {
					return v
				}
			}
		}
	}
	// Key helpers used to build bounds.
	for _, a := range []uint64{0, 1, 84, 255} {
		for _, b := range []uint64{0, 256, max64} {
			for _, c := range []uint64{0, 7, max64} {
				e.r.Trans(1)
				if index.KF(a, b, c) != (btrfs.Key{ObjectID: b, Type: uint8(a), Offset: c}) || index.KL(a, b, c) != index.KF(a, b, c) ||
					index.KF(a, b) != (btrfs.Key{ObjectID: b, Type: uint8(a)}) || index.KF(a) != (btrfs.Key{Type: uint8(a)}) || index.KF() != (btrfs.Key{}) ||
					index.KL(a, b) != (btrfs.Key{ObjectID: b, Type: uint8(a), Offset: max64}) {
					return viol("key helper: KF/KL(%d,%d,%d) build wrong keys", a, b, c)
				}
			}
		}
	}
	return nil
}
