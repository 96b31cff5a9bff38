package main

import (
	"bytes"
	"fmt"
	"os"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// C01: point lookup over insert histories.
func init() {
	register(&Prop{ID: "C01", Level: "model_checking",
		Rule: "every insert sequence of length 0..3 (quick) or 0..4 (thorough) over 2 trees x 2 keys x 4 generations {0,1,5,max}, " +
			"every set of up to 3 (4) versions over a boundary alphabet of trees/keys/generations, each looked up at every " +
			"(tree,key,generation) before commit, after commit+reopen and through a generation-limited open; typed lookups; a " +
			"multi-page index; non-trivial: distinct (set, answers)",
		Assumptions: []string{"bbolt itself stores and orders keys correctly"},
		Run:         runC01})
}

func openRO(path string, gen uint64) *index.Index {
	ix, err := index.Open(path, 0644, &index.Options{ReadOnly: true, Generation: gen})
	if err != nil {
		panic(err)
	}
	return ix
}

// dataFor makes the payload of the n-th insert.
// longD is s padded to at least the length of any fixed-size item, as in a
// real file system (shorter items are damaged ones).
func longD(s string) []byte {
	d := bytes.Repeat([]byte{'.'}, 160+len(s)%7)
	copy(d, s)
	return d
}

func dataFor(n int) []byte { return longD(fmt.Sprintf("payload-%d", n)) }

func checkLookup(ix *index.Index, m *idxModel, o uint64, k K, g uint64, what string) *Violation {
	ix.Generation = g
	got := ix.FindItem(o, ixKey(k))
	want := m.lookup(o, k, g)
	if want == nil {
		if got != nil {
			return viol("%s: index {%s}: lookup of %d:%v at generation %d returned %q, but that key was never stored",
				what, itemsString(m.items), o, k, g, short(string(got), 60))
		}
		return nil
	}
	if got == nil {
		return viol("%s: index {%s}: lookup of %d:%v at generation %d found nothing, expected version %d",
			what, itemsString(m.items), o, k, g, want.Gen)
	}
	if !bytes.Equal(got.Data(), want.Data) {
		return viol("%s: index {%s}: lookup of %d:%v at generation %d returned data %q, expected %q of version %d",
			what, itemsString(m.items), o, k, g, short(string(got.Data()), 60), short(string(want.Data), 60), want.Gen)
	}
	if gk := got.Key(); gk != ixKey(k) {
		return viol("%s: lookup of %d:%v at %d returned an item with key %v", what, o, k, g, gk)
	}
	return nil
}

type probe struct {
	o uint64
	k K
	g uint64
}

// exploreIndex inserts its, probes the open index, commits, reopens and
// probes again.
func exploreIndex(e *Env, its []It, probes []probe, deep bool) *Violation {
	r := e.r
	p := e.Path("ix")
	os.Remove(p)
	ix, err := openIx(p, 16384, fsid1, max64, false)
	if err != nil {
		return viol("create: %v", err)
	}
	m := &idxModel{}
	for _, it := range its {
		if err := insertIt(ix, it); err != nil {
			ix.Close()
			return viol("insert %v: %v", it.K, err)
		}
		m.put(it)
		r.Trans(1)
	}
	r.State(1)
	r.Trace(1)
	run := func(ix *index.Index, what string) *Violation {
		for _, q := range probes {
			r.Trans(1)
			if v := checkLookup(ix, m, q.o, q.k, q.g, what); v != nil {
				return v
			}
		}
		return nil
	}
	var v *Violation
	if len(its) > 0 { // an index opened read/write has a transaction from the start
		v = run(ix, "before commit")
	}
	if v == nil && deep {
		// Commit between inserts must not matter: insert the last one again.
		if err := ix.Commit(); err != nil {
			v = viol("commit: %v", err)
		} else if len(its) > 0 {
			if err := insertIt(ix, its[len(its)-1]); err != nil {
				v = viol("insert after commit: %v", err)
			} else {
				m.put(its[len(its)-1])
				v = run(ix, "after commit and another insert")
			}
		}
	}
	ix.Close()
	if v != nil {
		return v
	}
	ro := openRO(p, max64)
	v = run(ro, "after reopening")
	ro.Close()
	if v != nil || !deep {
		return v
	}
	seen := map[uint64]bool{}
	for _, q := range probes {
		if seen[q.g] {
			continue
		}
		seen[q.g] = true
		lim := openRO(p, q.g)
		if lim.Generation != q.g {
			v = viol("index opened at generation %d reports %d", q.g, lim.Generation)
		}
		for _, q2 := range probes {
			if v == nil && q2.g == q.g {
				v = checkLookup(lim, m, q2.o, q2.k, q2.g, "opened at generation")
			}
		}
		lim.Close()
		if v != nil {
			return v
		}
	}
	return nil
}

func mkProbes(owners []uint64, keys []K, gens []uint64) []probe {
	var ps []probe
	for _, o := range owners {
		for _, k := range keys {
			for _, g := range gens {
				ps = append(ps, probe{o, k, g})
			}
		}
	}
	return ps
}

// subsets yields all subsets of 0..n-1 with lo <= size <= hi.
func subsets(n, lo, hi int, f func([]int) bool) {
	var rec func(start int, cur []int) bool
	rec = func(start int, cur []int) bool {
		if len(cur) >= lo {
			if !f(cur) {
				return false
			}
		}
		if len(cur) == hi {
			return true
		}
		for i := start; i < n; i++ {
			if !rec(i+1, append(cur, i)) {
				return false
			}
		}
		return true
	}
	rec(0, nil)
}

func runC01(r *Runner) {
	owners := []uint64{5, 6}
	keys := []K{{256, tDirItem, 7}, {256, tDirItem, 8}}
	gens := []uint64{0, 1, 5, max64}
	pgens := []uint64{0, 1, 3, 5, 6, max64 - 1, max64}
	probes := mkProbes([]uint64{4, 5, 6}, append(keys, K{256, tDirItem, 6}, K{256, tDirIndex, 7}, K{255, tDirItem, 7}), pgens)
	var ops []It
	for _, o := range owners {
		for _, k := range keys {
			for _, g := range gens {
				ops = append(ops, It{o, k, g, nil})
			}
		}
	}
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	r.ForEach(func(yield func(Case) bool) {
		// Insert sequences, grouped by their first operation pair.
		for n := 0; n <= depth; n++ {
			heads := 1
			for i := 0; i < n-1 && i < 2; i++ {
				heads *= len(ops)
			}
			for h := 0; h < heads; h++ {
				n, h := n, h
				if !yield(Case{fmt.Sprintf("seq/%d/%d", n, h), func(e *Env) *Violation {
					seq := make([]int, n)
					x := h
					fixed := 0
					for i := 0; i < n-1 && i < 2; i++ {
						seq[i] = x % len(ops)
						x /= len(ops)
						fixed++
					}
					for {
						its := make([]It, n)
						for i, s := range seq {
							its[i] = ops[s]
							its[i].Data = dataFor(i)
						}
						if v := exploreIndex(e, its, probes, n <= 2); v != nil {
							return v
						}
						i := n - 1
						for ; i >= fixed; i-- {
							if seq[i]++; seq[i] < len(ops) {
								break
							}
							seq[i] = 0
						}
						if i < fixed {
							return nil
						}
					}
				}}) {
					return
				}
			}
		}
		// Sets over a boundary alphabet of neighbours.
		var alpha []It
		bo := []uint64{0, 5, 256, max64 - 1}
		bk := []K{{0, 0, 0}, {256, tInode, 0}, {256, tInode, max64}, {257, tInode, 0},
			{max64, 255, max64}, {1 << 32, tExtent, 1 << 40}}
		bg := []uint64{0, 1, 255, 256, 1 << 32, max64}
		for _, o := range bo {
			for i, k := range bk {
				for j, g := range bg {
					if (i+j)%2 == 0 || o == 5 {
						alpha = append(alpha, It{o, k, g, longD(fmt.Sprint(o, k, g))})
					}
				}
			}
		}
		bp := mkProbes(bo, bk, []uint64{0, 1, 2, 256, 1 << 33, max64})
		max := 2
		if r.Thorough() {
			max = 3
		}
		for i := range alpha {
			i := i
			if !yield(Case{fmt.Sprintf("set/%d", i), func(e *Env) *Violation {
				var v *Violation
				n := len(alpha) - i - 1
				subsets(n, 0, max-1, func(s []int) bool {
					its := []It{alpha[i]}
					for _, x := range s {
						its = append(its, alpha[i+1+x])
					}
					v = exploreIndex(e, its, bp, false)
					return v == nil && !e.r.expired()
				})
				return v
			}}) {
				return
			}
		}
		// All generation subsets of one key next to the same key of
		// neighbouring trees, types, ids and offsets.
		g8 := []uint64{0, 1, 2, 3, 7, 100, max64 - 1, max64}
		k := K{300, tExtent, 4096}
		nb := []It{{5, K{300, tExtent, 4095}, 3, longD("off-1")}, {5, K{300, tExtent, 4097}, 3, longD("off+1")},
			{4, k, 3, longD("tree-1")}, {6, k, 3, longD("tree+1")}, {5, K{299, tExtent, 4096}, 3, longD("id-1")},
			{5, K{301, tExtent, 4096}, 3, longD("id+1")}, {5, K{300, tExtent - 1, 4096}, 3, longD("type-1")},
			{5, K{300, tExtent + 1, 4096}, 3, longD("type+1")}}
		for mask := 0; mask < 1<<len(g8); mask++ {
			mask := mask
			if !yield(Case{fmt.Sprintf("gens/%d", mask), func(e *Env) *Violation {
				var its []It
				for i, g := range g8 {
					if mask>>i&1 != 0 {
						its = append(its, It{5, k, g, dataFor(i)})
					}
				}
				pg := append([]uint64{4, 5, 50, 101, 1 << 40}, g8...)
				for _, w := range [][]It{nil, nb} {
					set := append(append([]It{}, w...), its...)
					if v := exploreIndex(e, set, mkProbes([]uint64{4, 5, 6}, []K{k, {300, tExtent, 4095}, {300, tExtent, 4097}, {299, tExtent, 4096}}, pg), false); v != nil {
						return v
					}
				}
				e.r.Outcome(fmt.Sprint("g", mask))
				return nil
			}}) {
				return
			}
		}
		// Payload sizes, typed lookups.
		yield(Case{"typed", func(e *Env) *Violation { return typedLookups(e) }})
		// Long histories, around the number of inserts that are stored at once.
		for _, n := range []int{4999, 5000, 5001, 9999, 10000, 10001, 10002, 20001, 20002, 20003, 33333} {
			n := n
			if !yield(Case{fmt.Sprintf("long/%d", n), func(e *Env) *Violation { return longHistory(e, n) }}) {
				return
			}
		}
		// An index of many pages: versions cross page boundaries everywhere.
		for _, sz := range []int{0, 1, 500, 3000, 16000} {
			sz := sz
			if !yield(Case{fmt.Sprintf("pages/%d", sz), func(e *Env) *Violation {
				var its []It
				var ks []K
				n := 60
				if sz < 1000 {
					n = 300
				}
				for i := 0; i < n; i++ {
					k := K{uint64(256 + i/3), tCsum, uint64(i % 3 * 4096)}
					ks = append(ks, k)
					for g := uint64(1); g <= uint64(1+i%4); g++ {
						its = append(its, It{5, k, g * 2, bytes.Repeat([]byte{byte(i), byte(g)}, sz)})
					}
				}
				return exploreIndex(e, its, mkProbes([]uint64{5}, ks, []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, max64}), false)
			}}) {
				return
			}
		}
	})
}

// longHistory inserts n items of which some replace others, and looks up all
// of them.
func longHistory(e *Env, n int) *Violation {
	p := e.Path("long")
	os.Remove(p)
	ix, err := openIx(p, 16384, fsid1, max64, false)
	if err != nil {
		return viol("create: %v", err)
	}
	type id struct {
		o uint64
		k K
		g uint64
	}
	want := map[id]int{}
	for i := 0; i < n; i++ {
		x := id{[]uint64{3, 5, 256, 7}[i%4], K{256 + uint64(i/3%2000), tCsum, uint64(i % 3)}, uint64(i % 7)}
		if err := insertIt(ix, It{x.o, x.k, x.g, dataFor(i)}); err != nil {
			ix.Close()
			return viol("insert %d of %d: %v", i+1, n, err)
		}
		want[x] = i
	}
	e.r.State(1)
	e.r.Trace(1)
	ix.Close()
	ix = openRO(p, max64)
	defer ix.Close()
	for x, i := range want {
		e.r.Trans(1)
		ix.Generation = x.g
		got := ix.FindItem(x.o, ixKey(x.k))
		if got == nil || !bytes.Equal(got.Data(), dataFor(i)) {
			return viol("after %d inserts: lookup of %d:%v at %d returned %q, expected %q", n, x.o, x.k, x.g, short(string(got), 60), dataFor(i))
		}
	}
	return nil
}

func typedLookups(e *Env) *Violation {
	e.r.Trace(1)
	var its []It
	for _, o := range []uint64{5, 257} {
		for _, ino := range []uint64{256, 257} {
			for _, g := range []uint64{3, 9} {
				its = append(its, It{o, K{ino, tInode, 0}, g, encInode(inodeT{Size: o*1000 + ino*10 + g})})
				its = append(its, It{o, K{ino, tExtent, 0}, g, encInline(g, []byte(fmt.Sprint("e", o, ino, g)))})
			}
		}
	}
	for _, k := range []K{{1 << 20, tExtItem, 4096}, {1 << 20, tExtItem, 8192}, {1<<20 + 4096, tExtItem, 4096}} {
		b := make([]byte, 24)
		le.PutUint64(b, k.Obj+k.Off)
		its = append(its, It{oExt, k, 4, b})
	}
	p := e.Path("ix")
	writeIndex(p, 16384, its)
	ix := openRO(p, max64)
	defer ix.Close()
	m := newModel(its...)
	for _, g := range []uint64{0, 3, 5, 9, max64} {
		ix.Generation = g
		for _, o := range []uint64{5, 256, 257} {
			for _, ino := range []uint64{255, 256, 257, 258} {
				e.r.Trans(2)
				w := m.lookup(o, K{ino, tInode, 0}, g)
				got := ix.FindInodeItem(o, ino)
				if (w == nil) != (got == nil) || w != nil && !bytes.Equal(w.Data, got) {
					return viol("inode %d of tree %d at generation %d: got %x", ino, o, g, got)
				}
				w = m.lookup(o, K{ino, tExtent, 0}, g)
				gx := ix.FindFileExtentItem(o, ino)
				if (w == nil) != (gx == nil) || w != nil && !bytes.Equal(w.Data, gx) {
					return viol("first extent of inode %d of tree %d at generation %d: got %q", ino, o, g, gx)
				}
			}
		}
		for _, k := range []K{{1 << 20, tExtItem, 4096}, {1 << 20, tExtItem, 8192}, {1<<20 + 4096, tExtItem, 4096}, {1 << 20, tExtItem, 4097}, {4096, tExtItem, 1 << 20}} {
			e.r.Trans(1)
			w := m.lookup(oExt, k, g)
			got := ix.FindExtentItem(k.Obj, k.Off)
			if (w == nil) != (got == nil) || w != nil && !bytes.Equal(w.Data, got) {
				return viol("extent item %v at generation %d: got %x", k, g, got)
			}
		}
	}
	return nil
}
