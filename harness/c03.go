package main

import (
	"fmt"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// C03: logical to physical mapping.
func init() {
	register(&Prop{ID: "C03", Level: "model_checking",
		Rule: "every subset of 11 chunks (adjacent, distant, huge, tiny, at 0 and up to 2^63) with non-monotonic physical placement, every " +
			"boundary address (first, second, middle, last byte), every ordered pair of queries on a fresh index; all generation " +
			"assignments of relocated chunks; stripe counts 0..3 at every position; addresses outside all chunks only must not crash",
		Assumptions: []string{"single-device profiles or mirrored ones, where the first stripe holds the whole chunk (README: RAID levels are not supported)"},
		Run:         runC03})
}

type chunkDef struct{ log, len, dev, phys uint64 }

var chunkAlpha = []chunkDef{
	{0, 4096, 1, 1 << 20},
	{4096, 4096, 2, 1 << 30},
	{1 << 20, 1 << 20, 1, 5 << 20},
	{2 << 20, 65536, 7, 4096},
	{1 << 30, 1 << 30, 1, 0},
	{2 << 30, 8 << 20, 1, 3 << 30},
	{1 << 40, 1 << 30, 3, 1 << 41},
	{1<<40 + 1<<30, 256 << 20, 1, 77 << 12},
	{1 << 62, 1 << 62, 1, 1 << 22},
	{5 << 20, 512, 4, 9<<20 + 512},
	// behind the third both in addresses and in places, but on another device
	{2<<20 + 65536, 4096, 8, 4096 + 65536},
}

func (c chunkDef) probes() []uint64 {
	return []uint64{c.log, c.log + 1, c.log + c.len/2, c.log + c.len - 1}
}

func (c chunkDef) want(a uint64) (uint64, uint64) { return c.dev, c.phys + (a - c.log) }

func checkPhys(ix *index.Index, cs []chunkDef, a uint64) *Violation {
	dev, off := ix.Physical(a)
	for _, c := range cs {
		if a >= c.log && a-c.log < c.len {
			wd, wo := c.want(a)
			if dev != wd || off != wo {
				return viol("chunks %v: logical %d maps to device %d offset %d, expected device %d offset %d", cs, a, dev, off, wd, wo)
			}
		}
	}
	return nil
}

func runC03(r *Runner) {
	r.ForEach(func(yield func(Case) bool) {
		for mask := 0; mask < 1<<len(chunkAlpha); mask++ {
			mask := mask
			if !yield(Case{fmt.Sprintf("set/%d", mask), func(e *Env) *Violation {
				var its []It
				var cs []chunkDef
				var addrs []uint64
				for i, c := range chunkAlpha {
					if mask>>i&1 != 0 {
						cs = append(cs, c)
						its = append(its, chunkItem(c.log, c.len, c.dev, c.phys))
						addrs = append(addrs, c.probes()...)
					}
				}
				// Items that must not be mistaken for chunks of this map.
				its = append(its, It{oFS, K{256, tChunk, 12345}, 10, simpleChunk(1<<50, 9, 9)},
					It{oChunk, K{255, tChunk, 0}, 10, simpleChunk(1<<50, 9, 9)}, It{oChunk, K{257, tChunk, 0}, 10, simpleChunk(1<<50, 9, 9)},
					It{oChunk, K{256, tDevItem, 0}, 10, make([]byte, 98)})
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				e.r.State(1)
				outside := []uint64{0, 1, 4095, 8192, 1<<20 - 1, 3 << 20, 1<<41 - 1, 1<<63 - 1, max64}
				first := append(append([]uint64{}, addrs...), outside...)
				for _, a := range first {
					ix := openRO(p, max64)
					v := checkPhys(ix, cs, a)
					for _, b := range addrs {
						if v == nil {
							v = checkPhys(ix, cs, b)
						}
						e.r.Trans(1)
					}
					if v == nil {
						v = checkPhys(ix, cs, a)
					}
					ix.Close()
					e.r.Trace(1)
					if v != nil {
						return v
					}
					if e.r.Quick() && len(cs) > 4 && a%3 == 1 {
						continue
					}
				}
				e.r.Outcome(fmt.Sprint(mask))
				return nil
			}}) {
				return
			}
		}
		// Relocated chunks: every assignment of up to three generations to
		// two chunks, mapped at every generation.
		for x := 0; x < 64; x++ {
			x := x
			if !yield(Case{fmt.Sprintf("generations/%d", x), func(e *Env) *Violation {
				gens := []uint64{2, 5, 9}
				var its []It
				m := &idxModel{}
				for c := 0; c < 2; c++ {
					for g := 0; g < 3; g++ {
						if x>>(c*3+g)&1 != 0 {
							it := chunkItem(uint64(c)<<20, 1<<20, uint64(g+1), uint64(c*10+g+1)<<24)
							it.Gen = gens[g]
							its = append(its, it)
						}
					}
				}
				m.put(its...)
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				e.r.State(1)
				for _, g := range []uint64{0, 2, 3, 5, 8, 9, max64} {
					ix := openRO(p, g)
					for c := uint64(0); c < 2; c++ {
						w := m.lookup(oChunk, K{256, tChunk, c << 20}, g)
						for _, d := range []uint64{0, 1, 4096, 1<<20 - 1} {
							dev, off := ix.Physical(c<<20 + d)
							e.r.Trans(1)
							if w == nil {
								continue
							}
							if wd, wo := le.Uint64(w.Data[48:]), le.Uint64(w.Data[56:])+d; dev != wd || off != wo {
								ix.Close()
								return viol("chunk versions {%s}: logical %d at generation %d maps to %d/%d, expected %d/%d", itemsString(its), c<<20+d, g, dev, off, wd, wo)
							}
						}
					}
					ix.Close()
					e.r.Trace(1)
				}
				e.r.Outcome(fmt.Sprint("g", x))
				return nil
			}}) {
				return
			}
		}
		// Stripe counts.
		for x := 0; x < 4*4*4; x++ {
			x := x
			if !yield(Case{fmt.Sprintf("stripes/%d", x), func(e *Env) *Violation {
				var its []It
				var cs []chunkDef
				y := x
				for c := uint64(0); c < 3; c++ {
					n := y % 4
					y /= 4
					ch := chunkT{Len: 1 << 20, StripeLen: 65536, Type: 1 | 1<<5}
					for s := 0; s < n; s++ {
						ch.Stripes = append(ch.Stripes, stripeT{Dev: uint64(s + 1), Off: (c*4 + uint64(s) + 1) << 25, UUID: fsid2})
					}
					its = append(its, It{oChunk, K{256, tChunk, c << 20}, 10, encChunk(ch)})
					if n > 0 {
						cs = append(cs, chunkDef{c << 20, 1 << 20, 1, (c*4 + 1) << 25})
					}
				}
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				e.r.State(1)
				e.r.Trace(1)
				ix := openRO(p, max64)
				defer ix.Close()
				for c := uint64(0); c < 3; c++ {
					for _, d := range []uint64{0, 1, 65536, 1<<20 - 1} {
						e.r.Trans(1)
						if v := checkPhys(ix, cs, c<<20+d); v != nil {
							return v
						}
					}
				}
				e.r.Outcome(fmt.Sprint("s", x))
				return nil
			}}) {
				return
			}
		}
		// Many chunks of equal size, every count up to 40 (70), every boundary.
		max := 40
		if r.Thorough() {
			max = 120
		}
		for n := 1; n <= max; n++ {
			n := n
			if !yield(Case{fmt.Sprintf("count/%d", n), func(e *Env) *Violation {
				var its []It
				var cs []chunkDef
				for i := 0; i < n; i++ {
					c := chunkDef{uint64(i) * 8 << 20, 8 << 20, 1, uint64((i*7+3)%n) * 8 << 20}
					cs = append(cs, c)
					its = append(its, chunkItem(c.log, c.len, c.dev, c.phys))
				}
				p := e.Path("ix")
				writeIndex(p, 16384, its)
				e.r.State(1)
				e.r.Trace(1)
				ix := openRO(p, max64)
				defer ix.Close()
				for _, c := range cs {
					for _, a := range c.probes() {
						e.r.Trans(1)
						if v := checkPhys(ix, cs, a); v != nil {
							return v
						}
					}
				}
				return nil
			}}) {
				return
			}
		}
	})
}
