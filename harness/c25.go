package main

import (
	"fmt"
	"strings"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

// C25: dump-index.
func init() {
	register(&Prop{ID: "C25", Level: "model_checking",
		Rule: "every set of up to 2 (quick) or 3 (thorough) item versions over a boundary alphabet of trees, keys and generations, plus " +
			"the empty index and indices of 1..2000 items; the output of dump-index must be the sorted list; non-trivial: distinct outputs",
		Assumptions: []string{"tree ids up to 2^64-2 (2^64-1 is the tool's own marker)"},
		Run:         runC25})
}

func dumpText(m *idxModel) string {
	var b strings.Builder
	last, any := uint64(0), false
	for _, it := range m.items {
		if !any || it.Owner != last {
			fmt.Fprintf(&b, "owner %d\n", it.Owner)
			last, any = it.Owner, true
		}
		fmt.Fprintf(&b, "key (%s %s %d) @ %d\n", btrfs.ObjectIDString(it.K.Obj), btrfs.KeyTypeString(it.K.Type), int64(it.K.Off), it.Gen)
	}
	return b.String()
}

func checkDump(e *Env, its []It, real bool) *Violation {
	p := e.Path("ix")
	writeIndex(p, 16384, its)
	m := newModel(its...)
	run := e.CLI
	if real {
		run = e.Exec
	}
	res := run("dump-index", "--metadata="+p)
	e.r.State(1)
	e.r.Trace(1)
	e.r.Trans(len(its) + 1)
	if res.Exit != 0 || res.crashed() {
		return viol("dump-index of index {%s}: %s", itemsString(m.items), res.brief())
	}
	if want := dumpText(m); res.Stdout != want {
		return viol("dump-index of index {%s} prints %q, expected %q", itemsString(m.items), short(res.Stdout, 400), short(want, 400))
	}
	if res.Stderr != "" {
		return viol("dump-index warns: %s", res.brief())
	}
	e.r.Outcome(res.Stdout)
	return nil
}

func runC25(r *Runner) {
	var alpha []It
	for _, o := range []uint64{0, 5, 6, 256, max64 - 1} {
		for _, k := range []K{{0, 0, 0}, {256, tInode, 0}, {256, tDirItem, 7}, {256, tDirItem, 8}, {lastFree, tRoot, max64}, {max64, 255, max64}} {
			for _, g := range []uint64{0, 5, max64} {
				if o == 5 || (k.Obj+g)%2 == 0 {
					alpha = append(alpha, It{o, k, g, longD(fmt.Sprint(o, k, g))})
				}
			}
		}
	}
	max := 2
	if r.Thorough() {
		max = 3
	}
	r.ForEach(func(yield func(Case) bool) {
		for _, real := range []bool{false, true} {
			real := real
			if !yield(Case{fmt.Sprintf("empty/%v", real), func(e *Env) *Violation { return checkDump(e, nil, real) }}) {
				return
			}
		}
		for i := range alpha {
			i := i
			if !yield(Case{fmt.Sprintf("set/%d", i), func(e *Env) *Violation {
				var v *Violation
				n := 0
				subsets(len(alpha)-i-1, 0, max-1, func(s []int) bool {
					its := []It{alpha[i]}
					for _, x := range s {
						its = append(its, alpha[i+1+x])
					}
					n++
					v = checkDump(e, its, n%32 == 1)
					return v == nil && !e.r.expired()
				})
				return v
			}}) {
				return
			}
		}
		// Owners that have parts in common.
		owners := []uint64{0, 1, 5, 7, 255, 256, 261}
		for b := uint(8); b < 64; b++ {
			owners = append(owners, 5+1<<b)
			if b%8 == 0 || b > 60 {
				owners = append(owners, 1<<b, 1<<b-1, 1<<b+1<<(b/2))
			}
		}
		for i := range owners {
			i := i
			if !yield(Case{fmt.Sprintf("owners/%d", i), func(e *Env) *Violation {
				var all []It
				for j, o := range owners {
					all = append(all, It{o, K{256, tInode, uint64(j)}, 1, []byte("x")}, It{o, K{256, tDirItem, uint64(j)}, 1, []byte("x")})
					for _, l := range []int{i, j} {
						its := []It{{owners[i], K{256, tInode, 0}, 1, []byte("x")}, {o, K{256, tInode, 0}, 1, []byte("x")}, {owners[l], K{257, tInode, 0}, 1, []byte("x")}}
						if v := checkDump(e, its, false); v != nil {
							return v
						}
					}
				}
				return checkDump(e, all, i%8 == 0)
			}}) {
				return
			}
		}
		for _, n := range []int{10, 101, 500, 2000} {
			n := n
			if !yield(Case{fmt.Sprintf("many/%d", n), func(e *Env) *Violation {
				var its []It
				for i := 0; i < n; i++ {
					its = append(its, It{uint64(i % 7), K{uint64(i / 3), uint8(i % 5 * 50), uint64(i)}, uint64(i % 3), make([]byte, i%200)})
				}
				return checkDump(e, its, true)
			}}) {
				return
			}
		}
	})
}
