package main

import (
	"fmt"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// C22: directory entry name hash.
func init() {
	register(&Prop{ID: "C22", Level: "model_checking",
		Rule: "every byte string of length 0..2 (quick) or 0..3 (thorough), plus for every length 0..255 every single-byte " +
			"position set to every value over two backgrounds; the hash must equal a bitwise CRC32C reference; non-trivial: distinct hash values",
		Assumptions: []string{"reference: bitwise CRC32C with seed 0xfffffffe, no final inversion (btrfs_name_hash), anchored by two hashes of real file systems"},
		Run:         runC22})
}

func runC22(r *Runner) {
	seen := map[uint32]bool{}
	cmp := func(b []byte) *Violation {
		r.State(1)
		r.Trans(1)
		r.Trace(1)
		got, want := index.NameHash(string(b)), crcRef(0xfffffffe, b)
		if want != crcFast(0xfffffffe, b) {
			return viol("reference implementations disagree on %q", b)
		}
		seen[got] = true
		if got != want {
			return viol("name %q (%x) hashes to %#x, btrfs uses %#x", b, b, got, want)
		}
		return nil
	}
	// Known answers from real file systems: "default" in the root tree
	// directory has DIR_ITEM offset 2378154706.
	r.Check("known-answers", func() *Violation {
		if h := index.NameHash("default"); h != 2378154706 {
			return viol("hash of \"default\" is %d, btrfs uses 2378154706", h)
		}
		return cmp([]byte("default"))
	})
	max := 2
	if r.Thorough() {
		max = 3
	}
	var rec func(b []byte, n int) *Violation
	rec = func(b []byte, n int) *Violation {
		if n == 0 {
			return cmp(b)
		}
		for c := 0; c < 256; c++ {
			if v := rec(append(b, byte(c)), n-1); v != nil {
				return v
			}
		}
		return nil
	}
	for n := 0; n <= max; n++ {
		n := n
		r.Check(fmt.Sprintf("all-length-%d", n), func() *Violation { return rec(nil, n) })
	}
	for n := 1; n <= 255; n++ {
		n := n
		r.Check(fmt.Sprintf("single-byte-length-%d", n), func() *Violation {
			for _, bg := range []byte{0, 'a'} {
				b := make([]byte, n)
				for i := range b {
					b[i] = bg
				}
				step := 1
				if r.Quick() && n > 16 {
					step = n / 16
				}
				for i := 0; i < n; i += step {
					for c := 0; c < 256; c++ {
						b[i] = byte(c)
						if v := cmp(b); v != nil {
							return v
						}
					}
					b[i] = bg
				}
			}
			return nil
		})
	}
	for h := range seen {
		r.Outcome(fmt.Sprint(h))
		if len(seen) > 100000 && r.nOutcomes > 100000 {
			break
		}
	}
}
