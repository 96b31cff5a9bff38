package main

import (
	"fmt"
	"strings"

	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// C23: filesystem ids.
func init() {
	register(&Prop{ID: "C23", Level: "model_checking",
		Rule: "print: every byte position x every value x 3 backgrounds; parse: every nibble position x every byte value as character, " +
			"every subset of the 4 dashes, every length 0..48 of digits, dash insertions at every position and pair of positions, letter-case patterns; " +
			"every rejected text must leave the previous value; non-trivial: distinct printed ids",
		Assumptions: []string{"dashes may appear anywhere, as documented by \"optional dashes\""},
		Run:         runC23})
}

// refParse is an independent parser: exactly 32 hexadecimal digits, dashes
// ignored.
func refParse(s string) (u UUID, ok bool) {
	n := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		var v byte
		switch {
		case c == '-':
			continue
		case c >= '0' && c <= '9':
			v = c - '0'
		case c >= 'a' && c <= 'f':
			v = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			v = c - 'A' + 10
		default:
			return u, false
		}
		if n >= 32 {
			return u, false
		}
		u[n/2] |= v << uint(4*(1-n%2))
		n++
	}
	return u, n == 32
}

func runC23(r *Runner) {
	prev := uuid.UUID(fsid2)
	parse := func(s string) *Violation {
		r.State(1)
		r.Trans(1)
		r.Trace(1)
		want, ok := refParse(s)
		u := prev
		err := u.Set(s)
		n, nerr := uuid.New(s)
		if ok {
			if err != nil || nerr != nil {
				return viol("parsing %q fails: %v %v", s, err, nerr)
			}
			if UUID(u) != want || UUID(n) != want {
				return viol("parsing %q gives %x and %x, expected %x", s, u[:], n[:], want[:])
			}
			return nil
		}
		if err == nil || nerr == nil {
			return viol("parsing %q succeeds (Set: %v, New: %v), it is not an id", s, err, nerr)
		}
		if u != prev {
			return viol("rejected text %q changed the value to %x", s, u[:])
		}
		return nil
	}
	print := func(u UUID) *Violation {
		got := uuid.UUID(u).String()
		r.State(1)
		r.Trans(2)
		r.Trace(1)
		r.Outcome(got)
		if got != u.String() {
			return viol("id %x prints as %q, expected %q", u[:], got, u.String())
		}
		z, f := true, true
		for _, b := range u {
			z = z && b == 0
			f = f && b == 0xff
		}
		if uuid.UUID(u).IsZero() != z || uuid.UUID(u).IsAllFs() != f {
			return viol("id %x: IsZero %v IsAllFs %v", u[:], uuid.UUID(u).IsZero(), uuid.UUID(u).IsAllFs())
		}
		for _, s := range []string{got, strings.ToUpper(got), strings.Replace(got, "-", "", -1)} {
			if v := parse(s); v != nil {
				return v
			}
		}
		return nil
	}
	bgs := []UUID{{}, fsid1, {}}
	for i := range bgs[2] {
		bgs[2][i] = 0xff
	}
	for bi, bg := range bgs {
		bg := bg
		r.Check(fmt.Sprintf("print/bg%d", bi), func() *Violation {
			for p := 0; p < 16; p++ {
				for v := 0; v < 256; v++ {
					u := bg
					u[p] = byte(v)
					if x := print(u); x != nil {
						return x
					}
				}
			}
			if r.Thorough() {
				for p := 0; p < 16; p++ {
					for q := p + 1; q < 16; q++ {
						for v := 0; v < 65536; v += 5 {
							u := bg
							u[p], u[q] = byte(v), byte(v>>8)
							if x := print(u); x != nil {
								return x
							}
						}
					}
				}
			}
			return nil
		})
	}
	hex32 := strings.Replace(fsid1.String(), "-", "", -1)
	dashed := fsid1.String()
	r.Check("parse/char", func() *Violation {
		for _, base := range []string{hex32, dashed, strings.ToUpper(dashed), "{" + dashed + "}", " " + dashed} {
			if v := parse(base); v != nil {
				return v
			}
			for p := 0; p < len(base); p++ {
				for c := 0; c < 256; c++ {
					if v := parse(base[:p] + string([]byte{byte(c)}) + base[p+1:]); v != nil {
						return v
					}
					if v := parse(base[:p] + string([]byte{byte(c)}) + base[p:]); v != nil {
						return v
					}
				}
				if v := parse(base[:p] + base[p+1:]); v != nil {
					return v
				}
				if v := parse(base[:p]); v != nil {
					return v
				}
			}
		}
		return nil
	})
	r.Check("parse/length", func() *Violation {
		long := hex32 + hex32
		for n := 0; n <= 64; n++ {
			if v := parse(long[:n]); v != nil {
				return v
			}
			for d := 0; d <= n; d++ {
				if v := parse(long[:d] + "-" + long[d:n]); v != nil {
					return v
				}
				for d2 := d; d2 <= n; d2++ {
					if v := parse(long[:d] + "-" + long[d:d2] + "-" + long[d2:n]); v != nil {
						return v
					}
				}
			}
		}
		return nil
	})
	r.Check("parse/case", func() *Violation {
		// Every letter case pattern of the first 16 letters.
		var pos []int
		for i := range dashed {
			if dashed[i] >= 'a' && dashed[i] <= 'f' {
				pos = append(pos, i)
			}
		}
		if len(pos) > 14 {
			pos = pos[:14]
		}
		for m := 0; m < 1<<uint(len(pos)); m++ {
			b := []byte(dashed)
			for j, p := range pos {
				if m>>uint(j)&1 == 1 {
					b[p] -= 32
				}
			}
			if v := parse(string(b)); v != nil {
				return v
			}
		}
		// Every subset of the usual dashes.
		for m := 0; m < 16; m++ {
			s := hex32
			for j, p := range []int{20, 16, 12, 8} {
				if m>>uint(j)&1 == 1 {
					s = s[:p] + "-" + s[p:]
				}
			}
			if v := parse(s); v != nil {
				return v
			}
		}
		return nil
	})
}
