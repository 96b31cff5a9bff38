package main

import (
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

// C29: parse buffers.
func init() {
	register(&Prop{ID: "C29", Level: "model_checking",
		Rule: "buffers of 0..14 bytes x 0, 1 or 16 bytes of other data behind them in memory x both byte orders x all sequences of up to 3 (thorough 4) operations " +
			"out of all reads, Rewind and SetOffset to every place, compared with a reference buffer after each step; non-trivial: distinct (buffer, last operation, position) states",
		Assumptions: []string{"what a buffer is good for after a read that failed, and zero-length reads outside of it, are left open"},
		Run:         runC29})
	calls["c29"] = callC29
}

type opC29 struct {
	kind string
	n    int
}

// apply returns what an operation yields, or "panic".
func (o opC29) apply(b *btrfs.ParseBuffer) (res string) {
	defer func() {
		if recover() != nil {
			res = "panic"
		}
	}()
	switch o.kind {
	case "rewind":
		b.Rewind()
	case "set":
		b.SetOffset(o.n)
	case "next":
		return fmt.Sprintf("%x", b.Next(o.n))
	case "u8":
		return fmt.Sprint(b.NextUint8())
	case "u16":
		return fmt.Sprint(b.NextUint16())
	case "u32":
		return fmt.Sprint(b.NextUint32())
	case "u64":
		return fmt.Sprint(b.NextUint64())
	case "time":
		t := b.NextTime()
		return fmt.Sprint(t.Unix(), t.Nanosecond())
	}
	return ""
}

// want is the reference: the result and the position behind it.
func (o opC29) want(data []byte, big bool, pos int) (string, int) {
	num := func(b []byte) (v uint64) {
		for i := range b {
			if big {
				v = v<<8 | uint64(b[i])
			} else {
				v |= uint64(b[i]) << (8 * uint(i))
			}
		}
		return
	}
	n := map[string]int{"next": o.n, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "time": 12}[o.kind]
	switch o.kind {
	case "rewind":
		return "", 0
	case "set":
		return "", o.n
	}
	if pos < 0 || pos+n > len(data) {
		return "panic", pos
	}
	d := data[pos : pos+n]
	switch o.kind {
	case "next":
		return fmt.Sprintf("%x", d), pos + n
	case "time":
		// Fewer than 10^9 nanoseconds carry into no seconds.
		s, ns := int64(num(d[:8])), int64(num(d[8:]))
		return fmt.Sprint(s+ns/1e9, ns%1e9), pos + n
	}
	return fmt.Sprint(num(d)), pos + n
}

// callC29 explores all operation sequences on one buffer: args are its length,
// the number of bytes behind it, the byte order and the depth.
func callC29(args []string) int {
	arg := func(i int) int {
		v, err := strconv.Atoi(args[i])
		if err != nil {
			panic(err)
		}
		return v
	}
	size, behind, big, depth := arg(0), arg(1), arg(2) == 1, arg(3)
	orig := make([]byte, size+behind)
	for i := range orig {
		orig[i] = byte(i*37 + 0x81)
	}
	var ops []opC29
	for _, k := range []string{"u8", "u16", "u32", "u64", "time", "rewind"} {
		ops = append(ops, opC29{k, 0})
	}
	for n := 0; n <= size+2; n++ {
		ops = append(ops, opC29{"next", n}, opC29{"set", n})
	}
	ops = append(ops, opC29{"next", size + 17}, opC29{"set", -1})
	mem := append([]byte{}, orig...)
	seqs, steps := 0, 0
	reached := map[string]bool{}
	var seq []opC29
	// walk runs the sequence again for each of its extensions.
	var walk func() string
	walk = func() string {
		var b *btrfs.ParseBuffer
		pos, ended := 0, false
		for i := -1; i < len(seq); i++ {
			res, exp := "", ""
			if i < 0 {
				b = btrfs.NewParseBuffer(mem[:size])
				if big {
					b.ByteOrder = binary.BigEndian
				}
			} else {
				o := seq[i]
				if o.kind == "next" && o.n == 0 && (pos < 0 || pos > size) {
					ended = true
					break
				}
				res = o.apply(b)
				exp, pos = o.want(orig[:size], big, pos)
				steps++
				if i == len(seq)-1 {
					reached[fmt.Sprint(o, pos, exp == "panic")] = true
				}
			}
			if res != exp {
				return fmt.Sprintf("operations %v: got %q instead of %q", seq[:i+1], res, exp)
			}
			if exp == "panic" {
				ended = true
				break
			}
			if b.Offset() != pos || b.Unread() != size-pos || b.Len() != size || b.Cap() < size {
				return fmt.Sprintf("operations %v: offset %d, %d unread, length %d, capacity %d instead of %d, %d, %d and at least %d", seq[:i+1],
					b.Offset(), b.Unread(), b.Len(), b.Cap(), pos, size-pos, size, size)
			}
		}
		seqs++
		if string(mem) != string(orig) {
			return fmt.Sprintf("operations %v: modified the bytes", seq)
		}
		if ended || len(seq) == depth {
			return ""
		}
		for _, o := range ops {
			seq = append(seq, o)
			if m := walk(); m != "" {
				return m
			}
			seq = seq[:len(seq)-1]
		}
		return ""
	}
	if m := walk(); m != "" {
		fmt.Println("bad", m)
		return 1
	}
	fmt.Println("ok", seqs, steps, len(reached))
	return 0
}

func runC29(r *Runner) {
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	r.ForEach(func(yield func(Case) bool) {
		for size := 0; size <= 14; size++ {
			for _, behind := range []int{0, 1, 16} {
				for big := 0; big < 2; big++ {
					size, behind, big := size, behind, big
					if !yield(Case{fmt.Sprintf("buffer/%d/%d/%d", size, behind, big), func(e *Env) *Violation {
						res := e.Call("c29", fmt.Sprint(size), fmt.Sprint(behind), fmt.Sprint(big), fmt.Sprint(depth))
						var seqs, steps, states int
						last := strings.TrimSpace(res.Stdout)
						if _, err := fmt.Sscanf(last, "ok %d %d %d", &seqs, &steps, &states); err == nil && res.Exit == 0 {
							e.r.State(states)
							e.r.Trans(steps)
							e.r.Trace(seqs)
							for i := 0; i < states; i++ {
								e.r.Outcome(fmt.Sprint(size, behind > 0, big, i))
							}
							return nil
						}
						v := viol("buffer of %d bytes with %d bytes behind it, big endian %v: %s %s", size, behind, big == 1, last, short(res.brief(), 300))
						v.Hung = res.Hung != ""
						return v
					}}) {
						return
					}
				}
			}
		}
	})
}
