package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	vrand "blichmann.eu/code/btrfscue/internal/zzvrand"
)

// C28: how much of a device an identification looks at.
func init() {
	register(&Prop{ID: "C28", Level: "model_checking",
		Rule: "devices whose blocks are all leaves, with one id for each superblock vicinity, the last block and the rest, so that the counts show which blocks were sampled; " +
			"all combinations of device sizes, block sizes, fractions (none to more than all), minimum and maximum counts around every class boundary (0, the vicinities, all blocks, " +
			"each other), each with several orders of random draws (chosen by the explorer: all different, with repetitions, ascending, descending), through the command; the defaults through the real program; " +
			"non-trivial: distinct counts",
		Assumptions: []string{"where the minimum exceeds the maximum, either may decide", "a fraction of the blocks may be rounded up or down",
			"the blocks around the superblocks may come on top of the requested number"},
		Run: runC28})
	calls["c28draws"] = func(args []string) int {
		k, _ := strconv.Atoi(args[0])
		d := &draws{blocks: 1}
		i := int64(0)
		switch k {
		case 0:
			vrand.Pick = nil
		case 1:
			vrand.Pick = d.pick
		case 2: // each number several times
			vrand.Pick = func(n int64) int64 { i++; return i / 3 % n }
		case 3:
			vrand.Pick = func(n int64) int64 { i++; return (n - i%n) % n }
		case 4: // the ends first
			vrand.Pick = func(n int64) int64 {
				i++
				if i < 5 {
					return []int64{0, n - 1, n / 2, 0, n - 1}[i]
				}
				return d.pick(n)
			}
		}
		return 0
	}
}

const numIDs28 = 4

func id28(k int) UUID {
	u := UUID{0xa0, 0xdb, 0xfe, 0x80, 0x3a, 0x38, 0x11, 0xea, 0xb5, 0x10, 0x2f, 0xf1, 0x08, 0x25, 0x2d}
	u[15] = byte(k + 1)
	return u
}

// image28 is a device of which every block is a leaf.
func image28(e *Env, bs int, size int64) *Image {
	im := e.NewImage("img28", size)
	var hdr [numIDs28][]byte
	for k := range hdr {
		b := encLeaf(bs, id28(k), 1<<20, oFS, 7, []It{{oFS, K{256, tInode, 0}, 1, pat(1, uint64(bs-hdrLen-itemLen)%160)}})
		if n := hdrLen + itemLen; bs > 4096 {
			b = b[:n] // the rest does not matter
		}
		hdr[k] = b
	}
	n := size / int64(bs)
	for i := int64(0); i < n; {
		var b []byte
		at := i
		for ; i < n && len(b) < 1<<20; i++ {
			b = append(b, hdr[class28(i, n, int64(bs))]...)
			if len(b) < bs { // leave a hole
				i++
				break
			}
		}
		im.Write(uint64(at)*uint64(bs), b)
	}
	return im
}

// class28 is 0 and 1 in the vicinities of the superblocks, 2 for the last
// block, 3 for all others.
func class28(i, n, bs int64) int {
	o := i * bs
	for k := int64(0); k < 2; k++ {
		s := int64(superAt[k]) + k*100*bs
		if o >= s && o < s+100*bs {
			return int(k)
		}
	}
	if i == n-1 {
		return 2
	}
	return 3
}

type opt28 struct {
	f        float64
	min, max uint64
}

// check28 judges the counts of the four ids.
func check28(o opt28, n, bs uint64, got [numIDs28]uint64) string {
	var all [numIDs28]uint64
	for i := uint64(0); i < n; i++ {
		all[class28(int64(i), int64(n), int64(bs))]++
	}
	sum := uint64(0)
	for k := range got {
		sum += got[k]
		if got[k] > all[k] {
			return fmt.Sprintf("%d blocks of id %d, only %d exist", got[k], k, all[k])
		}
		if k < 2 && got[k] != all[k] {
			return fmt.Sprintf("%d blocks in the vicinity of superblock copy %d instead of %d", got[k], k, all[k])
		}
	}
	near := all[0] + all[1]
	lo := clamp28(math.Floor(o.f*float64(n)-1e-6), o, n, false)
	hi := clamp28(math.Ceil(o.f*float64(n)+1e-6), o, n, true)
	if sum < lo || sum > hi+near {
		return fmt.Sprintf("%d of %d blocks sampled instead of %d to %d (and %d around the superblocks)", sum, n, lo, hi, near)
	}
	if lo == n && sum != n {
		return fmt.Sprintf("%d of %d blocks sampled instead of all", sum, n)
	}
	return ""
}

func clamp28(x float64, o opt28, n uint64, up bool) uint64 {
	if x < 0 {
		x = 0
	}
	v := n * 4
	if x < float64(v) {
		v = uint64(x)
	}
	a := v
	if a < o.min {
		a = o.min
	}
	b := v
	if b > o.max {
		b = o.max
	}
	switch {
	case o.min <= o.max:
		// both limits hold
		if v < o.min {
			b = o.min
		}
		a = b
	case up:
		if o.min > a {
			a = o.min
		}
	default:
		a = b
		if o.max < a {
			a = o.max
		}
	}
	if a > n {
		a = n
	}
	return a
}

func counts28(out string, machine bool) (got [numIDs28]uint64, err error) {
	for i, l := range strings.Split(strings.TrimSpace(out), "\n") {
		if i == 0 && !machine || strings.TrimSpace(l) == "" {
			continue
		}
		f := strings.Fields(l)
		if len(f) != 4 {
			return got, fmt.Errorf("unexpected line %q", l)
		}
		c, e := strconv.ParseUint(f[1], 10, 64)
		if e != nil {
			return got, fmt.Errorf("unexpected line %q", l)
		}
		k := 0
		for k < numIDs28 && id28(k).String() != f[0] {
			k++
		}
		if k == numIDs28 {
			return got, fmt.Errorf("unexpected id in %q", l)
		}
		if got[k] != 0 {
			return got, fmt.Errorf("id %s is listed twice", f[0])
		}
		got[k] = c
	}
	return
}

func runC28(r *Runner) {
	r.ForEach(func(yield func(Case) bool) {
		type dev struct {
			bs    int
			extra int64 // blocks beyond 64 MiB
			part  int64 // bytes of a last incomplete block
		}
		devs := []dev{{65536, 100, 0}, {65536, 101, 1}, {65536, 200, 0}, {65536, 300, 65535}, {16384, 201, 0}}
		fr := []float64{0, 1e-9, 0.0001, 0.2345, 0.25, 0.5, 0.999, 1, 1.5, 1000}
		if r.Thorough() {
			devs = append(devs, dev{65536, 150, 512}, dev{65536, 199, 0}, dev{65536, 2500, 0}, dev{32768, 200, 1}, dev{16384, 100, 0}, dev{8192, 777, 0}, dev{4096, 300, 0})
			fr = append(fr, 0.01, 0.05, 0.1, 0.333, 0.75, 0.9, 1.001, 2)
		}
		for _, d := range devs {
			for _, f := range fr {
				d, f := d, f
				if !yield(Case{fmt.Sprintf("%d/%d/%d/%g", d.bs, d.extra, d.part, f), func(e *Env) *Violation {
					size := int64(64<<20) + int64(d.bs)*d.extra + d.part
					n := uint64(size / int64(d.bs))
					im := image28(e, d.bs, size)
					defer im.Close()
					fn := uint64(f * float64(n))
					mins := []uint64{0, 1, 99, 100, 101, 199, 200, 201, 300, n / 2, n - 1, n, n + 1, 1000000}
					maxs := []uint64{0, 1, 100, 200, 201, 300, n / 2, n - 1, n, n + 1, 1000000}
					if fn < 2*n {
						mins = append(mins, fn, fn+1)
						maxs = append(maxs, fn, fn+1)
						if fn > 0 {
							mins = append(mins, fn-1)
							maxs = append(maxs, fn-1)
						}
					}
					k := 0
					for _, min := range mins {
						for _, max := range maxs {
							k++
							orders := []int{1 + k%4}
							if r.Thorough() && d.bs > 16384 {
								orders = []int{1, 2, 3, 4}
							}
							for _, ord := range orders {
								e.Call("c28draws", fmt.Sprint(ord))
								machine := k%2 == 0
								res := e.CLI("identify", fmt.Sprintf("--block-size=%d", d.bs), fmt.Sprintf("--machine=%v", machine), "--progress=false", "--verbose=false",
									"--metadata=", "--min-occurrence=1", fmt.Sprintf("--sample-fraction=%g", f), fmt.Sprintf("--min-blocks=%d", min), fmt.Sprintf("--max-blocks=%d", max), im.Path)
								e.Call("c28draws", "0")
								e.r.State(1)
								e.r.Trace(1)
								what := fmt.Sprintf("identify --block-size=%d --sample-fraction=%g --min-blocks=%d --max-blocks=%d on %d bytes, draw order %d", d.bs, f, min, max, size, ord)
								if v := judge28(e, what, opt28{f, min, max}, n, uint64(d.bs), machine, res); v != nil {
									return v
								}
							}
						}
					}
					return nil
				}}) {
					return
				}
			}
		}
		// The defaults, by the real program.
		for i, a := range []struct {
			bs    int
			extra int64
			args  []string
			o     opt28
		}{
			{16384, 100, nil, opt28{.0001, 1000, 1000000}},
			{16384, 1000, []string{"--sample-fraction=0.5"}, opt28{.5, 1000, 1000000}},
			{16384, 100, []string{"--min-blocks=0"}, opt28{.0001, 0, 1000000}},
			{16384, 20000, []string{"--min-blocks=3000", "--machine"}, opt28{.0001, 3000, 1000000}},
			{16384, 100, []string{"--max-blocks=2000"}, opt28{.0001, 1000, 2000}},
			{65536, 100, []string{"--block-size=65536"}, opt28{.0001, 1000, 1000000}},
			{4096, 100, []string{"--block-size", "4096"}, opt28{.0001, 1000, 1000000}},
			{512, 1050000 - 131072, []string{"--block-size=512", "--sample-fraction=1"}, opt28{1, 1000, 1000000}},
			{128, 3000000 - 524288, []string{"--block-size=128", "--min-blocks=0"}, opt28{.0001, 0, 1000000}},
			{128, 4000000 - 524288, []string{"--block-size=128", "--min-blocks=0", "--sample-fraction=0.00023"}, opt28{.00023, 0, 1000000}},
			{512, 900000 - 131072, []string{"--block-size=512", "--sample-fraction=1"}, opt28{1, 1000, 1000000}},
		} {
			a := a
			if !yield(Case{fmt.Sprintf("default/%d", i), func(e *Env) *Violation {
				size := int64(64<<20) + int64(a.bs)*a.extra
				im := image28(e, a.bs, size)
				defer im.Close()
				args := append(append([]string{"identify", "--progress=false", "--min-occurrence=1"}, a.args...), im.Path)
				e.r.State(1)
				e.r.Trace(1)
				return judge28(e, strings.Join(args[:len(args)-1], " "), a.o, uint64(size)/uint64(a.bs), uint64(a.bs), strings.Contains(strings.Join(args, " "), "machine"), e.Exec(args...))
			}}) {
				return
			}
		}
		// Ids that occur fewer than four times are not listed by default.
		if !yield(Case{"occurrence", func(e *Env) *Violation {
			const bs = 16384
			size := int64(64<<20) + bs*100
			im := e.NewImage("img28", size)
			defer im.Close()
			for k := 0; k < numIDs28; k++ {
				for i := 0; i < k+2; i++ {
					im.Write(uint64(65536+bs*(k*10+i)), encLeaf(bs, id28(k), 1<<20, oFS, 7, []It{{oFS, K{256, tInode, 0}, 1, pat(1, 160)}}))
				}
			}
			res := e.Exec("identify", "--machine", im.Path)
			e.r.State(1)
			e.r.Trace(1)
			got, err := counts28(res.Stdout, true)
			if res.crashed() || res.Exit != 0 || err != nil || got != [numIDs28]uint64{0, 0, 4, 5} {
				return viol("identify --machine, ids that occur 2 to 5 times: listed counts %v, %s", got, short(res.brief(), 400))
			}
			return nil
		}}) {
			return
		}
	})
}

func judge28(e *Env, what string, o opt28, n, bs uint64, machine bool, res Res) *Violation {
	if res.crashed() || res.Exit != 0 {
		v := viol("%s: %s", what, short(res.brief(), 400))
		v.Hung = res.Hung != ""
		return v
	}
	got, err := counts28(res.Stdout, machine)
	if err != nil {
		return viol("%s: %v", what, err)
	}
	if d := check28(o, n, bs, got); d != "" {
		return viol("%s: %s", what, d)
	}
	sum := 0
	for _, c := range got {
		sum += int(c)
	}
	e.r.Trans(sum)
	e.r.Outcome(fmt.Sprint(got))
	return nil
}
