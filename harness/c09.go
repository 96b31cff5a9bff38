package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"blichmann.eu/code/btrfscue/internal/identify"
	vrand "blichmann.eu/code/btrfscue/internal/zzvrand"
)

// C09: sample offsets.
func init() {
	register(&Prop{ID: "C09", Level: "model_checking",
		Rule: "all (device size, block size, sample count) over alphabets of every size boundary (0, block multiples, 64 KiB, 64 MiB, 256 GiB, 1 PiB, ends of the vicinities, " +
			"each with its neighbours) x 9 block sizes x sample counts around every set size; on small devices additionally all sequences of random draws up to a depth " +
			"(the random numbers are chosen by the explorer); non-trivial: distinct (size class, result) outcomes",
		Assumptions: []string{"superblock vicinities are the 100 blocks that start i*100 blocks after copy i", "block sizes from 512 bytes to 128 KiB"},
		Run:         runC09})
	calls["c09"] = callC09
}

var superAt = []uint64{64 << 10, 64 << 20, 256 << 30, 1 << 50}

// checkC09 checks one result.
func checkC09(dev, bs, num uint64, got []uint64) string {
	n := dev / bs
	set := make(map[uint64]bool, len(got))
	for i, o := range got {
		if i > 0 && o <= got[i-1] {
			return fmt.Sprintf("offset %d follows %d", o, got[i-1])
		}
		if dev < bs || o > dev-bs {
			return fmt.Sprintf("no whole block at offset %d", o)
		}
		if 65536%bs == 0 && o%bs != 0 {
			return fmt.Sprintf("offset %d is not the start of a block", o)
		}
		set[o] = true
	}
	for i, s := range superAt {
		for j := uint64(0); j < 100; j++ {
			o := s + (uint64(i)*100+j)*bs
			if dev >= bs && o <= dev-bs && !set[o] {
				return fmt.Sprintf("block %d of the vicinity of superblock copy %d, at %d, is not sampled", j, i, o)
			}
		}
	}
	want := num
	if n < num {
		want = n
		for b := uint64(0); b < n; b++ {
			if !set[b*bs] {
				return fmt.Sprintf("%d samples of %d blocks were requested, but block %d is not sampled", num, n, b)
			}
		}
	}
	if uint64(len(got)) < want {
		return fmt.Sprintf("%d samples instead of at least %d", len(got), want)
	}
	return ""
}

// vicinityC09 is the number of whole blocks of the superblock vicinities.
func vicinityC09(dev, bs uint64) (n uint64) {
	for i, s := range superAt {
		for j := uint64(0); j < 100; j++ {
			if o := s + (uint64(i)*100+j)*bs; dev >= bs && o <= dev-bs {
				n++
			}
		}
	}
	return
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// fineDraw is the largest number of outcomes of one draw that are all tried.
const fineDraw = 4096

// draws answers random draws: first those of the script, then a fair sequence
// that visits every number below n once in n draws.
type draws struct {
	script []int64
	blocks int64   // of the device
	raw    bool    // for the bounds of draws only
	coarse bool    // not all outcomes of the draws are tried
	max    []int64 // bounds of the scripted draws that were made
	n      int
	fair   int64
}

func (d *draws) pick(n int64) int64 {
	if len(d.max) < len(d.script) {
		d.n++
		i := d.script[len(d.max)]
		if n <= fineDraw || d.raw {
			d.max = append(d.max, n)
			return i % n
		}
		d.coarse = true
		// Too many to try all: the numbers of all blocks, and the start and
		// the middle of equal parts for each block.
		d.max = append(d.max, 3*d.blocks)
		part := n / d.blocks
		switch k := i % (3 * d.blocks) % d.blocks; i % (3 * d.blocks) / d.blocks {
		case 0:
			return k % n
		case 1:
			return k * part
		default:
			return k*part + part/2
		}
	}
	d.n++
	step := int64(float64(n)*0.6180339887) | 1
	for gcd(step, n) != 1 {
		step += 2
	}
	d.fair++
	if step > 1<<31 || d.fair > 1<<31 {
		// avoid overflow: any order is as good
		return int64((uint64(d.fair) * 0x9e3779b97f4a7c15 >> 1) % uint64(n))
	}
	return (d.fair * step) % n
}

// callC09 checks one (device size, block size) with several sample counts and
// depths: args are size, block size, depth, counts...
func callC09(args []string) int {
	u := func(s string) uint64 {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return v
	}
	dev, bs, depth := u(args[0]), u(args[1]), int(u(args[2]))
	nruns, ndraws := 0, 0
	controlled := true
	for _, a := range args[3:] {
		num := u(a)
		fmt.Printf("at %d\n", num)
		reach := map[uint64]bool{}
		script := make([]int64, 0, depth)
		var bounds []int64
		coarse := false
		run := func() string {
			d := &draws{script: script, blocks: int64(dev / bs)}
			if d.blocks == 0 {
				d.blocks = 1
			}
			vrand.Pick = d.pick
			got := identify.MakeSampleOffsets(dev, bs, num)
			vrand.Pick = nil
			nruns++
			ndraws += d.n
			bounds, coarse = d.max, d.coarse
			if m := checkC09(dev, bs, num, got); m != "" {
				return fmt.Sprintf("draws %v: %s", script[:len(d.max)], m)
			}
			for _, o := range got {
				reach[o] = true
			}
			return ""
		}
		if depth == 0 {
			if m := run(); m != "" {
				fmt.Println("bad", m)
				return 1
			}
			// One block more than the vicinities: one draw has to be able
			// to choose any other block.
			one := &draws{script: make([]int64, 1), blocks: int64(dev / bs)}
			if near := vicinityC09(dev, bs); 65536%bs == 0 && num == near+1 && num < dev/bs {
				vrand.Pick = one.pick
				one.raw = true
				identify.MakeSampleOffsets(dev, bs, num)
				vrand.Pick = nil
				if one.n == 1 && uint64(one.max[0]) < dev/bs-near {
					fmt.Printf("bad one draw of %d numbers chooses among %d blocks: some are never chosen\n", one.max[0], dev/bs-near)
					return 1
				}
			}
			continue
		}
		// All draw sequences of the given length.
		script = script[:0]
		depth := depth
		for i := 0; i < depth; i++ {
			script = append(script, 0)
		}
		needed := false
		for {
			if m := run(); m != "" {
				fmt.Println("bad", m)
				return 1
			}
			if len(bounds) > 0 {
				needed = true
			}
			// Coarse draws have more outcomes than blocks: fewer of them. Nor
			// more than the time of one call allows.
			total := int64(1)
			for i, b := range bounds {
				if total *= b; i > 0 && (total > 20000 && coarse || total > 40000000/int64(dev/bs+1)) {
					script, bounds = script[:i], bounds[:i]
					depth = i
					break
				}
			}
			// Next sequence: increment the last draw that was made.
			i := len(bounds) - 1
			for ; i >= 0; i-- {
				if script[i]+1 < bounds[i] {
					script[i]++
					break
				}
				script[i] = 0
			}
			if i < 0 {
				break
			}
			for j := i + 1; j < depth; j++ {
				script[j] = 0
			}
		}
		if needed {
			for b := uint64(0); b < dev/bs; b++ {
				if 65536%bs == 0 && !reach[b*bs] {
					fmt.Printf("bad no sequence of draws chooses block %d\n", b)
					return 1
				}
			}
		}
		controlled = controlled && (needed || num <= 1)
	}
	fmt.Printf("ok %d %d %v\n", nruns, ndraws, controlled)
	return 0
}

func runC09(r *Runner) {
	sizes := []uint64{512, 1024, 4096, 5000, 8192, 12288, 16384, 32768, 65536, 131072}
	uniq := func(v []uint64) []uint64 {
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
		out := v[:0]
		for i, x := range v {
			if i == 0 || x != v[i-1] {
				out = append(out, x)
			}
		}
		return out
	}
	r.ForEach(func(yield func(Case) bool) {
		mk := func(dev, bs uint64, depth int, nums []uint64) bool {
			return yield(Case{fmt.Sprintf("dev=%d/bs=%d/depth=%d", dev, bs, depth), func(e *Env) *Violation {
				a := []string{fmt.Sprint(dev), fmt.Sprint(bs), fmt.Sprint(depth)}
				for _, n := range nums {
					a = append(a, fmt.Sprint(n))
				}
				res := e.Call("c09", a...)
				e.r.State(len(nums))
				ls := strings.Split(strings.TrimSpace(res.Stdout), "\n")
				last := ls[len(ls)-1]
				var nr, nd int
				var ctl bool
				if _, err := fmt.Sscanf(last, "ok %d %d %v", &nr, &nd, &ctl); err == nil && res.Exit == 0 {
					e.r.Trace(nr)
					e.r.Trans(nd)
					e.r.Outcome(fmt.Sprint(dev/bs, bs))
					return nil
				}
				at := ""
				for _, l := range ls {
					if strings.HasPrefix(l, "at ") {
						at = l[3:]
					}
				}
				v := viol("device size %d, block size %d, %s samples: %s %s", dev, bs, at, last, short(res.brief(), 300))
				v.Hung = res.Hung != ""
				return v
			}})
		}
		// All draws on small devices. Few more samples than the vicinity
		// needs, so that all draw sequences can be enumerated.
		for _, bs := range []uint64{4096, 8192, 16384, 32768, 65536} {
			for extra := uint64(0); extra < 14; extra++ {
				dev := 65536 + extra*bs/2
				n := dev / bs
				var nums []uint64
				win := uint64(0)
				if n > 65536/bs {
					win = n - 65536/bs
				}
				for k := uint64(0); k < 4; k++ {
					if win+k <= n+1 {
						nums = append(nums, win+k)
					}
				}
				depth := 4
				if n > 20 {
					depth = 3
				}
				if r.Thorough() {
					depth++
				}
				if !mk(dev, bs, depth, nums) {
					return
				}
			}
		}
		// 65536-byte blocks: free blocks behind the vicinity.
		for _, n := range []uint64{100, 101, 102, 105, 110} {
			d := 2
			if r.Thorough() {
				d = 3
			}
			if !mk(n*65536, 65536, d, []uint64{99, 100, 101, 102, 103, n - 1, n, n + 1}) {
				return
			}
		}
		for _, bs := range sizes {
			var devs []uint64
			add := func(x uint64) {
				for _, d := range []uint64{0, 1, bs / 2, bs - 1, bs, bs + 1, 2*bs - 1, 2 * bs} {
					devs = append(devs, x+d)
					if d <= x {
						devs = append(devs, x-d)
					}
				}
			}
			add(0)
			for i, s := range superAt {
				add(s)
				for _, j := range []uint64{0, 1, 50, 99, 100, 101, 150} {
					add(s + (uint64(i)*100+j)*bs)
				}
			}
			for _, s := range []uint64{320 << 20, 1 << 30, 1 << 40, 1 << 60, 1<<62 - 512} {
				add(s)
			}
			for _, dev := range uniq(devs) {
				n := dev / bs
				var nums []uint64
				for _, k := range []uint64{0, 1, 2, 99, 100, 101, 199, 200, 201, 299, 300, 301, 302, 399, 400, 401, 1000, 3000} {
					nums = append(nums, k)
				}
				lim := uint64(4000)
				if r.Thorough() {
					lim = 300000
				}
				if n < lim {
					nums = append(nums, n, n+1, 2*n)
					if n > 0 {
						nums = append(nums, n-1, n/2)
					}
				}
				if !mk(dev, bs, 0, uniq(nums)) {
					return
				}
			}
		}
	})
}
