package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
)

// C26: unreadable blocks.
func init() {
	register(&Prop{ID: "C26", Level: "model_checking",
		Rule: "a device of 1100 blocks each of which holds a leaf of its own; each single block is unreadable in turn (whole, and single sectors of it; of the first one a part, for identifications) for a scan and an " +
			"identification of every block by the real program, runs and pairs of bad blocks over a grid, all periodic patterns up to period 9, everything unreadable, 8 kinds of errors; " +
			"non-trivial: distinct sets of unreadable ranges",
		Assumptions: []string{"a failed read delivers nothing; bad blocks may be missing or present", "reads by pread fail by offset; other kinds of reads are failed by count, and the failed offsets taken from the system call log"},
		Run:         runC26})
}

const bsC26 = 65536

// imgC26 is a device of n blocks of which those in idx hold a leaf each.
type imgC26 struct {
	im  *Image
	n   int
	idx []int
}

func fsC26(i int) UUID { return []UUID{fsid1, fsid2, fsid1}[i%3] }

// imageC26 writes a leaf with one item of its own to every block, or to some
// blocks of a device of more than 4 GiB.
func imageC26(e *Env, far bool) *imgC26 {
	c := &imgC26{n: (64<<20)/bsC26 + 100}
	name := "img"
	if far {
		c.n, c.idx, name = farBlocks, farC26, "far"
	} else {
		for i := 0; i < c.n; i++ {
			c.idx = append(c.idx, i)
		}
	}
	c.im = e.NewImage(name, int64(c.n)*bsC26)
	for _, i := range c.idx {
		its := []It{{oFS, K{uint64(1000 + i), tInode, 0}, uint64(1 + i%3), encInode(inodeT{Size: uint64(i), Mode: 0100644, Nlink: 1})}}
		b := encLeaf(bsC26, fsC26(i), uint64(i)*bsC26, oFS, its[0].Gen, its)
		c.im.Write(uint64(i)*bsC26, b[:512])
		c.im.Write(uint64(i+1)*bsC26-512, b[bsC26-512:])
	}
	return c
}

const gibC26 = (1 << 30) / bsC26 // blocks per GiB

var (
	farBlocks = 4*gibC26 + 20
	farC26    = []int{2, 3, 1023, 1024, 1025, 1026, gibC26 - 1, gibC26, gibC26 + 1, gibC26 + 2, 2*gibC26 - 1, 2 * gibC26, 2*gibC26 + 1,
		3 * gibC26, 3*gibC26 + 1, 3*gibC26 + 2, 4*gibC26 - 2, 4*gibC26 - 1, 4 * gibC26, 4*gibC26 + 1, 4*gibC26 + 2, 4*gibC26 + 3, farBlocks - 2, farBlocks - 1}
)

// planC26 is one set of failing reads: bad sectors, or failing system calls by
// count for code that does not read with pread.
type planC26 struct {
	bad    []badRange
	errno  syscall.Errno
	inject string
	far    bool // on the large device
}

func (p planC26) String() string {
	if p.inject != "" {
		return p.inject
	}
	s := fmt.Sprintf("%v at", p.errno)
	if p.far {
		s = "large device: " + s
	}
	for i, r := range p.bad {
		if i == 6 {
			s += fmt.Sprintf(" ... (%d ranges)", len(p.bad))
			break
		}
		s += fmt.Sprintf(" %d-%d", r.lo, r.hi)
	}
	return s
}

func runC26(r *Runner) {
	var mu sync.Mutex
	type key struct {
		e   *Env
		far bool
	}
	images := map[key]*imgC26{}
	image := func(e *Env, far bool) *imgC26 {
		mu.Lock()
		im := images[key{e, far}]
		mu.Unlock()
		if im == nil {
			im = imageC26(e, far)
			mu.Lock()
			images[key{e, far}] = im
			mu.Unlock()
		}
		return im
	}
	run := func(e *Env, cmd string, p planC26) *Violation {
		dev := image(e, p.far)
		im, n := dev.im, dev.n
		e.r.State(1)
		what := cmd + " with " + p.String()
		var recs []readRec
		exec := func(args ...string) Res {
			e.r.Trace(1)
			if p.inject == "" {
				return e.ExecBad(p.bad, p.errno, args...)
			}
			var res Res
			res, recs = e.Strace(im.Path, p.inject, args...)
			for _, x := range recs {
				if x.Failed {
					what += fmt.Sprintf(" (first failed read at %d)", x.Off)
					break
				}
			}
			return res
		}
		isBad := func(i int) bool {
			lo, hi := uint64(i)*bsC26, uint64(i+1)*bsC26
			for _, x := range p.bad {
				if x.lo < hi && lo < x.hi {
					return true
				}
			}
			return lost(recs, lo, bsC26)
		}
		nbad, missing := 0, 0
		var res Res
		if cmd == "recon" {
			meta := e.Path("m26")
			os.Remove(meta)
			res = exec("recon", "--metadata="+meta, "--progress=false", "--verbose=false",
				fmt.Sprintf("--block-size=%d", bsC26), "--id="+fsid1.String(), im.Path)
			if res.crashed() {
				return viol("%s: %s", what, short(res.brief(), 400))
			}
			got, err := readIndex(meta)
			if err != nil {
				return viol("%s: the metadata cannot be read: %v; %s", what, err, short(res.brief(), 300))
			}
			have := map[uint64]rawIt{}
			for _, it := range got {
				if _, dup := have[it.K.Obj]; dup {
					return viol("%s: item %v is stored twice", what, it.K)
				}
				have[it.K.Obj] = it
			}
			for _, i := range dev.idx {
				it, ok := have[uint64(1000+i)]
				delete(have, uint64(1000+i))
				want := i > 1 && i%3 != 1
				bad := isBad(i)
				if bad && i > 1 {
					nbad++
				}
				switch {
				case want && !ok && !bad:
					return viol("%s: the leaf in block %d, at %d, is not captured; %s", what, i, i*bsC26, short(res.brief(), 200))
				case want && !ok:
					missing++
				case !want && ok:
					return viol("%s: the leaf in block %d should not be captured", what, i)
				case ok && (it.Owner != oFS || it.K.Type != tInode || it.Gen != uint64(1+i%3) ||
					string(it.Data) != string(encInode(inodeT{Size: uint64(i), Mode: 0100644, Nlink: 1}))):
					return viol("%s: the item of the leaf in block %d is stored as %v", what, i, it)
				}
			}
			for k := range have {
				return viol("%s: item with id %d is not in any leaf", what, k)
			}
		} else {
			res = exec("identify", "--progress=false", "--verbose=false", "--metadata=", "--machine=true",
				fmt.Sprintf("--block-size=%d", bsC26), fmt.Sprintf("--min-blocks=%d", n), "--max-blocks=1000000", "--sample-fraction=0.0001", "--min-occurrence=1", im.Path)
			if res.crashed() {
				return viol("%s: %s", what, short(res.brief(), 400))
			}
			max, min := map[UUID]int{}, map[UUID]int{}
			for _, i := range dev.idx {
				id := fsC26(i)
				max[id]++
				if isBad(i) {
					nbad++
				} else {
					min[id]++
				}
			}
			seen := map[string]int{}
			for _, l := range strings.Split(strings.TrimSpace(res.Stdout), "\n") {
				if l == "" {
					continue
				}
				var id string
				var c int
				if k, _ := fmt.Sscan(l, &id, &c); k != 2 {
					return viol("%s: unexpected line %q", what, l)
				}
				seen[id] = c
			}
			for id := range max {
				c := seen[id.String()]
				if c < min[id] || c > max[id] {
					return viol("%s: id %s is in %d readable blocks, but %d are reported; %s", what, id, min[id], c, short(res.brief(), 200))
				}
				missing += max[id] - c
				delete(seen, id.String())
			}
			if len(seen) > 0 {
				return viol("%s: ids %v are not on the device", what, seen)
			}
		}
		e.r.Trans(n)
		e.r.Outcome(fmt.Sprint(cmd, p, missing))
		if missing > 0 && res.Stderr == "" {
			return viol("%s: the failure is not reported", what)
		}
		if nbad == 0 && (res.Stderr != "" || res.Exit != 0) {
			return viol("%s: no read failed, but %s", what, short(res.brief(), 200))
		}
		return nil
	}
	const n = (64<<20)/bsC26 + 100
	r.ForEach(func(yield func(Case) bool) {
		ok := true
		for _, cmd := range []string{"recon", "identify"} {
			cmd := cmd
			do := func(p planC26) {
				ok = ok && yield(Case{cmd + "/" + p.String(), func(e *Env) *Violation { return run(e, cmd, p) }})
			}
			blocks := func(first, count, step int) (out []badRange) {
				for i := first; i < first+count && i < n; i += step {
					if i > 0 {
						out = append(out, badRange{uint64(i) * bsC26, uint64(i+1) * bsC26})
					}
				}
				return
			}
			do(planC26{})
			// Beyond 4 GiB.
			do(planC26{far: true})
			at := func(is ...int) (out []badRange) {
				for _, i := range is {
					out = append(out, badRange{uint64(i) * bsC26, uint64(i+1) * bsC26})
				}
				return
			}
			for k, i := range farC26 {
				if r.Thorough() || k%4 == 0 || i == 4*gibC26 || i == gibC26 {
					do(planC26{far: true, bad: at(i), errno: syscall.EIO})
				}
			}
			for _, is := range [][]int{{gibC26, 4 * gibC26}, {1024, gibC26 + 1, 2 * gibC26, 3 * gibC26, 4*gibC26 - 1, 4*gibC26 + 2}} {
				do(planC26{far: true, bad: at(is...), errno: syscall.EIO})
			}
			// The start of the device is left out as its offsets are also
			// read in other files, like libraries and metadata.
			for i := 1; i < n; i++ {
				do(planC26{bad: blocks(i, 1, 1), errno: syscall.EIO})
			}
			if cmd == "identify" {
				for _, er := range []syscall.Errno{syscall.EIO, syscall.ENODATA} {
					for _, s := range []badRange{{4096, bsC26}, {8192, 8704}, {bsC26 - 512, bsC26}, {4096, 2 * bsC26}, {4096, n * bsC26}} {
						do(planC26{bad: []badRange{s}, errno: er})
						if s.hi < 2*bsC26 {
							do(planC26{bad: []badRange{s, {bsC26, 2 * bsC26}}, errno: er})
							do(planC26{bad: []badRange{s, {5 * bsC26, 6 * bsC26}, {(n - 1) * bsC26, n * bsC26}}, errno: er})
						}
					}
				}
			}
			sub := 5
			if r.Thorough() {
				sub = 1
			}
			for i := 1; i < n; i += sub {
				for _, s := range []uint64{0, 512, 4096, 32768, bsC26 - 512} {
					o := uint64(i)*bsC26 + s
					do(planC26{bad: []badRange{{o, o + 512}}, errno: syscall.EIO})
				}
			}
			do(planC26{bad: []badRange{{bsC26, n * bsC26}}, errno: syscall.EIO})
			for _, er := range []syscall.Errno{syscall.ENXIO, syscall.ETIMEDOUT, syscall.ENODATA, syscall.EREMOTEIO, syscall.EILSEQ, syscall.EINVAL, syscall.ENOMEM} {
				for _, x := range [][3]int{{1, 1, 1}, {2, 1, 1}, {3, 1, 1}, {700, 1, 1}, {1100, 100, 1}, {1, 3, 1}, {1, n, 7}, {n - 1, 1, 1}} {
					do(planC26{bad: blocks(x[0], x[1], x[2]), errno: er})
				}
			}
			for p := 2; p < 10; p++ {
				for s := 1; s <= p; s++ {
					if p > 2 {
						do(planC26{bad: blocks(s, n, p), errno: syscall.EIO})
					} else {
						do(planC26{bad: blocks(s, n/2, p), errno: syscall.EIO})
					}
				}
			}
			step := 37
			if r.Thorough() {
				step = 3
			}
			for a := 1; a < n; a += step {
				for _, l := range []int{2, 3, 15, 16, 17, 200, n} {
					do(planC26{bad: blocks(a, l, 1)[:1], errno: syscall.EIO})
					b := blocks(a, l, 1)
					do(planC26{bad: []badRange{{b[0].lo, b[len(b)-1].hi}}, errno: syscall.EIO})
					// Pairs.
					if a+l < n {
						do(planC26{bad: append(blocks(a, 1, 1), blocks(a+l, 1, 1)...), errno: syscall.EIO})
					}
				}
			}
			// Whatever system call is used, by count.
			for _, w := range []string{"1", "2", "3", "100", "1100", "1120..1123", "1+", "1..3", "1+5", "2+2", "500..900"} {
				do(planC26{inject: "error=EIO:when=" + w})
			}
		}
	})
}
