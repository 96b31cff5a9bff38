package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"blichmann.eu/code/btrfscue/internal/identify"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// C10: identification census.
func init() {
	register(&Prop{ID: "C10", Level: "model_checking",
		Rule: "every multiset of up to 4 (thorough 5) blocks over an alphabet of 30 blocks (6 ids incl. all-zero and all-ones ids, leaf and node levels, 0 to full item counts, " +
			"leaf sizes 4 to 64 KiB, first items from empty to filling the leaf), in every order, with every minimum from 0 to beyond the count, longer runs of repeated blocks; all ids that differ from zero or all ones in one or two bytes; " +
			"images of 64 MiB with every placement class of leaves run through the real command with every block sampled; non-trivial: distinct results",
		Assumptions: []string{"the block size is only judged for ids whose non-empty leaves agree on it; ids without any non-empty leaf may show any size",
			"ids with equal counts may be listed in any order as long as it is always the same"},
		Run: runC10})
	calls["c10"] = callC10
	calls["c10ids"] = callC10ids
}

// callC10ids collects blocks whose ids are all of the nearly zero and nearly
// all-ones kind, alone and all at once.
func callC10ids([]string) int {
	var ids []UUID
	for _, base := range []byte{0, 0xff} {
		var b UUID
		for i := range b {
			b[i] = base
		}
		ids = append(ids, b)
		for p := range b {
			for _, x := range []byte{0, 1, 0x7f, 0x80, 0xfe, 0xff} {
				if x == base {
					continue
				}
				c := b
				c[p] = x
				ids = append(ids, c)
				for q := p + 1; q < 16; q++ {
					d := c
					d[q] = ^base
					if d[q] != x || x != base {
						ids = append(ids, d)
					}
				}
			}
		}
	}
	// Ordinary ids with zero and all-ones bytes anywhere.
	for p := 0; p < 16; p++ {
		for n := 1; n <= 16-p && n < 16; n++ {
			for _, x := range []byte{0, 0xff} {
				var b UUID
				for i := range b {
					b[i] = byte(0x11 * (i%7 + 1))
				}
				for i := p; i < p+n; i++ {
					b[i] = x
				}
				ids = append(ids, b)
			}
		}
	}
	seen := map[UUID]bool{}
	var all []blkC10
	bad := ""
	traces := 0
	for _, id := range ids {
		if seen[id] {
			continue
		}
		seen[id] = true
		b := blkC10{name: id.String(), id: id, leaf: true, size: 4096,
			data: encLeaf(4096, id, 1<<20, oFS, 7, []It{{oFS, K{256, tInode, 0}, 1, pat(1, 160)}})}
		for _, min := range []uint{0, 1, 2} {
			traces++
			bl := []blkC10{b, b}[:1+int(id[3])%2]
			if d := checkRows(collectC10(bl, min, 4096), censusC10(bl), uint64(min), 1e-9); d != "" && bad == "" {
				bad = fmt.Sprintf("%d blocks of id %s, minimum %d: %s", len(bl), id, min, d)
			}
		}
		for n := 0; n <= len(all)%3; n++ {
			all = append(all, b)
		}
	}
	for min := uint(0); min < 5; min++ {
		traces++
		if d := checkRows(collectC10(all, min, 4096), censusC10(all), uint64(min), 1e-9); d != "" && bad == "" {
			bad = fmt.Sprintf("%d blocks of %d ids, minimum %d: %s", len(all), len(seen), min, d)
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"bad": bad, "states": len(seen), "trans": traces, "traces": traces, "results": len(seen)})
	fmt.Println(string(j))
	return 0
}

type blkC10 struct {
	name string
	id   UUID
	leaf bool
	size int // leaf size implied by the block, 0 if it has no items
	data []byte
}

func blocksC10() []blkC10 {
	idA := UUID{0xa0, 0xdb, 0xfe, 0x80, 0x3a, 0x38, 0x11, 0xea, 0xb5, 0x10, 0x2f, 0xf1, 0x08, 0x25, 0x2d, 0x04}
	idB, idC, idD := idA, idA, idA
	idB[15] = 0x05 // differs in the last byte, same entropy
	idC[0] = 0xa1
	idD = UUID{1} // nearly zero, low entropy
	var idZ, idF UUID
	for i := range idF {
		idF[i] = 0xff
	}
	idE := idF
	idE[15] = 0xfe // nearly all ones
	var out []blkC10
	item := func(n int) It { return It{oFS, K{256, tInode, 0}, 1, pat(uint64(n), uint64(n))} }
	add := func(name string, id UUID, bs int, its ...It) {
		b := encLeaf(bs, id, 1<<20, oFS, 7, its)
		x := blkC10{name: name, id: id, leaf: true, data: b}
		if len(its) > 0 {
			x.size = bs
		}
		out = append(out, x)
	}
	add("A16 inode", idA, 16384, item(160))
	add("A16 full", idA, 16384, item(16384-hdrLen-itemLen))
	add("A16 6000", idA, 16384, item(6000), item(1))
	add("A16 empty item", idA, 16384, item(0))
	add("A empty", idA, 16384)
	add("A4 inode", idA, 4096, item(160))
	var many []It
	for i := 0; i < 100; i++ {
		many = append(many, It{oFS, K{uint64(300 + i), tInode, 0}, 1, pat(uint64(i), 100)})
	}
	add("A16 100 items", idA, 16384, many...)
	add("B16 inode", idB, 16384, item(160))
	add("B64 inode", idB, 65536, item(160))
	add("B64 30000", idB, 65536, item(30000))
	add("C4 inode", idC, 4096, item(160))
	add("C4 full", idC, 4096, item(4096-hdrLen-itemLen))
	add("C8 inode", idC, 8192, item(2000))
	add("D32 inode", idD, 32768, item(160))
	add("D empty", idD, 4096)
	add("E16 inode", idE, 16384, item(160))
	add("zero id", idZ, 16384, item(160))
	add("zero id empty", idZ, 16384)
	add("ones id", idF, 16384, item(160))
	// Almost the magic of a superblock.
	idG, idH := idA, idA
	idG[3], idH[3] = 0x55, 0x56
	for _, x := range []struct {
		id   UUID
		flip uint64
	}{{idG, 1 << 56}, {idH, 1}} {
		add(fmt.Sprintf("near super %x", x.flip), x.id, 16384, item(160))
		le.PutUint64(out[len(out)-1].data[64:], 0x4d5f53665248425f^x.flip)
	}
	node := func(name string, id UUID, level uint8) {
		b := encLeaf(16384, id, 1<<20, oFS, 7, []It{item(160)})
		b[100] = level
		out = append(out, blkC10{name: name, id: id, data: b})
	}
	node("A node", idA, 1)
	node("B node", idB, 7)
	node("C node", idC, 8)
	node("D node 255", idD, 255)
	node("zero node", idZ, 1)
	out = append(out, blkC10{name: "zeros", id: idZ, leaf: true, data: make([]byte, 16384)})
	out = append(out, blkC10{name: "ones", id: idF, data: bytes.Repeat([]byte{0xff}, 16384)})
	text := bytes.Repeat([]byte("some text, not metadata "), 700)[:16384]
	out = append(out, blkC10{name: "text", id: idOf(text), data: text})
	out = append(out, blkC10{name: "A super", id: idA, leaf: true, data: append(superOf(idA, 65536, false), make([]byte, 12288)...)})
	out = append(out, blkC10{name: "B super with log", id: idB, leaf: true, data: append(superOf(idB, 64<<20, true), make([]byte, 12288)...)})
	return out
}

func superOf(id UUID, off uint64, log bool) []byte {
	b := encSuper(off, log)
	copy(b[32:], id[:])
	return b
}

func idOf(b []byte) (u UUID) { copy(u[:], b[32:]); return }

type cenC10 struct {
	count int
	sizes map[int]bool
}

func censusC10(blks []blkC10) map[UUID]*cenC10 {
	m := map[UUID]*cenC10{}
	for _, b := range blks {
		zero, ones := true, true
		for _, x := range b.id {
			zero = zero && x == 0
			ones = ones && x == 0xff
		}
		if !b.leaf || zero || ones {
			continue
		}
		c := m[b.id]
		if c == nil {
			c = &cenC10{sizes: map[int]bool{}}
			m[b.id] = c
		}
		c.count++
		if b.size > 0 {
			c.sizes[b.size] = true
		}
	}
	return m
}

func entropyC10(id UUID) float64 {
	var n [256]int
	for _, b := range id {
		n[b]++
	}
	e := 0.0
	for _, c := range n {
		if c > 0 {
			p := float64(c) / 16
			e -= p * math.Log2(p)
		}
	}
	return e
}

type rowC10 struct {
	id    UUID
	count uint64
	ent   float64
	size  uint64
}

// checkRows compares a result with the census.
func checkRows(rows []rowC10, m map[UUID]*cenC10, min uint64, tol float64) string {
	seen := map[UUID]bool{}
	for i, r := range rows {
		c := m[r.id]
		if c == nil || uint64(c.count) < min {
			n := 0
			if c != nil {
				n = c.count
			}
			return fmt.Sprintf("id %s is reported, but occurs %d times (minimum %d)", r.id, n, min)
		}
		if seen[r.id] {
			return fmt.Sprintf("id %s is reported twice", r.id)
		}
		seen[r.id] = true
		if r.count != uint64(c.count) {
			return fmt.Sprintf("id %s occurs %d times, but %d are reported", r.id, c.count, r.count)
		}
		if math.Abs(r.ent-entropyC10(r.id)) > tol {
			return fmt.Sprintf("id %s has entropy %.9f, but %.9f is reported", r.id, entropyC10(r.id), r.ent)
		}
		if len(c.sizes) == 1 && !c.sizes[int(r.size)] {
			return fmt.Sprintf("all non-empty leaves of id %s imply the block sizes %v, but %d is reported", r.id, c.sizes, r.size)
		}
		if i > 0 && rows[i-1].count < r.count {
			return fmt.Sprintf("id %s with count %d is listed before one with count %d", rows[i-1].id, rows[i-1].count, r.count)
		}
	}
	for id, c := range m {
		if uint64(c.count) >= min && !seen[id] {
			return fmt.Sprintf("id %s occurs %d times (minimum %d), but is not reported", id, c.count, min)
		}
	}
	return ""
}

// collect runs the collecter over blocks in the given order.
func collectC10(blks []blkC10, min uint, cut int) []rowC10 {
	c := identify.FSIDCollecter{}
	for _, b := range blks {
		d := b.data
		if len(d) > cut {
			d = d[:cut]
		}
		c.CollectBlock(d)
	}
	var rows []rowC10
	for _, e := range c.Entries(min) {
		rows = append(rows, rowC10{UUID(uuid.UUID(e.FSID)), uint64(e.Count), e.Entropy, uint64(e.BlockSize)})
	}
	return rows
}

// callC10 checks all multisets that start with the given two blocks.
func callC10(args []string) int {
	var a, b, max, cut int
	fmt.Sscan(strings.Join(args, " "), &a, &b, &max, &cut)
	all := blocksC10()
	states, trans, traces := 0, 0, 0
	results := map[string]bool{}
	var bad string
	// perms calls f with every distinct order of the multiset.
	var perms func(cnt map[int]int, keys, cur []int, n int, f func([]int) bool) bool
	perms = func(cnt map[int]int, keys, cur []int, n int, f func([]int) bool) bool {
		if len(cur) == n {
			return f(cur)
		}
		for _, k := range keys {
			if cnt[k] == 0 {
				continue
			}
			cnt[k]--
			if !perms(cnt, keys, append(cur, k), n, f) {
				return false
			}
			cnt[k]++
		}
		return true
	}
	check := func(set []int) bool {
		states++
		var blks []blkC10
		cnt := map[int]int{}
		var keys []int
		for _, i := range set {
			if cnt[i] == 0 {
				keys = append(keys, i)
			}
			cnt[i]++
			blks = append(blks, all[i])
		}
		m := censusC10(blks)
		first := map[int]string{}
		return perms(cnt, keys, nil, len(set), func(order []int) bool {
			var bl []blkC10
			for _, i := range order {
				bl = append(bl, all[i])
			}
			for min := 0; min <= len(set)+1; min++ {
				if min > 1 && len(m) > 0 && min > len(set) && len(order) > 3 {
					continue
				}
				rows := collectC10(bl, uint(min), cut)
				traces++
				trans += len(set)
				names := func() string {
					s := ""
					for _, b := range bl {
						s += "[" + b.name + "]"
					}
					return s
				}
				if d := checkRows(rows, m, uint64(min), 1e-9); d != "" {
					bad = fmt.Sprintf("blocks %s of %d bytes, minimum %d: %s", names(), cut, min, d)
					return false
				}
				s := fmt.Sprint(rows)
				if f, ok := first[min]; ok && f != s {
					bad = fmt.Sprintf("blocks %s, minimum %d: result %s, but %s in another order", names(), min, s, f)
					return false
				}
				first[min] = s
				results[s] = true
			}
			return true
		})
	}
	var rec func(set []int) bool
	rec = func(set []int) bool {
		if !check(set) {
			return false
		}
		if len(set) == max {
			return true
		}
		for k := set[len(set)-1]; k < len(all); k++ {
			if !rec(append(append([]int{}, set...), k)) {
				return false
			}
		}
		return true
	}
	if b < 0 {
		check([]int{a})
		// Long runs of two kinds.
		for k := range all {
			for _, n := range []int{7, 20, 1000} {
				var bl []blkC10
				for i := 0; i < n; i++ {
					bl = append(bl, all[a])
					if i%3 == 0 {
						bl = append(bl, all[k])
					}
				}
				states++
				traces++
				for _, min := range []uint64{0, 4, uint64(n/3 + 1), uint64(n/3 + 2), uint64(n), uint64(n) + 1} {
					if d := checkRows(collectC10(bl, uint(min), cut), censusC10(bl), min, 1e-9); d != "" && bad == "" {
						bad = fmt.Sprintf("%d times %s with %s: %s", n, all[a].name, all[k].name, d)
					}
				}
			}
		}
	} else {
		rec([]int{a, b})
	}
	j, _ := json.Marshal(map[string]interface{}{"bad": bad, "states": states, "trans": trans, "traces": traces, "results": len(results)})
	fmt.Println(string(j))
	return 0
}

func runC10(r *Runner) {
	all := blocksC10()
	max := 4
	if r.Thorough() {
		max = 5
	}
	r.ForEach(func(yield func(Case) bool) {
		for _, cut := range []int{65536, 4096} {
			for a := range all {
				for b := -1; b < len(all); b++ {
					if b >= 0 && b < a {
						continue
					}
					m := max
					if cut == 4096 {
						m--
					}
					id := fmt.Sprintf("collect/%d/%d/%d", cut, a, b)
					args := []string{fmt.Sprint(a), fmt.Sprint(b), fmt.Sprint(m), fmt.Sprint(cut)}
					if !yield(Case{id, func(e *Env) *Violation { return collectedC10(e, id, "c10", args...) }}) {
						return
					}
				}
			}
		}
		if !yield(Case{"ids", func(e *Env) *Violation { return collectedC10(e, "ids", "c10ids") }}) {
			return
		}
		// The command, with every block sampled.
		for _, bs := range []int{4096, 16384, 65536} {
			for lay := 0; lay < 12; lay++ {
				bs, lay := bs, lay
				if !yield(Case{fmt.Sprintf("cli/%d/%d", bs, lay), func(e *Env) *Violation { return cliC10(e, all, bs, lay) }}) {
					return
				}
			}
		}
	})
}

func collectedC10(e *Env, id, call string, args ...string) *Violation {
	res := e.Call(call, args...)
	var x struct {
		Bad                            string
		States, Trans, Traces, Results int
	}
	if res.crashed() || res.Exit != 0 || json.Unmarshal([]byte(res.Stdout), &x) != nil {
		return viol("%s", short(res.brief(), 400))
	}
	e.r.State(x.States)
	e.r.Trans(x.Trans)
	e.r.Trace(x.Traces)
	e.r.Outcome(fmt.Sprint(id, x.Results))
	if x.Bad != "" {
		return viol("%s", x.Bad)
	}
	return nil
}

func cliC10(e *Env, all []blkC10, bs, lay int) *Violation {
	minSize := int64(64<<20) + int64(bs)*100
	size := minSize + int64(bs)*int64(lay%3)*150 + int64(lay%4)*int64(bs)/4
	n := size / int64(bs)
	im := e.NewImage("img", size)
	defer im.Close()
	// Positions: first block, around the superblock copies and their
	// vicinities, the last whole block, and spread over the rest.
	pos := []int64{0, 1, 65536/int64(bs) - 1, 65536 / int64(bs), 65536/int64(bs) + 99, 65536/int64(bs) + 100,
		1024, (64<<20)/int64(bs) - 1, (64 << 20) / int64(bs), (64<<20)/int64(bs) + 99, n - 1, n - 2}
	for i := int64(0); i < 60; i++ {
		pos = append(pos, 200+i*((n-400)/60))
	}
	used := map[int64]bool{}
	var blks []blkC10
	for i, p := range pos {
		if p < 0 || p >= n || used[p] {
			continue
		}
		used[p] = true
		var b blkC10
		switch {
		case lay < 4:
			b = all[(i*(lay+1)+lay)%len(all)]
		case lay < 8:
			b = all[(i+lay)%5]
		default:
			b = all[[]int{0, 7, 10, 13}[(i/(lay-7))%4]]
		}
		if len(b.data) > bs {
			b.data = b.data[:bs]
		}
		im.Write(uint64(p)*uint64(bs), b.data)
		blks = append(blks, b)
	}
	m := censusC10(blks)
	for _, min := range []uint64{0, 1, 2, 4, 9, 15, 16, 1000} {
		var prev string
		for _, machine := range []bool{false, true, true} {
			args := []string{"identify", fmt.Sprintf("--block-size=%d", bs), fmt.Sprintf("--machine=%v", machine), "--progress=false", "--verbose=false",
				"--metadata=", fmt.Sprintf("--min-occurrence=%d", min)}
			if min%2 == 0 {
				args = append(args, "--sample-fraction=0.0001", fmt.Sprintf("--min-blocks=%d", n+int64(min)), "--max-blocks=1000000")
			} else {
				args = append(args, "--sample-fraction=1", "--min-blocks=0", "--max-blocks=100000000")
			}
			res := e.CLI(append(args, im.Path)...)
			e.r.State(1)
			e.r.Trace(1)
			e.r.Trans(int(n))
			what := fmt.Sprintf("identify --block-size=%d --min-occurrence=%d --machine=%v, layout %d", bs, min, machine, lay)
			if res.crashed() || res.Exit != 0 {
				v := viol("%s: %s", what, short(res.brief(), 400))
				v.Hung = res.Hung != ""
				return v
			}
			var rows []rowC10
			for i, l := range strings.Split(strings.TrimSpace(res.Stdout), "\n") {
				if i == 0 && !machine || strings.TrimSpace(l) == "" {
					continue
				}
				var r rowC10
				var id string
				if k, err := fmt.Sscan(l, &id, &r.count, &r.ent, &r.size); k != 4 || err != nil {
					return viol("%s: unexpected line %q", what, l)
				}
				u, err := uuid.New(id)
				if err != nil {
					return viol("%s: unexpected id in line %q", what, l)
				}
				r.id = UUID(u)
				rows = append(rows, r)
			}
			if d := checkRows(rows, m, min, 2e-6); d != "" {
				return viol("%s: %s", what, d)
			}
			if machine && prev != "" && prev != res.Stdout {
				return viol("%s: two runs differ: %q and %q", what, short(prev, 300), short(res.Stdout, 300))
			}
			if machine {
				prev = res.Stdout
			}
			if warned := res.Stderr != ""; warned != (len(rows) == 0) {
				return viol("%s: %d ids, stderr %q", what, len(rows), short(res.Stderr, 200))
			}
			e.r.Outcome(res.Stdout)
		}
	}
	return nil
}
