package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// C18: concurrent requests and readers.
func init() {
	register(&Prop{ID: "C18", Level: "model_checking",
		Rule: "all pairs of 22 requests on nodes of a mount (on directories used for the first time and later, and on mounts used for the first time) and of 13 queries on one index, " +
			"in all schedules with 1 preemption (thorough: 2) at any statement of the file system (index queries: and of the index) and with up to 2 (index: 3) preemptions before locks; " +
			"reads of parts and of whole files; triples of some (thorough: all); every execution runs the real code under the race detector and is compared with the same requests one at a time; non-trivial: distinct schedules",
		Assumptions: []string{"statements between two points run alone, which the race detector justifies: accesses that are not ordered by locks are reported in any schedule",
			"code of bbolt and go-fuse is not preempted, only observed by the race detector"},
		Run: runC18})
}

// thr18 is one request of an execution.
type thr18 struct {
	launch func()
	uniq   uint64
	// n(ot started) p(aused) b(locked by a known lock) r(unning) d(one)
	// B(locked elsewhere) N(ot started, blocked)
	state  byte
	points int
	reply  reply
}

// rig18 is a connection to a worker that runs under the explorer's control.
type rig18 struct {
	e    *Env
	m    *Mnt // nil for an index
	ctl  int
	thr  []*thr18
	done chan Res // for an index
	used int
	// An index query answered something else than alone.
	wrong bool
}

func (e *Env) ctlListen() (int, string) {
	p := e.Path("c")
	os.Remove(p + ".sock")
	return e.listen(p), p + ".sock"
}

func (x *rig18) accept(l int) {
	setTimeout(l, 30*time.Second)
	fd, _, err := syscall.Accept4(l, syscall.SOCK_CLOEXEC)
	if err != nil {
		panic(mntDead{"the worker does not connect: " + err.Error()})
	}
	x.ctl = fd
	syscall.Close(l)
}

func (x *rig18) cmd(kind byte, t, num int) {
	b := []byte{kind, byte(t), byte(num), byte(num >> 8), byte(num >> 16), 0, 0, 0}
	if _, err := syscall.Write(x.ctl, b); err != nil {
		x.dead("the worker went away")
	}
}

func (x *rig18) dead(what string) {
	if x.m != nil {
		x.m.dead(what)
	}
	r := <-x.done
	x.done <- r
	panic(mntDead{what + ": " + r.brief()})
}

type pollFd struct {
	fd      int32
	events  int16
	revents int16
}

// ready waits for events and replies for up to ms milliseconds.
func (x *rig18) ready(ms int) (ctl, mnt bool) {
	p := [2]pollFd{{int32(x.ctl), 1, 0}, {-1, 1, 0}}
	if x.m != nil {
		p[1].fd = int32(x.m.fd)
	}
	for {
		_, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p[0])), 2, uintptr(ms))
		if e != syscall.EINTR {
			break
		}
	}
	return p[0].revents != 0, p[1].revents != 0
}

type ev18 struct {
	kind byte
	t    int
	num  int
}

func (x *rig18) event() ev18 {
	var b [8]byte
	n, err := syscall.Read(x.ctl, b[:])
	if err != nil || n != 8 {
		x.dead("the worker went away")
	}
	return ev18{b[0], int(b[1]), int(b[2]) | int(b[3])<<8 | int(b[4])<<16}
}

// apply updates the state of threads.
func (x *rig18) apply(v ev18) {
	if v.t >= len(x.thr) {
		return
	}
	t := x.thr[v.t]
	switch v.kind {
	case 'r', 'p', 'w':
		t.state = 'p'
	case 'b':
		t.state = 'b'
	case 'f':
		t.state = 'd'
	case 'x':
		x.wrong = true
	}
	if v.num > 0 {
		t.points = v.num
	}
}

func (x *rig18) takeReply() {
	u, r, ok := x.m.poll()
	if !ok {
		return
	}
	for _, t := range x.thr {
		if t.uniq == u {
			t.reply, t.state = r, 'd'
			return
		}
	}
	x.m.held[u] = r
}

// expect waits for an answer to a command.
func (x *rig18) expect(kind byte) ev18 {
	for t := time.Now(); time.Since(t) < 60*time.Second; {
		c, m := x.ready(500)
		if m && x.m != nil {
			x.takeReply()
		}
		if c {
			v := x.event()
			if v.kind == kind {
				return v
			}
			x.apply(v)
		}
	}
	x.dead(fmt.Sprintf("no answer to command %q", kind))
	panic("")
}

// wait waits until a thread is not running any more.
func (x *rig18) wait(t int) {
	th := x.thr[t]
	start := time.Now()
	for th.state == 'r' || th.state == 'n' {
		c, m := x.ready(20)
		if c {
			x.apply(x.event())
		}
		if m {
			x.takeReply()
		}
		if !c && !m && th.state == 'r' {
			x.cmd('s', t, 0)
			if x.expect('S').num == 1 && th.state == 'r' {
				th.state = 'B' // waits in code without points
				return
			}
		}
		if !c && !m && th.state == 'n' && time.Since(start) > 30*time.Millisecond {
			th.state = 'N' // waits for another one before its first point
			return
		}
		if time.Since(start) > 60*time.Second {
			x.dead("no answer within 60 s")
		}
	}
}

type seg18 struct{ t, budget int }

func (s seg18) String() string {
	if s.budget == 0 {
		return fmt.Sprintf("%c", 'A'+s.t)
	}
	return fmt.Sprintf("%c%d", 'A'+s.t, s.budget)
}

func schedName(s []seg18) string {
	var o []string
	for _, x := range s {
		o = append(o, x.String())
	}
	return strings.Join(o, " ")
}

// run executes the threads by the given schedule and then to their ends in
// the given order. It returns the number of segments that ended as planned.
func (x *rig18) run(mask int, thr []*thr18, segs []seg18, order []int) int {
	x.thr = thr
	x.cmd('a', len(thr), mask)
	x.expect('A')
	for i, t := range thr {
		t.state, t.points = 'n', 0
		t.launch()
		x.wait(i)
		if t.state == 'd' {
			x.cmd('n', 0, 0)
			x.expect('N')
		}
	}
	resume := func(t, budget int) {
		th := x.thr[t]
		switch th.state {
		case 'p', 'b':
			th.state = 'r'
			x.cmd('g', t, budget)
			x.wait(t)
		case 'N':
			c, m := x.ready(20)
			if c {
				x.apply(x.event())
			}
			if m {
				x.takeReply()
			}
			if th.state == 'p' {
				th.state = 'r'
				x.cmd('g', t, budget)
				x.wait(t)
			}
		case 'B':
			th.state = 'r'
			x.cmd('t', t, budget)
			x.expect('T')
			x.wait(t)
		}
	}
	planned := 0
	for _, s := range segs {
		resume(s.t, s.budget)
		if thr[s.t].state != 'p' {
			break
		}
		planned++
	}
	for spin := 0; ; spin++ {
		left, moved := 0, false
		for _, t := range order {
			if thr[t].state == 'd' {
				continue
			}
			before := thr[t].points
			resume(t, 0)
			if thr[t].state != 'd' {
				left++
			}
			if thr[t].state == 'd' || thr[t].points != before {
				moved = true
			}
		}
		if left == 0 {
			break
		}
		if !moved && spin > 100 {
			panic(deadlock18{})
		}
	}
	x.cmd('d', 0, 0)
	x.expect('D')
	return planned
}

type deadlock18 struct{}

// explore18 runs all schedules with at most bound preemptions. exec gets the
// schedule and returns the number of segments that ended as planned.
func explore18(n, bound int, exec func(segs []seg18, order []int) (int, *Violation)) *Violation {
	var rec func(pre []seg18, left int) (int, *Violation)
	rec = func(pre []seg18, left int) (int, *Violation) {
		last := -1
		if len(pre) > 0 {
			last = pre[len(pre)-1].t
		}
		min := len(pre)
		// Run to the end, starting with any other thread.
		for _, p := range permutations(n) {
			if p[0] == last {
				continue
			}
			k, v := exec(pre, p)
			if v != nil {
				return k, v
			}
			if k < min {
				return k, nil
			}
		}
		if left == 0 {
			return min, nil
		}
		for t := 0; t < n; t++ {
			if t == last {
				continue
			}
			for b := 1; ; b++ {
				k, v := rec(append(pre[:len(pre):len(pre)], seg18{t, b}), left-1)
				if v != nil {
					return k, v
				}
				if k <= len(pre) {
					break // the thread ended before
				}
			}
		}
		return min, nil
	}
	_, v := rec(nil, bound)
	return v
}

// way18 is a kind of exploration: which points are preempted (1: statements of
// the file system, 2: statements of the index, 4: before locks) and how often.
type way18 struct{ mask, bound int }

func each18(n int, ways []way18, exec func(mask int, segs []seg18, order []int) (int, *Violation)) *Violation {
	for _, w := range ways {
		if v := explore18(n, w.bound, func(segs []seg18, order []int) (int, *Violation) { return exec(w.mask, segs, order) }); v != nil {
			return v
		}
	}
	return nil
}

// The metadata: identical directories d0, d1, ...
const dirs18 = 300

// g18 is the number of sectors of each of both extents of g.
const g18 = 9

var content18 = string(pat(mib+8192, g18*S)) + strings.Repeat("\x00", S) + string(pat(2*mib+4096, g18*S))

func its18(n int) []It {
	its := []It{
		{oChunk, K{256, tChunk, mib}, 10, encChunk(chunkT{Len: 4 * mib, Owner: 2, StripeLen: 65536, Type: 1, IOAlign: 4096, IOWidth: 4096, Sector: 4096, Sub: 0, Stripes: []stripeT{{Dev: 1, Off: mib}}})},
		{oChunk, K{256, tChunk, 100 * mib}, 10, encChunk(chunkT{Len: 4 * mib, Owner: 2, StripeLen: 65536, Type: 1, IOAlign: 4096, IOWidth: 4096, Sector: 4096, Sub: 0, Stripes: []stripeT{{Dev: 1, Off: 2 * mib}}})},
	}
	var l []*node
	for i := 0; i < n; i++ {
		b := uint64(10000 + 20*i)
		f := inlineN("f", b+1, "content of f")
		f.X = []xattr{{"user.a", "1"}, {"user.b", "two"}}
		f.I.UID = 7
		l = append(l, dirN(fmt.Sprintf("d%d", i), b,
			f,
			fileN("g", b+2, (2*g18+1)*S, ext{Off: 0, Disk: mib + 8192, Num: g18 * S}, ext{Off: g18 * S, Num: S}, ext{Off: (g18 + 1) * S, Disk: 100*mib + 4096, Num: g18 * S}),
			linkN("l", b+3, "target"),
			dirN("s", b+4, inlineN("in", b+5, "inner"), linkN("l2", b+6, "x")),
			subvolN("v", uint64(1000+i), inlineN("vf", 300, "in volume"))))
	}
	return append(its, fsItems(l...)...)
}

// op18 is a request on a directory. prep makes it ready and returns the
// request and a description of a reply that does not depend on the directory.
type op18 struct {
	name string
	warm bool // needs looked up nodes
	prep func(d *dir18) (op uint32, node uint64, body []byte, show func(r reply) string)
}

type dir18 struct {
	m     *Mnt
	node  uint64
	warm  map[string]uint64
	fh    map[string]uint64
	names []string
}

func showAttr(a fattr) string {
	return fmt.Sprintf("mode %o size %d uid %d gid %d nlink %d times %v %v %v", a.Mode, a.Size, a.Uid, a.Gid, a.Nlink, a.Atime, a.Mtime, a.Ctime)
}

func (d *dir18) open(name string, dir bool) uint64 {
	op := uint32(opOpen)
	node := d.node
	if dir {
		op = opOpendir
	}
	if name != "" {
		node = d.warm[name]
	}
	fh, err := d.m.open(op, node, 0)
	if err != 0 {
		panic(mntDead{fmt.Sprintf("opening %q: %v", name, err)})
	}
	return fh
}

// shared returns one handle for all requests of an execution.
func (d *dir18) shared(name string, dir bool) uint64 {
	if d.fh[name] == 0 {
		d.fh[name] = d.open(name, dir)
	}
	return d.fh[name]
}

func ops18() []op18 {
	var out []op18
	look := func(in, name string) {
		out = append(out, op18{"lookup:" + in + "/" + name, in != "", func(d *dir18) (uint32, uint64, []byte, func(reply) string) {
			node := d.node
			if in != "" {
				node = d.warm[in]
			}
			return opLookup, node, cstr(name), func(r reply) string {
				if r.err != 0 {
					return r.err.Error()
				}
				en := decEntry(r.data)
				d.m.Forget(en.node, 1)
				return fmt.Sprint(en.node > 1, showAttr(en.attr))
			}
		}})
	}
	list := func(name, in string, plus, shared bool) {
		out = append(out, op18{name, in != "", func(d *dir18) (uint32, uint64, []byte, func(reply) string) {
			node := d.node
			if in != "" {
				node = d.warm[in]
			}
			var fh uint64
			if shared {
				fh = d.shared(in, true)
			} else {
				fh = d.open(in, true)
			}
			op := uint32(opReaddir)
			if plus {
				op = opReaddirplus
			}
			return op, node, readIn(fh, 0, 4096), func(r reply) string {
				if r.err != 0 {
					return r.err.Error()
				}
				var l []string
				for _, e := range d.m.decDir(r.data, plus) {
					s := fmt.Sprintf("%q:%d", e.name, e.typ)
					if e.entry != nil && e.name != "." && e.name != ".." {
						s += fmt.Sprint(e.entry.node > 1, showAttr(e.entry.attr))
						d.m.Forget(e.entry.node, 1)
					}
					l = append(l, s)
				}
				sort.Strings(l)
				return strings.Join(l, " ")
			}
		}})
	}
	for _, n := range []string{"f", "g", "s", "v", "none"} {
		look("", n)
	}
	list("list", "", false, false)
	list("list-shared", "", false, true)
	list("listplus", "", true, false)
	attr := func(in string) {
		out = append(out, op18{"getattr:" + in, in != "", func(d *dir18) (uint32, uint64, []byte, func(reply) string) {
			node := d.node
			if in != "" {
				node = d.warm[in]
			}
			return opGetattr, node, make([]byte, 16), func(r reply) string {
				if r.err != 0 {
					return r.err.Error()
				}
				return showAttr(decAttr(r.data[16:]))
			}
		}})
	}
	attr("")
	attr("f")
	look("s", "in")
	look("v", "vf")
	list("list-s", "s", false, false)
	list("listplus-v", "v", true, false)
	for _, n := range []string{"f", "g"} {
		n := n
		out = append(out, op18{"open:" + n, true, func(d *dir18) (uint32, uint64, []byte, func(reply) string) {
			return opOpen, d.warm[n], make([]byte, 8), func(r reply) string { return r.err.Error() }
		}})
		for _, off := range []uint64{0, (g18 + 1) * S} {
			for _, shared := range []bool{false, true} {
				off, shared := off, shared
				if n == "f" && (off > 0 || shared) {
					continue
				}
				out = append(out, op18{fmt.Sprintf("read:%s at %d shared %v", n, off, shared), true, func(d *dir18) (uint32, uint64, []byte, func(reply) string) {
					var fh uint64
					if shared {
						fh = d.shared(n, false)
					} else {
						fh = d.open(n, false)
					}
					size := uint32(90)
					if !shared {
						size = (2*g18 + 1) * S
					}
					return opRead, d.warm[n], readIn(fh, off, size), func(r reply) string {
						return fmt.Sprint(r.err, len(r.data), hash64(string(r.data)))
					}
				}})
			}
		}
	}
	out = append(out,
		op18{"readlink", true, func(d *dir18) (uint32, uint64, []byte, func(reply) string) {
			return opReadlink, d.warm["l"], nil, func(r reply) string { return fmt.Sprint(r.err, string(r.data)) }
		}},
		op18{"getxattr", true, func(d *dir18) (uint32, uint64, []byte, func(reply) string) {
			return opGetxattr, d.warm["f"], xattrIn(100, "user.b"), func(r reply) string { return fmt.Sprint(r.err, string(r.data)) }
		}},
		op18{"listxattr", true, func(d *dir18) (uint32, uint64, []byte, func(reply) string) {
			return opListxattr, d.warm["f"], xattrIn(100, ""), func(r reply) string { return fmt.Sprint(r.err, string(r.data)) }
		}})
	return out
}

// mount18 mounts n directories under the explorer's control.
func (e *Env) mount18(n int) *rig18 {
	meta := e.Path(fmt.Sprintf("meta18-%d", n))
	if !exists(meta) {
		writeIndex(meta, 4096, its18(n))
	}
	im := e.Path("img18")
	if !exists(im) {
		b := pat(0, 6*mib)
		if err := os.WriteFile(im, b, 0644); err != nil {
			panic(err)
		}
	}
	l, sock := e.ctlListen()
	e.mountVia, e.slow = []string{"c18mount", sock}, true
	defer func() { e.mountVia = nil }()
	x := &rig18{e: e}
	m, r := e.Mount(false, "mount", "--metadata="+meta, "--verbose=false", im)
	if m == nil {
		panic(mntDead{"mount failed: " + r.brief()})
	}
	x.m = m
	x.accept(l)
	// Forgetting is not answered and would run while requests are explored.
	m.later = map[uint64]uint64{}
	return x
}

// finish forgets everything and looks at the used directories again.
func (x *rig18) finish() (vi *Violation) {
	defer func() {
		if p := recover(); p != nil {
			d, ok := p.(mntDead)
			if !ok {
				panic(p)
			}
			vi = viol("after forgetting all nodes: %s", d.what)
		}
	}()
	l := x.m.later
	x.m.later = map[uint64]uint64{}
	for n, c := range l {
		x.m.forgetNow(n, c)
	}
	step := x.used/10 + 1
	for i := 0; i < x.used; i += step {
		d := x.dir(i, i%2 == 0)
		if s := d.after(true); s != "" {
			return viol("after forgetting all nodes: %s", s)
		}
	}
	return nil
}

func (x *rig18) close() Res {
	r := x.m.Unmount()
	syscall.Close(x.ctl)
	return r
}

// dir looks up a fresh directory.
func (x *rig18) dir(i int, warm bool) *dir18 {
	g := x.m.Walk(fmt.Sprintf("rescue/d%d", i))
	if g.err != 0 {
		panic(mntDead{fmt.Sprintf("looking up directory %d: %v", i, g.err)})
	}
	x.m.Forget(g.node, 1)
	d := &dir18{m: x.m, node: g.node, warm: map[string]uint64{}, fh: map[string]uint64{}}
	if warm {
		for _, n := range []string{"f", "g", "l", "s", "v"} {
			c := x.m.Lookup(g.node, n)
			if c.err != 0 {
				panic(mntDead{fmt.Sprintf("looking up %s: %v", n, c.err)})
			}
			d.warm[n] = c.node
			x.m.Forget(c.node, 1)
		}
	}
	return d
}

// after compares the directory with what it should look like.
func (d *dir18) after(full bool) string {
	for round := 0; round < 2; round++ {
		if round == 1 && !full {
			break
		}
		for _, plus := range []bool{false, true} {
			if plus && !full {
				continue
			}
			l, err := d.m.List(d.node, 4096, plus)
			if s := strings.Join(gotNames(l), " "); err != 0 || s != `"f":8 "g":8 "l":10 "s":4 "v":4` {
				return fmt.Sprintf("the directory lists as %s (%v)", s, err)
			}
		}
		for _, n := range []string{"f", "g", "l", "s", "v"} {
			c := d.m.Lookup(d.node, n)
			if c.err != 0 {
				return fmt.Sprintf("looking up %s: %v", n, c.err)
			}
			if !full {
				d.m.Forget(c.node, 1)
				continue
			}
			switch n {
			case "f", "g":
				fh, err := d.m.Open(c.node, 0)
				b, err2 := d.m.Read(c.node, fh, 0, (2*g18+1)*S)
				w := "content of f"
				if n == "g" {
					w = content18
				}
				if err != 0 || err2 != 0 || string(b) != w {
					return fmt.Sprintf("%s does not read as recorded (%v, %v, %d bytes)", n, err, err2, len(b))
				}
				d.m.Release(c.node, fh)
			case "s", "v":
				l, err := d.m.List(c.node, 4096, false)
				w := map[string]string{"s": `"in":8 "l2":10`, "v": `"vf":8`}[n]
				if s := strings.Join(gotNames(l), " "); err != 0 || s != w {
					return fmt.Sprintf("%s lists as %s (%v)", n, s, err)
				}
			}
			d.m.Forget(c.node, 1)
		}
	}
	return ""
}

// exec18 executes some requests concurrently on a fresh directory.
func (x *rig18) exec18(ops []op18, warm bool, alone []string, segs []seg18, order []int, mask int) (k int, vi *Violation) {
	d := x.dir(x.used, warm)
	x.used++
	var thr []*thr18
	var shows []func(reply) string
	for _, o := range ops {
		op, node, body, show := o.prep(d)
		t := &thr18{}
		t.launch = func() { t.uniq = x.m.Send(op, node, body) }
		thr = append(thr, t)
		shows = append(shows, show)
	}
	what := func() string {
		var n []string
		for _, o := range ops {
			n = append(n, o.name)
		}
		return fmt.Sprintf("requests %s (%s), schedule [%s] then %v", strings.Join(n, " | "), map[bool]string{false: "cold", true: "warm"}[warm], schedName(segs), order)
	}
	defer func() {
		p := recover()
		switch p := p.(type) {
		case nil:
		case mntDead:
			vi = viol("%s: %s", what(), p.what)
		case deadlock18:
			vi = viol("%s: the requests wait for each other for ever", what())
		default:
			panic(p)
		}
	}()
	k = x.run(mask, thr, segs, order)
	e := x.e
	e.r.Trans(len(segs) + len(order))
	e.r.State(1)
	for i, t := range thr {
		got := shows[i](t.reply)
		if alone != nil && got != alone[i] {
			return k, viol("%s: request %c answers %s, alone it answers %s", what(), 'A'+i, short(got, 300), short(alone[i], 300))
		}
	}
	if s := d.after(x.used%8 == 1); s != "" {
		return k, viol("%s: afterwards %s", what(), s)
	}
	return k, nil
}

// index18 runs all schedules of some queries on one index.
func index18(e *Env, ops []int, ways []way18) (vi *Violation) {
	meta := e.Path("meta18-ix")
	if !exists(meta) {
		f := inlineN("f", 300, "content of f")
		f.X = []xattr{{"user.a", "value"}}
		its := append(its18(0)[:2], fsItems(dirN("d", 310, f),
			fileN("g", 303, 3*S, ext{Off: 0, Disk: mib + 8192, Num: S}, ext{Off: S, Num: S}, ext{Off: 2 * S, Disk: 100*mib + 4096, Num: S}),
			subvolN("v", 400, inlineN("vf", 257, "in v")))...)
		writeIndex(meta, 4096, its)
	}
	var names []string
	for _, o := range ops {
		names = append(names, ixOps[o].name)
	}
	l, sock := e.ctlListen()
	x := &rig18{e: e, done: make(chan Res, 1)}
	e.slow = true
	go func() { x.done <- e.Call("c18index", sock, meta) }()
	x.accept(l)
	vi = each18(len(ops), ways, func(mask int, segs []seg18, order []int) (k int, vi *Violation) {
		if e.r.expired() {
			return 0, nil
		}
		what := func() string {
			return fmt.Sprintf("queries %s, schedule [%s] then %v", strings.Join(names, " | "), schedName(segs), order)
		}
		defer func() {
			p := recover()
			switch p := p.(type) {
			case nil:
			case mntDead:
				vi = viol("%s: %s", what(), p.what)
			case deadlock18:
				vi = viol("%s: the queries wait for each other for ever", what())
				e.kill()
			default:
				panic(p)
			}
		}()
		var thr []*thr18
		for t, o := range ops {
			t, o := t, o
			thr = append(thr, &thr18{launch: func() { x.cmd('l', 0, t<<8|o) }})
		}
		k = x.run(mask, thr, segs, order)
		x.cmd('l', 0, 0xfffe)
		x.expect('R')
		e.r.State(1)
		e.r.Trace(1)
		e.r.Trans(len(segs) + len(order))
		e.r.Outcome(strings.Join(names, "|") + schedName(segs) + fmt.Sprint(mask, order))
		if x.wrong {
			b, _ := os.ReadFile(e.Path(".stderr"))
			return k, viol("%s: %s", what(), short(string(b), 500))
		}
		return k, nil
	})
	if vi == nil || x.wrong {
		x.cmd('l', 0, 0xffff)
	}
	if r := <-x.done; vi == nil && r.crashed() {
		vi = viol("queries %s: %s", strings.Join(names, " | "), r.brief())
	}
	syscall.Close(x.ctl)
	return vi
}

func in18(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func runC18(r *Runner) {
	ops := ops18()
	alone := map[string]string{}
	// What every request answers alone.
	base := newEnv(r, "alone")
	vi := func() (vi *Violation) {
		var x *rig18
		defer func() {
			if p := recover(); p != nil {
				d, ok := p.(mntDead)
				if !ok {
					panic(p)
				}
				vi = viol("requests one at a time: %s", d.what)
			}
		}()
		x = base.mount18(2 * len(ops))
		for _, o := range ops {
			d := x.dir(x.used, o.warm)
			x.used++
			op, node, body, show := o.prep(d)
			alone[o.name] = show(x.m.Req(op, node, body))
		}
		x.close()
		return nil
	}()
	base.close()
	if vi != nil {
		r.ForEach(func(yield func(Case) bool) { yield(Case{"alone", func(e *Env) *Violation { return vi }}) })
		return
	}
	pairIx, pairDir, pairCold := []way18{{7, 1}, {4, 3}}, []way18{{1, 1}, {4, 2}}, []way18{{4, 1}}
	tripIx, tripDir := []way18{{4, 1}}, []way18{{4, 1}}
	if r.Thorough() {
		pairIx, pairDir, pairCold = []way18{{7, 2}, {4, 3}}, []way18{{1, 2}, {4, 3}}, []way18{{5, 1}, {4, 2}}
		tripIx, tripDir = []way18{{7, 1}, {4, 2}}, []way18{{5, 1}, {4, 2}}
	}
	// Triples of everything, or of some that share what is computed once.
	three := func(names ...string) func(c []int) bool {
		return func(c []int) bool {
			for _, i := range c {
				n := ""
				if names[0] == "list" {
					n = ops[i].name
				} else {
					n = ixOps[i].name
				}
				if !r.Thorough() && !in18(n, names) {
					return false
				}
			}
			return true
		}
	}
	dirThree, ixThree := three("list", "lookup:/f", "listplus", "getattr:", "read:g at 0 shared false"), three("physical-1", "segments", "path")
	r.ForEach(func(yield func(Case) bool) {
		add := func(id string, f func(e *Env) *Violation) bool { return yield(Case{id, f}) }
		// Combinations of k of n.
		combs := func(n, k int, f func(c []int) bool) bool {
			var rec func(c []int, min int) bool
			rec = func(c []int, min int) bool {
				if len(c) == k {
					return f(append([]int(nil), c...))
				}
				for i := min; i < n; i++ {
					if !rec(append(c, i), i) {
						return false
					}
				}
				return true
			}
			return rec(nil, 0)
		}
		index := func(ways []way18) func(c []int) bool {
			return func(c []int) bool {
				var id []string
				for _, i := range c {
					id = append(id, ixOps[i].name)
				}
				return add("index/"+strings.Join(id, "|"), func(e *Env) *Violation { return index18(e, c, ways) })
			}
		}
		mount := func(ways, cold []way18) func(c []int) bool {
			return func(c []int) bool {
				var p []op18
				var al, ids []string
				warm := false
				for _, i := range c {
					p = append(p, ops[i])
					al = append(al, alone[ops[i].name])
					warm = warm || ops[i].warm
					ids = append(ids, ops[i].name)
				}
				id := strings.Join(ids, "|")
				// Mounts that were never used, and fresh directories of one mount.
				run := func(e *Env, dirs int, ways []way18) (vi *Violation) {
					var x *rig18
					end := func() {
						if x != nil && x.m.res == nil && vi == nil {
							vi = x.finish()
						}
						if x != nil && x.m.res == nil {
							if r := x.close(); vi == nil && r.crashed() {
								vi = viol("%s: %s", id, r.brief())
							}
						}
						x = nil
					}
					defer end()
					vi = each18(len(c), ways, func(mask int, segs []seg18, order []int) (int, *Violation) {
						if e.r.expired() {
							return 0, nil
						}
						if x == nil || x.used == dirs {
							if end(); vi != nil {
								return 0, vi
							}
							x = e.mount18(dirs)
							e.r.Trace(1)
						}
						e.r.Outcome(id + schedName(segs) + fmt.Sprint(mask, order))
						return x.exec18(p, warm, al, segs, order, mask)
					})
					return vi
				}
				return (cold == nil || add("mount/"+id, func(e *Env) *Violation { return run(e, 1, cold) })) &&
					add("dir/"+id, func(e *Env) *Violation { return run(e, dirs18, ways) })
			}
		}
		_ = combs(len(ixOps), 2, index(pairIx)) && combs(len(ops), 2, mount(pairDir, pairCold)) &&
			combs(len(ixOps), 3, func(c []int) bool { return !ixThree(c) || index(tripIx)(c) }) && combs(len(ops), 3, func(c []int) bool {
			// Two that wait for a handle could not be told from each other.
			n := 0
			for _, i := range c {
				if strings.Contains(ops[i].name, "shared") && !strings.Contains(ops[i].name, "shared false") {
					n++
				}
			}
			return n > 1 || !dirThree(c) || mount(tripDir, nil)(c)
		})
	})
}
