package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"blichmann.eu/code/btrfscue/cmd"
	"blichmann.eu/code/btrfscue/internal/zzvsched"
	"blichmann.eu/code/btrfscue/internal/zzvsync"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// The worker's side of the scheduler of C18. The explorer connects to a socket
// and decides which of the registered goroutines runs, and for how many
// points. Nothing here may order the memory accesses of the goroutines in the
// eyes of the race detector: no locks, no channels, no instrumented code, only
// plain system calls.

const (
	maxThr   = 4
	maxPoint = 8192
	maxHits  = 3
)

type sched18 struct {
	armed  bool
	want   int
	n      int
	goid   [maxThr]uint64
	turn   int
	budget int
	points [maxThr]int
	mask   int
	hits   [maxThr][maxPoint]uint8
	// Where the stack of a thread was at its last point, and that point, if
	// it was skipped.
	addr   [maxThr]uintptr
	last   [maxThr]int
	pr, pw [maxThr]int
	ctl    int
}

var s18 sched18

//go:norace
func goid18() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	id := uint64(0)
	for i := 10; i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}

// msg18 sends an event: kind, thread, number.
//
//go:norace
func msg18(kind byte, t, num int) {
	var b [8]byte
	b[0], b[1] = kind, byte(t)
	b[2], b[3], b[4] = byte(num), byte(num>>8), byte(num>>16)
	syscall.Syscall(syscall.SYS_WRITE, uintptr(s18.ctl), uintptr(unsafe.Pointer(&b[0])), 8)
}

//go:norace
func pause18(t int) {
	var b [1]byte
	for {
		_, _, e := syscall.Syscall(syscall.SYS_READ, uintptr(s18.pr[t]), uintptr(unsafe.Pointer(&b[0])), 1)
		if e != syscall.EINTR {
			return
		}
	}
}

//go:norace
func thread18() int {
	g := goid18()
	for i := 0; i < s18.n; i++ {
		if s18.goid[i] == g {
			return i
		}
	}
	return -1
}

//go:norace
func hook18(kind, id int) {
	if !s18.armed {
		return
	}
	// A long loop is at a point that is skipped anyway. Finding out which
	// goroutine this is would take long.
	var x byte
	a := uintptr(unsafe.Pointer(&x))
	if t := s18.turn; t >= 0 && id > 0 && s18.last[t] == id && s18.addr[t] == a {
		return
	}
	t := thread18()
	if t < 0 {
		if s18.n >= s18.want {
			return
		}
		t = s18.n
		s18.goid[t] = goid18()
		s18.n++
		msg18('r', t, 0)
		pause18(t)
		return
	}
	if s18.turn != t {
		// It waited for something that the other thread has released.
		msg18('w', t, s18.points[t])
		pause18(t)
		return
	}
	s18.last[t] = 0
	if s18.mask>>uint(kind)&1 == 0 {
		s18.last[t], s18.addr[t] = id, a
		return
	}
	if id > 0 && id < maxPoint {
		// Loops may be interrupted in their first iterations.
		if s18.hits[t][id] >= maxHits {
			s18.last[t], s18.addr[t] = id, a
			return
		}
		s18.hits[t][id]++
	}
	s18.points[t]++
	if s18.budget > 0 {
		if s18.budget--; s18.budget == 0 {
			msg18('p', t, s18.points[t])
			pause18(t)
		}
	}
}

//go:norace
func block18() {
	t := -1
	if s18.armed {
		t = thread18()
	}
	if t < 0 {
		runtime.Gosched()
		return
	}
	msg18('b', t, s18.points[t])
	pause18(t)
}

// blocked18 tells whether a goroutine waits for anything but a system call.
//
//go:norace
func blocked18(t int) bool {
	b := make([]byte, 1<<20)
	n := runtime.Stack(b, true)
	_, r, ok := strings.Cut(string(b[:n]), fmt.Sprintf("goroutine %d [", s18.goid[t]))
	if !ok {
		return false
	}
	r, _, _ = strings.Cut(r, "]")
	r, _, _ = strings.Cut(r, ",")
	switch r {
	case "running", "runnable", "syscall", "GC worker (idle)":
		return false
	}
	return true
}

// control18 executes the explorer's commands.
//
//go:norace
func control18(spawn func(k int)) {
	for {
		var b [8]byte
		n, _, e := syscall.Syscall(syscall.SYS_READ, uintptr(s18.ctl), uintptr(unsafe.Pointer(&b[0])), 8)
		if e == syscall.EINTR {
			continue
		}
		if n != 8 {
			return
		}
		t, num := int(b[1]), int(b[2])|int(b[3])<<8|int(b[4])<<16
		switch b[0] {
		case 'a':
			s18.n, s18.want, s18.mask, s18.turn, s18.budget = 0, t, num, -1, 0
			for i := range s18.points {
				s18.points[i] = 0
				s18.hits[i] = [maxPoint]uint8{}
				s18.last[i] = 0
			}
			s18.armed = true
			msg18('A', 0, 0)
		case 'd':
			s18.armed = false
			msg18('D', 0, 0)
		case 'n': // a thread without points
			s18.goid[s18.n] = 0
			s18.n++
			msg18('N', 0, 0)
		case 'g':
			s18.turn, s18.budget = t, num
			var x [1]byte
			syscall.Syscall(syscall.SYS_WRITE, uintptr(s18.pw[t]), uintptr(unsafe.Pointer(&x[0])), 1)
		case 't': // only the turn, for a thread that is not paused
			s18.turn, s18.budget = t, num
			msg18('T', 0, 0)
		case 's':
			x := 0
			if blocked18(t) {
				x = 1
			}
			msg18('S', t, x)
		case 'l':
			spawn(num)
		}
	}
}

func init() {
	zzvsched.Hook = hook18
	zzvsync.Block = block18
	var ended chan int
	start := func(sock string, spawn func(k int)) bool {
		fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_SEQPACKET|syscall.SOCK_CLOEXEC, 0)
		if err == nil {
			err = syscall.Connect(fd, &syscall.SockaddrUnix{Name: sock})
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "connecting to the explorer:", err)
			return false
		}
		s18.ctl = fd
		for i := range s18.pr {
			var p [2]int
			if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
				return false
			}
			s18.pr[i], s18.pw[i] = p[0], p[1]
		}
		ended = make(chan int)
		go func(c chan int) {
			control18(spawn)
			close(c)
		}(ended)
		return true
	}
	stop := func() {
		s18.armed = false
		// No two may read the commands.
		syscall.Shutdown(s18.ctl, syscall.SHUT_RDWR)
		<-ended
		for i := range s18.pr {
			syscall.Close(s18.pr[i])
			syscall.Close(s18.pw[i])
		}
		syscall.Close(s18.ctl)
	}
	// c18mount SOCKET ARGS...: run a command under the explorer's control.
	calls["c18mount"] = func(args []string) int {
		if !start(args[0], func(int) {}) {
			return 97
		}
		os.Args = append([]string{"btrfscue"}, args[1:]...)
		cmd.Execute()
		stop()
		return 0
	}
	// c18index SOCKET METADATA: run queries on an index.
	calls["c18index"] = func(args []string) int {
		quit := make(chan int)
		var running sync.WaitGroup
		var ix *index.Index
		reset := func() {
			var err error
			if ix != nil {
				ix.Close()
			}
			if ix, err = index.OpenReadOnly(args[1]); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(97)
			}
		}
		reset()
		// What every query answers alone.
		var alone []string
		for _, o := range ixOps {
			alone = append(alone, o.run(ix))
			reset()
		}
		if !start(args[0], func(k int) {
			switch {
			case k == 0xffff:
				close(quit)
			case k == 0xfffe:
				running.Wait() // closing is ordered after the queries
				reset()
				msg18('R', 0, 0)
			default:
				x := ix
				running.Add(1)
				go func() {
					defer running.Done()
					t, op := k>>8, k&0xff
					// Every thread registers before it does anything.
					hook18(2, 0)
					if s := ixOps[op].run(x); s != alone[op] {
						fmt.Fprintf(os.Stderr, "query %s answers %s, alone it answers %s\n", ixOps[op].name, s, alone[op])
						msg18('x', t, s18.points[t])
					}
					done18(t)
				}()
			}
		}) {
			return 97
		}
		<-quit
		running.Wait()
		stop()
		ix.Close()
		return 0
	}
}

//go:norace
func done18(t int) { msg18('f', t, s18.points[t]) }

// ixOp is a query on an index.
type ixOp struct {
	name string
	run  func(ix *index.Index) string
}

var ixOps = []ixOp{
	{"physical-1", func(ix *index.Index) string { return fmt.Sprint(ix.Physical(2*mib + 5)) }},
	{"physical-2", func(ix *index.Index) string { return fmt.Sprint(ix.Physical(101 * mib)) }},
	{"physical-none", func(ix *index.Index) string { return fmt.Sprint(ix.Physical(50 * mib)) }},
	{"segments", func(ix *index.Index) string {
		s := ""
		for _, x := range ix.FileSegments(oFS, 303) {
			x := x
			off, ok := ix.SegmentOffset(&x)
			s += fmt.Sprint(x.Offset, x.Length, x.IsZero(), off, ok, ";")
		}
		return s
	}},
	{"inode", func(ix *index.Index) string {
		i := ix.FindInodeItem(oFS, 303)
		return fmt.Sprint(i != nil, i.Size(), i.Mode())
	}},
	{"extent", func(ix *index.Index) string {
		e := ix.FindFileExtentItem(oFS, 300)
		return fmt.Sprint(e != nil, e.IsInline(), e.Data())
	}},
	{"path", func(ix *index.Index) string {
		d := ix.FindDirItemForPath(oFS, "/d/f")
		return fmt.Sprint(d != nil, d.Name(), d.Location())
	}},
	{"list", func(ix *index.Index) string {
		s := ""
		for r, d := ix.DirItems(oFS, 256); r.HasNext(); d = r.Next() {
			for ; d != nil; d = d.Next() {
				s += d.Name() + ";"
			}
		}
		return s
	}},
	{"xattrs", func(ix *index.Index) string {
		s := ""
		for r, d := ix.XAttrItems(oFS, 300); r.HasNext(); d = r.Next() {
			s += d.Name() + "=" + d.Data() + ";"
		}
		return s
	}},
	{"subvolumes", func(ix *index.Index) string {
		s := ""
		for r, _ := ix.Subvolumes(); r.HasNext(); r.Next() {
			s += fmt.Sprint(r.Key().ObjectID, ";")
		}
		return s
	}},
	{"chunks", func(ix *index.Index) string {
		s := ""
		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
			s += fmt.Sprint(r.Key().Offset, c.Length(), ";")
		}
		return s
	}},
	{"full", func(ix *index.Index) string {
		s := ""
		for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
			s += fmt.Sprint(r.Owner(), r.Key(), len(v), ";")
		}
		return s
	}},
	{"range", func(ix *index.Index) string {
		s := ""
		for r, v := ix.Range(oFS, btrfs.Key{ObjectID: 300}, btrfs.Key{ObjectID: 303, Type: 255, Offset: max64}); r.HasNext(); v = r.Next() {
			s += fmt.Sprint(r.Key(), len(v), ";")
		}
		return s
	}},
}
