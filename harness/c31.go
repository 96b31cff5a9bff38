package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// C31: the life of a mount.
func init() {
	register(&Prop{ID: "C31", Level: "model_checking",
		Rule: "the mount command with a stand-in for the kernel and for fusermount: a signal (INT, TERM) at every point of its life - at each step of mounting, with the first request " +
			"pending, after 0 to 3 answered requests, with 1 or 2 requests pending -, alone or with a second one at the same point or at each step of unmounting, and with 0 to 6 failing attempts to unmount; " +
			"unmounting by others at every point; every way to fail to mount; and a signal at every system call of the main thread (strace)",
		Assumptions: []string{"a mount is made if fusermount could hand over its connection", "no signal arrives in the child between fork and exec"},
		Run:         runC31})
}

// lifeC31 is one history of a mount.
type lifeC31 struct {
	plan    []string // see fm/main.go
	reqs    int      // requests that are answered
	pending int      // requests that are sent before the server goes on
	point   string   // init, answered or pending: where the explorer acts
	sigs    []syscall.Signal
	byOther bool // unmounted by others at that point
	strace  string
}

func (l lifeC31) String() string {
	s := fmt.Sprintf("signals %v at %q after %d requests, %d pending", l.sigs, l.point, l.reqs, l.pending)
	if l.byOther {
		s += ", unmounted by others"
	}
	if len(l.plan) > 0 {
		s += fmt.Sprintf(", fusermount: %q", l.plan)
	}
	if l.strace != "" {
		s += ", strace " + l.strace
	}
	return s
}

// liveC31 runs one history. It also returns the number of system calls.
func liveC31(e *Env, l lifeC31, meta, img string) (*Violation, int) {
	mp := e.Path("mnt31")
	os.Mkdir(mp, 0755)
	os.Remove(mp + ".log")
	os.WriteFile(mp+".plan", []byte(strings.Join(l.plan, "\n")+"\n"), 0666)
	os.WriteFile(mp+".log", nil, 0666)
	os.Chmod(mp+".plan", 0666)
	os.Chmod(mp+".log", 0666)
	ls := e.listen(mp)
	defer syscall.Close(ls)
	args := []string{e.r.Bin, "mount", "--metadata=" + meta, "--verbose=true", img, mp}
	log := e.Path("life.log")
	os.Remove(log)
	if l.strace != "" {
		args = append([]string{"strace", "-s", "0", "-o", log, "-e", "trace=all"}, append(strings.Fields(l.strace), args...)...)
	}
	c := exec.Command(args[0], args[1:]...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	c.Dir = e.Dir
	c.Env = append(os.Environ(), "BTRFSCUE_METADATA=", "TZ=UTC", "GOMAXPROCS=2", "PATH="+e.r.fmPath())
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	if err := c.Start(); err != nil {
		panic(err)
	}
	done := make(chan Res, 1)
	ended := make(chan bool)
	go func() {
		c.Wait()
		close(ended)
		done <- Res{Exit: c.ProcessState.ExitCode(), Stdout: so.String(), Stderr: se.String()}
	}()
	kill := func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	signal := func(s syscall.Signal) {
		if l.strace == "" {
			syscall.Kill(c.Process.Pid, s)
			return
		}
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/task/%d/children", c.Process.Pid, c.Process.Pid))
		for _, f := range strings.Fields(string(b)) {
			var pid int
			if fmt.Sscan(f, &pid); pid > 1 {
				syscall.Kill(pid, s)
			}
		}
	}
	// A connection that is gone gives the command some time to end by itself.
	m := &Mnt{e: e, fd: -1, done: done, held: map[uint64]reply{}, real: true, pid: c.Process.Pid, kill: func() {
		select {
		case <-ended:
		case <-time.After(20 * time.Second):
			kill()
		}
	}}
	var res *Res
	limit := time.Now().Add(20 * time.Second)
	setTimeout(ls, 5*time.Millisecond)
	// accept waits for the next connection, that is for fusermount, or the end.
	accept := func() int {
		for res == nil {
			fd, _, err := syscall.Accept4(ls, syscall.SOCK_CLOEXEC)
			if err == nil {
				return fd
			}
			select {
			case r := <-done:
				res = &r
			default:
			}
			if time.Now().After(limit) {
				kill()
				r := <-done
				r.Hung = "did not end within 20 s"
				res = &r
			}
		}
		return -1
	}
	e.r.State(1)
	e.r.Trace(1)
	var bad *Violation
	acted := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				d, ok := x.(mntDead)
				if !ok {
					panic(x)
				}
				// The server is gone before the signal: not expected.
				if m.res != nil {
					res = m.res
				}
				if !acted && l.strace == "" && len(l.plan) == 0 {
					bad = viol("%v: %s", l, d.what)
				}
			}
		}()
		if m.fd = accept(); m.fd < 0 {
			return
		}
		setTimeout(m.fd, 20*time.Millisecond)
		m.buf = make([]byte, 256<<10)
		pause := func(f func()) {
			if l.strace != "" {
				f()
				return
			}
			// Wait until the server waits for its next request.
			time.Sleep(2 * time.Millisecond)
			syscall.Kill(c.Process.Pid, syscall.SIGSTOP)
			for i := 0; i < 200; i++ {
				b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", c.Process.Pid))
				if j := bytes.LastIndexByte(b, ')'); j > 0 && len(b) > j+2 && b[j+2] == 'T' {
					break
				}
				time.Sleep(time.Millisecond)
			}
			f()
			syscall.Kill(c.Process.Pid, syscall.SIGCONT)
		}
		act := func() {
			acted = true
			for _, s := range l.sigs {
				signal(s)
			}
			if l.byOther {
				syscall.Shutdown(m.fd, syscall.SHUT_RDWR)
				syscall.Close(m.fd)
				m.fd = -1
			}
		}
		init := make([]byte, 16)
		le.PutUint32(init, 7)
		le.PutUint32(init[4:], 28)
		le.PutUint32(init[8:], 128<<10)
		le.PutUint32(init[12:], 1|1<<5|1<<12|1<<13|1<<18)
		if l.point == "before init" {
			act()
			if l.byOther {
				return
			}
		}
		if l.point == "init" {
			var u uint64
			pause(func() { u = m.Send(opInit, 0, init); act() })
			if l.byOther {
				return
			}
			m.Wait(u)
		} else if r := m.Req(opInit, 0, init); r.err != 0 {
			panic(mntDead{fmt.Sprint("init: ", r.err)})
		}
		if l.point == "answered" && l.reqs == 0 {
			act()
			return
		}
		want := []string{"rescue", "metadata", "nothing"}
		for i := 0; i < l.reqs; i++ {
			x := m.Lookup(1, want[i])
			if ok := x.err == 0; ok != (i < 2) {
				bad = viol("%v: looking up %q gives %v", l, want[i], x.err)
				return
			}
			e.r.Trans(1)
		}
		switch l.point {
		case "answered":
			act()
		case "pending":
			var us []uint64
			pause(func() {
				for i := 0; i < l.pending; i++ {
					us = append(us, m.Send(opLookup, 1, cstr(want[i])))
				}
				act()
			})
			if l.byOther {
				return
			}
			// A mount with requests can only be unmounted after they were answered.
			for i, u := range us {
				if r := m.Wait(u); (r.err == 0) != (i < 2) {
					bad = viol("%v: looking up %q gives %v", l, want[i], r.err)
				}
			}
		}
	}()
	if bad == nil {
		// Now it is time to end.
		for res == nil {
			fd := accept()
			if fd < 0 {
				break
			}
			b := make([]byte, 1)
			if n, _ := syscall.Read(fd, b); n == 1 && m.fd >= 0 {
				// Unmounted, tear down the connection.
				syscall.Shutdown(m.fd, syscall.SHUT_RDWR)
				syscall.Close(m.fd)
				m.fd = -1
			}
			syscall.Close(fd)
		}
	}
	if m.fd >= 0 {
		syscall.Close(m.fd)
	}
	kill()
	if res == nil {
		r := <-done
		res = &r
	}
	if bad != nil {
		return bad, 0
	}
	n := 0
	if l.strace != "" {
		b, _ := os.ReadFile(log)
		n = bytes.Count(b, []byte("\n"))
	}
	b, _ := os.ReadFile(mp + ".log")
	mounted, unmounted := strings.Contains(string(b), "mounted\n"), strings.Contains(string(b), "unmounted\n")
	mounted = mounted && (strings.HasPrefix(string(b), "mounted\n") || strings.Contains(string(b), "\nmounted\n"))
	fails := strings.Count(string(b), "failed\n")
	e.r.Trans(1 + fails)
	e.r.Outcome(fmt.Sprint(mounted, unmounted, fails, res.Exit, l.point, l.byOther, l.sigs, len(l.plan)))
	switch {
	case res.Hung != "":
		v := viol("%v: %s", l, res.Hung)
		v.Hung = true
		return v, n
	case !mounted && res.Exit < 0 && (len(l.sigs) > 0 || len(l.plan) > 0) && !strings.Contains(res.Stderr, "goroutine "):
		// Ended by the signal before there was a mount
	case res.crashed():
		return viol("%v: %s", l, short(res.brief(), 400)), n
	case !mounted:
		if !acted && l.strace == "" && (res.Exit == 0 || strings.TrimSpace(res.Stderr) == "") {
			return viol("%v: not mounted, but: %s", l, res.brief()), n
		}
	case l.byOther:
		if res.Exit != 0 && l.point != "init" && l.point != "before init" {
			return viol("%v: unmounted by others, but: %s", l, res.brief()), n
		}
	case !unmounted:
		if fails < 5 {
			return viol("%v: the command ended without unmounting: %s", l, res.brief()), n
		}
		if res.Exit == 0 || strings.TrimSpace(res.Stderr) == "" {
			return viol("%v: cannot be unmounted, but: %s", l, res.brief()), n
		}
	case res.Exit != 0:
		return viol("%v: unmounted, but: %s", l, res.brief()), n
	}
	return nil, n
}

func runC31(r *Runner) {
	sigs := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}
	name := map[syscall.Signal]string{syscall.SIGINT: "INT", syscall.SIGTERM: "TERM"}
	var ls []lifeC31
	// Points of the explorer.
	type at struct {
		point         string
		reqs, pending int
	}
	points := []at{{"before init", 0, 0}, {"init", 0, 0}, {"answered", 0, 0}, {"answered", 1, 0}, {"answered", 2, 0}, {"answered", 3, 0}, {"pending", 0, 1}, {"pending", 1, 2}, {"pending", 3, 3}}
	for _, p := range points {
		ls = append(ls, lifeC31{point: p.point, reqs: p.reqs, pending: p.pending, byOther: true})
		for _, s := range sigs {
			base := lifeC31{point: p.point, reqs: p.reqs, pending: p.pending, sigs: []syscall.Signal{s}}
			ls = append(ls, base)
			for _, s2 := range sigs {
				two := base
				two.sigs = []syscall.Signal{s, s2}
				ls = append(ls, two)
				for _, u := range []string{"unmounting", "unmounted"} {
					two := base
					two.plan = []string{u + " " + name[s2]}
					ls = append(ls, two)
				}
			}
			for f := 1; f <= 6; f++ {
				busy := base
				for i := 0; i < f; i++ {
					busy.plan = append(busy.plan, fmt.Sprintf("unmounting%d fail", i))
				}
				ls = append(ls, busy)
			}
			both := base
			both.byOther = true
			ls = append(ls, both)
		}
	}
	// Points of fusermount.
	for _, p := range []string{"start", "connected", "sent"} {
		for _, s := range sigs {
			one := lifeC31{plan: []string{p + " " + name[s]}, point: "planned"}
			ls = append(ls, one)
			for _, p2 := range []string{"start", "connected", "sent", "unmounting", "unmounted"} {
				for _, s2 := range sigs {
					ls = append(ls, lifeC31{plan: []string{p + " " + name[s], p2 + " " + name[s2]}, point: "planned"})
				}
			}
			ls = append(ls, lifeC31{plan: []string{p + " " + name[s], "unmounting0 fail", "unmounting1 fail"}, point: "planned"})
		}
	}
	ls = append(ls, lifeC31{plan: []string{"start fail"}, point: "none"}, lifeC31{plan: []string{"connected fail"}, point: "none"})
	var mu sync.Mutex
	files := map[*Env][2]string{}
	file := func(e *Env) (string, string) {
		mu.Lock()
		defer mu.Unlock()
		f, ok := files[e]
		if !ok {
			f = [2]string{e.Path("ix31"), ""}
			writeIndex(f[0], 16384, append(fsItems(inlineN("a", 300, "some data")), chunkItem(13*mib, 4*mib, 1, 0)))
			im := e.NewImage("img31", mib)
			f[1] = im.Path
			files[e] = f
			chownAll(f[0])
		}
		return f[0], f[1]
	}
	te := newEnv(r, "C31-count")
	defer te.close()
	calls := 0
	r.ForEach(func(yield func(Case) bool) {
		for i := range ls {
			l := ls[i]
			if !yield(Case{fmt.Sprintf("life/%d", i), func(e *Env) *Violation {
				meta, img := file(e)
				v, _ := liveC31(e, l, meta, img)
				return v
			}}) {
				return
			}
		}
		// Every system call of the main thread.
		meta, img := file(te)
		l := lifeC31{strace: "-q", point: "answered", reqs: 3, sigs: []syscall.Signal{syscall.SIGTERM}}
		_, n := liveC31(te, l, meta, img)
		calls = n
		for i := 1; i <= n+20; i++ {
			for _, s := range sigs {
				l := lifeC31{strace: fmt.Sprintf("-e inject=all:signal=SIG%s:when=%d", name[s], i), point: "answered", reqs: 3, sigs: []syscall.Signal{syscall.SIGTERM}}
				if !yield(Case{fmt.Sprintf("call/%d/%s", i, name[s]), func(e *Env) *Violation {
					meta, img := file(e)
					v, _ := liveC31(e, l, meta, img)
					return v
				}}) {
					return
				}
			}
		}
	})
	r.Note("system calls of the main thread", calls)
}
