package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func stackString() string {
	b := make([]byte, 16384)
	return string(b[:runtime.Stack(b, false)])
}

const nobody = 65534

// Env is the execution environment of one pool worker: a private scratch
// directory and an unprivileged sub-process in which btrfscue commands run.
type Env struct {
	r   *Runner
	Dir string
	w   *exec.Cmd
	in  *bufio.Writer
	inC *os.File
	res *bufio.Reader
	rf  *os.File
	die chan int

	img     *os.File
	imgSize int64
	written []int64 // offsets of 64 KiB units written to img
	Seq     int
	metaEnv string // BTRFSCUE_METADATA of the real program

	// Mount commands are executed by this helper function if set.
	mountVia []string
	slow     bool // many executions in one command
}

func newEnv(r *Runner, name string) *Env {
	e := &Env{r: r, Dir: filepath.Join(r.Scratch, name)}
	os.RemoveAll(e.Dir)
	if err := os.MkdirAll(e.Dir, 0755); err != nil {
		panic(err)
	}
	os.Chown(e.Dir, nobody, nobody)
	return e
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}

func (e *Env) Path(p string) string { return filepath.Join(e.Dir, p) }

func (e *Env) reset() {
	if e.w != nil {
		e.kill()
	}
}

func (e *Env) close() {
	e.reset()
	if e.img != nil {
		e.img.Close()
	}
	if e.Dir != "" {
		os.RemoveAll(e.Dir)
	}
}

func (e *Env) kill() {
	if e.w == nil {
		return
	}
	e.w.Process.Kill()
	<-e.die
	e.inC.Close()
	e.rf.Close()
	e.w = nil
}

func (e *Env) start() {
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	ir, iw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	self := e.r.Self
	if w := filepath.Join(e.r.Scratch, "vhw"); exists(w) {
		self = w // built with other options
	}
	c := exec.Command(self, "worker")
	c.Stdin = ir
	c.ExtraFiles = []*os.File{pw}
	null, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	c.Stdout, c.Stderr = null, null
	c.Dir = e.Dir
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "BTRFSCUE_METADATA=", "TZ=UTC",
		"PATH="+e.r.fmPath(), "GORACE=halt_on_error=1 exitcode=2")
	if os.Getuid() == 0 {
		c.SysProcAttr = &syscall.SysProcAttr{
			Credential: &syscall.Credential{Uid: nobody, Gid: nobody},
			Pdeathsig:  syscall.SIGKILL,
		}
	}
	// Pdeathsig is tied to the starting thread.
	if err := c.Start(); err != nil {
		panic(err)
	}
	null.Close()
	pw.Close()
	ir.Close()
	e.w, e.inC, e.rf = c, iw, pr
	e.in = bufio.NewWriter(iw)
	e.res = bufio.NewReader(pr)
	e.die = make(chan int, 2)
	die := e.die
	go func() {
		c.Wait()
		code := -1
		if c.ProcessState != nil {
			code = c.ProcessState.ExitCode()
		}
		die <- code
		die <- code
	}()
}

// Res is the outcome of one command.
type Res struct {
	Exit   int // exit status; 2 for a crash, -1 for a kill by the watchdog
	Hung   string
	Stdout string
	Stderr string
}

func (r Res) crashed() bool {
	return r.Hung != "" || r.Exit == 2 || r.Exit < 0 ||
		strings.Contains(r.Stderr, "goroutine ") && strings.Contains(r.Stderr, "[running]")
}

func (r Res) brief() string {
	s := r.Stderr
	if _, x, ok := strings.Cut(s, "WARNING: DATA RACE"); ok {
		// Only the functions and the places in the first lines of the stacks.
		var l []string
		n := 0
		for _, t := range strings.Split(x, "\n") {
			f := strings.Fields(t)
			switch {
			case len(f) == 0:
			case strings.HasPrefix(t, "      "):
				if n++; n <= 3 {
					l = append(l, f[0])
				}
			default:
				if !strings.HasPrefix(t, "   ") && !strings.HasSuffix(t, "()") {
					n = 0
				}
				l = append(l, strings.TrimSpace(t))
			}
		}
		return "data race: " + short(strings.Join(l, " "), 2500)
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return fmt.Sprintf("exit=%d %s stderr=%q", r.Exit, r.Hung, s)
}

func cpuTicks(pid int) (ticks int64, rssKB int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return u + k, rss * 4
}

// Resource bounds after which a command is considered not to terminate. All
// explored inputs need milliseconds of CPU time.
const (
	cpuLimitTicks = 10 * 100 // 10 s of CPU time
	rssLimitKB    = 2 << 20  // 2 GiB
	wallLimit     = 180 * time.Second
	outLimit      = 256 << 20
)

type workerReq struct {
	Op   string   `json:"op"` // cli or call
	Args []string `json:"args"`
	Out  string   `json:"out"`
	Err  string   `json:"err"`
}

// CLI runs one btrfscue command in the worker process.
func (e *Env) CLI(args ...string) Res { return e.do("cli", args) }

// Call runs a named helper function (see calls) in the worker process, for
// calls that may crash or not terminate.
func (e *Env) Call(name string, args ...string) Res {
	return e.do("call", append([]string{name}, args...))
}

func (e *Env) do(op string, args []string) Res {
	if e.w == nil {
		e.start()
	}
	outP, errP := e.Path(".stdout"), e.Path(".stderr")
	q, _ := json.Marshal(workerReq{op, args, outP, errP})
	pid := e.w.Process.Pid
	t0, _ := cpuTicks(pid)
	e.in.Write(q)
	e.in.WriteByte('\n')
	e.in.Flush()
	type line struct {
		s   string
		err error
	}
	leak := 0
	got := make(chan line, 1)
	res := e.res
	go func() {
		s, err := res.ReadString('\n')
		got <- line{s, err}
	}()
	out := Res{}
	start := time.Now()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case l := <-got:
			if l.err != nil {
				// Worker exited: os.Exit or crash.
				out.Exit = <-e.die
				e.inC.Close()
				e.rf.Close()
				e.w = nil
			} else {
				fmt.Sscanf(l.s, "%d %d", &out.Exit, &leak)
			}
			break loop
		case <-tick.C:
			t, rss := cpuTicks(pid)
			var fsz int64
			if fi, err := os.Stat(outP); err == nil {
				fsz = fi.Size()
			}
			why := ""
			if t-t0 > cpuLimitTicks && !e.slow {
				why = "did not terminate within 10 s of CPU time"
			} else if rss > rssLimitKB {
				why = "used more than 2 GiB of memory"
			} else if fsz > outLimit {
				why = "wrote more than 256 MiB of output"
			} else if time.Since(start) > wallLimit {
				why = "did not terminate within 180 s"
			}
			if why != "" {
				out.Exit, out.Hung = -1, why
				e.kill()
				<-got
				break loop
			}
		}
	}
	rd := func(p string) string {
		f, err := os.Open(p)
		if err != nil {
			return ""
		}
		defer f.Close()
		fi, _ := f.Stat()
		n := fi.Size()
		if n > 16<<20 {
			n = 16 << 20
		}
		b := make([]byte, n)
		k, _ := f.Read(b)
		return string(b[:k])
	}
	if leak != 0 {
		e.kill()
	}
	out.Stdout, out.Stderr = rd(outP), rd(errP)
	if e.w == nil {
		// Start the next worker with clean capture files.
		os.Remove(outP)
		os.Remove(errP)
	}
	return out
}

// Exec runs the real, separately linked btrfscue binary.
func (e *Env) Exec(args ...string) Res {
	c := exec.Command(e.r.Bin, args...)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	c.Dir = e.Dir
	c.Env = append(os.Environ(), "BTRFSCUE_METADATA="+e.metaEnv, "TZ=UTC")
	if os.Getuid() == 0 {
		c.SysProcAttr = &syscall.SysProcAttr{
			Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	c.WaitDelay = 5 * time.Second
	err := c.Start()
	late := false
	if err == nil {
		t := time.AfterFunc(wallLimit, func() {
			late = true
			c.Process.Kill()
		})
		err = c.Wait()
		t.Stop()
	}
	r := Res{Stdout: so.String(), Stderr: se.String()}
	if late {
		r.Hung = "did not terminate within 180 s"
	}
	if err != nil {
		r.Exit = -1
		if c.ProcessState != nil {
			r.Exit = c.ProcessState.ExitCode()
		}
	}
	return r
}
