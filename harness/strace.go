package main

import (
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// readRec is one read of the image as seen by the kernel.
type readRec struct {
	Off, Asked uint64
	N          int64
	Failed     bool
}

var reRead = regexp.MustCompile(`^(?:\d+ +)?(\w+)\(.*\) *= (-?\d+)(.*)$`)

// Strace runs the real btrfscue binary as an unprivileged user with faults
// injected into the reads of path. It returns the reads in order.
func (e *Env) Strace(path, inject string, args ...string) (Res, []readRec) {
	log := e.Path("strace.log")
	os.Remove(log)
	a := []string{"-f", "--seccomp-bpf", "-P", path, "-e", "trace=pread64,read,readv,preadv,preadv2,lseek", "-s", "0", "-o", log}
	if inject != "" {
		a = append(a, "-e", "inject=pread64,read,readv,preadv,preadv2:"+inject)
	}
	a = append(append(a, e.r.Bin), args...)
	r := e.runStrace(a)
	b, _ := os.ReadFile(log)
	var recs []readRec
	pos := uint64(0)
	for _, l := range strings.Split(string(b), "\n") {
		m := reRead.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		n, _ := strconv.ParseInt(m[2], 10, 64)
		in := l[strings.Index(l, "(")+1 : strings.LastIndex(l[:strings.LastIndex(l, " = ")], ")")]
		f := strings.Split(in, ", ")
		num := func(i int) uint64 {
			if i >= len(f) {
				return 0
			}
			v, _ := strconv.ParseUint(f[i], 10, 64)
			return v
		}
		switch m[1] {
		case "lseek":
			if n >= 0 {
				pos = uint64(n)
			}
		case "pread64":
			recs = append(recs, readRec{num(3), num(2), n, n < 0})
		case "read":
			recs = append(recs, readRec{pos, num(2), n, n < 0})
			if n > 0 {
				pos += uint64(n)
			}
		}
	}
	return r, recs
}

// lost tells whether a byte of [off, off+n) was within a failed read.
func lost(recs []readRec, off, n uint64) bool {
	for _, x := range recs {
		if x.Failed && x.Off < off+n && off < x.Off+x.Asked {
			return true
		}
	}
	return false
}

func anyFailed(recs []readRec) bool {
	for _, x := range recs {
		if x.Failed {
			return true
		}
	}
	return false
}

// runStrace runs strace as an unprivileged user.
func (e *Env) runStrace(a []string) Res {
	c := exec.Command("strace", a...)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	c.Dir = e.Dir
	c.Env = append(os.Environ(), "BTRFSCUE_METADATA=", "TZ=UTC", "GOMAXPROCS=1")
	if os.Getuid() == 0 {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Setpgid: true}
	} else {
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	}
	r := Res{}
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(wallLimit, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	err := c.Wait()
	if !t.Stop() {
		r.Hung = "did not terminate within 180 s"
	}
	r.Stdout, r.Stderr = so.String(), se.String()
	if err != nil {
		r.Exit = -1
		if c.ProcessState != nil {
			r.Exit = c.ProcessState.ExitCode()
		}
	}
	return r
}

// straceLog runs the real btrfscue binary as an unprivileged user and logs all
// system calls on a file.
func (e *Env) straceLog(path, log string, args ...string) Res {
	a := []string{"-f", "-P", path, "-s", "0", "-o", log, e.r.Bin}
	return e.runStrace(append(a, args...))
}
