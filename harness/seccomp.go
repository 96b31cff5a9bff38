package main

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Bad sectors: reads of a program that overlap given byte ranges fail with an
// error. This is done by a system call filter that looks at the offset and
// length of each pread, so that it does not depend on the order of reads.

// A range does not cross a multiple of 4 GiB.
type badRange struct{ lo, hi uint64 }

type bpf struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

func badFilter(rs []badRange, errno uint32) []bpf {
	const (
		ldW, jeq, jgt  = 0x20, 0x15, 0x25
		ret, addX, tax = 0x06, 0x0c, 0x07
		allow, errRet  = 0x7fff0000, 0x00050000
	)
	p := []bpf{
		{ldW, 0, 0, 0}, // nr
		{jeq, 1, 0, syscall.SYS_PREAD64},
		{ret, 0, 0, allow},
		{ldW, 0, 0, 16 + 2*8}, // length
		{tax, 0, 0, 0},
	}
	for _, r := range rs {
		high, last := uint32(r.lo>>32), uint32((r.hi-1)&0xffffffff)
		p = append(p,
			bpf{ldW, 0, 0, 16 + 3*8 + 4}, // offset, high
			bpf{jeq, 0, 5, high},
			bpf{ldW, 0, 0, 16 + 3*8},
			bpf{jgt, 3, 0, last},
			bpf{addX, 0, 0, 0},
			bpf{jgt, 0, 1, uint32(r.lo)},
			bpf{ret, 0, 0, errRet | errno},
		)
	}
	return append(p, bpf{ret, 0, 0, allow})
}

// seccompMain is called as: vh seccomp RANGES ERRNO PROGRAM ARGS...
func seccompMain(a []string) {
	var rs []badRange
	for _, s := range strings.Split(a[0], ",") {
		var r badRange
		if n, _ := fmt.Sscanf(s, "%d-%d", &r.lo, &r.hi); n == 2 {
			rs = append(rs, r)
		}
	}
	var errno uint32
	fmt.Sscan(a[1], &errno)
	prog := badFilter(rs, errno)
	fp := struct {
		n uint16
		p unsafe.Pointer
	}{uint16(len(prog)), unsafe.Pointer(&prog[0])}
	runtime.LockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		os.Exit(97)
	}
	if _, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&fp))); e != 0 {
		os.Exit(97)
	}
	runtime.KeepAlive(prog)
	syscall.Exec(a[2], a[2:], os.Environ())
	os.Exit(97)
}

// ExecBad runs the real btrfscue binary on a device with bad sectors.
func (e *Env) ExecBad(rs []badRange, errno syscall.Errno, args ...string) Res {
	var s []string
	for _, r := range rs {
		s = append(s, fmt.Sprintf("%d-%d", r.lo, r.hi))
	}
	a := append([]string{"seccomp", strings.Join(s, ","), fmt.Sprint(int(errno)), e.r.Bin}, args...)
	c := exec.Command(e.r.Self, a...)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	c.Dir = e.Dir
	c.Env = append(os.Environ(), "BTRFSCUE_METADATA=", "TZ=UTC")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Getuid() == 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	r := Res{}
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(wallLimit, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	err := c.Wait()
	if !t.Stop() {
		r.Hung = "did not terminate within 180 s"
	}
	r.Stdout, r.Stderr = so.String(), se.String()
	if err != nil {
		r.Exit = -1
		if c.ProcessState != nil {
			r.Exit = c.ProcessState.ExitCode()
		}
	}
	if r.Exit == 97 {
		panic("seccomp filter cannot be installed")
	}
	return r
}
