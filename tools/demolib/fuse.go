package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The program plays the kernel for "btrfscue mount", and it is itself the
// stand-in for fusermount when run under that name.
var _ = fmMain()

func fmMain() int {
	if filepath.Base(os.Args[0]) != "fusermount" {
		return 0
	}
	if os.Args[1] == "-u" {
		os.Exit(0)
	}
	comm, err := strconv.Atoi(os.Getenv("_FUSE_COMMFD"))
	if err != nil {
		os.Exit(1)
	}
	fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_SEQPACKET, 0)
	if err == nil {
		err = syscall.Connect(fd, &syscall.SockaddrUnix{Name: os.Args[1] + ".sock"})
	}
	if err == nil {
		err = syscall.Sendmsg(comm, []byte{0}, syscall.UnixRights(fd), nil, 0)
	}
	if err != nil {
		os.Exit(1)
	}
	os.Exit(0)
	return 0
}

type mnt struct {
	c    *exec.Cmd
	fd   int
	uniq uint64
	out  *strings.Builder
}

type rep struct {
	err  syscall.Errno
	data []byte
}

// mount serves the metadata through "btrfscue mount".
func mount(args ...string) *mnt {
	mp := pth("mnt")
	os.Mkdir(mp, 0755)
	os.Mkdir(pth("fm"), 0755)
	self, err := os.Executable()
	must(err)
	b, err := os.ReadFile(self)
	must(err)
	must(os.WriteFile(pth("fm/fusermount"), b, 0755))
	bin, err := os.ReadFile("bin/btrfscue")
	must(err)
	must(os.WriteFile(pth("btrfscue"), bin, 0755))
	l, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_SEQPACKET|syscall.SOCK_CLOEXEC, 0)
	must(err)
	os.Remove(mp + ".sock")
	must(syscall.Bind(l, &syscall.SockaddrUnix{Name: mp + ".sock"}))
	os.Chmod(mp+".sock", 0777)
	must(syscall.Listen(l, 1))
	m := &mnt{out: &strings.Builder{}}
	m.c = exec.Command(pth("btrfscue"), append(append([]string{"mount"}, args...), mp)...)
	m.c.Dir = scratch
	m.c.Stdout, m.c.Stderr = m.out, m.out
	m.c.Env = append(os.Environ(), "TZ=UTC", "BTRFSCUE_METADATA=", "PATH="+pth("fm")+":"+os.Getenv("PATH"))
	if os.Getuid() == 0 {
		m.c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	must(m.c.Start())
	timeout(l, 60)
	m.fd, _, err = syscall.Accept4(l, syscall.SOCK_CLOEXEC)
	if err != nil {
		m.c.Process.Kill()
		m.c.Wait()
		fail("mount: %v: %s", err, m.out)
	}
	syscall.Close(l)
	timeout(m.fd, 60)
	in := make([]byte, 16)
	le.PutUint32(in, 7)
	le.PutUint32(in[4:], 28)
	le.PutUint32(in[8:], 128<<10)
	le.PutUint32(in[12:], 1|1<<5|1<<12|1<<13|1<<18)
	if r := m.req(26, 0, in); r.err != 0 {
		m.end("init: %v", r.err)
	}
	return m
}

func timeout(fd int, sec int64) {
	tv := syscall.Timeval{Sec: sec}
	syscall.SetsockoptTimeval(fd, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
}

// end kills the server and fails.
func (m *mnt) end(f string, a ...interface{}) {
	m.c.Process.Kill()
	m.c.Wait()
	fail("%s (%.600s)", fmt.Sprintf(f, a...), m.out)
}

func (m *mnt) send(op uint32, node uint64, body []byte) uint64 {
	m.uniq += 2
	b := make([]byte, 40+len(body))
	le.PutUint32(b, uint32(len(b)))
	le.PutUint32(b[4:], op)
	le.PutUint64(b[8:], m.uniq)
	le.PutUint64(b[16:], node)
	copy(b[40:], body)
	if err := syscall.Sendmsg(m.fd, b, nil, nil, syscall.MSG_NOSIGNAL); err != nil {
		m.end("the server went away: %v", err)
	}
	return m.uniq
}

// recv returns the next reply.
func (m *mnt) recv() (uint64, rep) {
	b := make([]byte, 256<<10)
	for {
		n, _, err := syscall.Recvfrom(m.fd, b, 0)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n < 16 {
			m.end("no reply (%v, %d bytes)", err, n)
		}
		return le.Uint64(b[8:]), rep{syscall.Errno(-int32(le.Uint32(b[4:]))), b[16:n]}
	}
}

func (m *mnt) req(op uint32, node uint64, body []byte) rep {
	u := m.send(op, node, body)
	for {
		if v, r := m.recv(); v == u {
			return r
		}
	}
}

// fent is what a lookup returns.
type fent struct {
	err         syscall.Errno
	node        uint64
	size        uint64
	at, mt, ct  ts
	mode, nlink uint32
	uid, gid    uint32
}

func (m *mnt) lookup(dir uint64, name string) fent {
	r := m.req(1, dir, append([]byte(name), 0))
	if r.err == 0 && le.Uint64(r.data) == 0 {
		r.err = syscall.ENOENT
	}
	if r.err != 0 {
		return fent{err: r.err}
	}
	b := r.data[40:]
	t := func(i int) ts { return ts{int64(le.Uint64(b[24+8*i:])), le.Uint32(b[48+4*i:])} }
	return fent{0, le.Uint64(r.data), le.Uint64(b[8:]), t(0), t(1), t(2),
		le.Uint32(b[60:]), le.Uint32(b[64:]), le.Uint32(b[68:]), le.Uint32(b[72:])}
}

// walk looks up a path below the rescue directory.
func (m *mnt) walk(path string) fent {
	e := m.lookup(1, "rescue")
	for _, c := range strings.Split(path, "/") {
		if c != "" && e.err == 0 {
			e = m.lookup(e.node, c)
		}
	}
	return e
}

func (m *mnt) forget(node, n uint64) {
	b := make([]byte, 8)
	le.PutUint64(b, n)
	m.send(2, node, b)
}

func (m *mnt) open(op uint32, node uint64, flags uint32) (uint64, syscall.Errno) {
	b := make([]byte, 8)
	le.PutUint32(b, flags)
	r := m.req(op, node, b)
	if r.err != 0 {
		return 0, r.err
	}
	return le.Uint64(r.data), 0
}

func rdIn(fh, off uint64, n uint32) []byte {
	b := make([]byte, 40)
	le.PutUint64(b, fh)
	le.PutUint64(b[8:], off)
	le.PutUint32(b[16:], n)
	return b
}

// read reads from a freshly opened file.
func (m *mnt) read(node, off uint64, n uint32) ([]byte, syscall.Errno) {
	fh, err := m.open(14, node, 0)
	if err != 0 {
		return nil, err
	}
	r := m.req(15, node, rdIn(fh, off, n))
	return r.data, r.err
}

// list returns the names in a directory, with their types.
func (m *mnt) list(node uint64) (map[string]uint32, syscall.Errno) {
	fh, err := m.open(27, node, 0)
	if err != 0 {
		return nil, err
	}
	out := map[string]uint32{}
	for off := uint64(0); ; {
		r := m.req(28, node, rdIn(fh, off, 4096))
		if r.err != 0 || len(r.data) == 0 {
			return out, r.err
		}
		for b := r.data; len(b) >= 24; {
			n := le.Uint32(b[16:])
			off = le.Uint64(b[8:])
			if s := string(b[24 : 24+n]); s != "." && s != ".." {
				out[s] = le.Uint32(b[20:])
			}
			b = b[24+(n+7)/8*8:]
		}
	}
}

// getxattr reads an attribute.
func (m *mnt) getxattr(node uint64, name string) (string, syscall.Errno) {
	b := make([]byte, 8, 9+len(name))
	le.PutUint32(b, 65536)
	r := m.req(22, node, append(append(b, name...), 0))
	return string(r.data), r.err
}

// unmount ends the server.
func (m *mnt) unmount() {
	m.c.Process.Signal(syscall.SIGTERM)
	syscall.Close(m.fd)
	t := time.AfterFunc(30*time.Second, func() { m.c.Process.Kill() })
	err := m.c.Wait()
	t.Stop()
	// It may not have begun to handle signals yet
	if err != nil && err.Error() != "signal: terminated" {
		fail("the server ends with %v: %.600s", err, m.out)
	}
}
