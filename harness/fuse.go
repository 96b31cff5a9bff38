package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// The explorer plays the role of the kernel: it speaks the FUSE protocol with
// the file server that the mount command starts (see fm/main.go).

const (
	opLookup      = 1
	opForget      = 2
	opGetattr     = 3
	opSetattr     = 4
	opReadlink    = 5
	opSymlink     = 6
	opMknod       = 8
	opMkdir       = 9
	opUnlink      = 10
	opRmdir       = 11
	opRename      = 12
	opLink        = 13
	opOpen        = 14
	opRead        = 15
	opWrite       = 16
	opStatfs      = 17
	opRelease     = 18
	opFsync       = 20
	opSetxattr    = 21
	opGetxattr    = 22
	opListxattr   = 23
	opRemovexattr = 24
	opFlush       = 25
	opInit        = 26
	opOpendir     = 27
	opReaddir     = 28
	opReleasedir  = 29
	opFsyncdir    = 30
	opAccess      = 34
	opCreate      = 35
	opDestroy     = 38
	opFallocate   = 43
	opReaddirplus = 44
)

// mntDead is the panic value for a file server that does not answer any more.
type mntDead struct{ what string }

func (d mntDead) String() string { return d.what }

// Mnt is a mounted rescue file system.
type Mnt struct {
	e    *Env
	fd   int
	uniq uint64
	done chan Res
	res  *Res
	kill func()
	pid  int
	buf  []byte

	real bool
	held map[uint64]reply

	later map[uint64]uint64 // nodes to forget later

	ino map[vref]uint64 // inode numbers seen
	ref map[uint64]vref // what they are the numbers of
}

type reply struct {
	err  syscall.Errno
	data []byte
}

// listen opens the socket of a mount point.
func (e *Env) listen(mp string) int {
	p := mp + ".sock"
	os.Remove(p)
	// Socket paths are short: go through the directory.
	l, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_SEQPACKET|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(l, &syscall.SockaddrUnix{Name: p}); err != nil {
		panic(fmt.Sprint("bind ", p, ": ", err))
	}
	os.Chmod(p, 0777)
	if err := syscall.Listen(l, 4); err != nil {
		panic(err)
	}
	return l
}

func setTimeout(fd int, d time.Duration) {
	tv := syscall.NsecToTimeval(int64(d))
	syscall.SetsockoptTimeval(fd, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
}

// fmPath is the search path with the stand-in for fusermount.
func (r *Runner) fmPath() string {
	return filepath.Join(r.Scratch, "fm") + ":" + os.Getenv("PATH")
}

// Mount runs the mount command with the given global options and arguments;
// the mount point is added. It returns nil if the command ended.
func (e *Env) Mount(real bool, args ...string) (*Mnt, Res) {
	mp := e.Path("mnt")
	os.Mkdir(mp, 0755)
	l := e.listen(mp)
	defer syscall.Close(l)
	m := &Mnt{e: e, done: make(chan Res, 1), held: map[uint64]reply{}}
	args = append(append([]string{}, args...), mp)
	if real {
		c := exec.Command(e.r.Bin, args...)
		var so, se bytes.Buffer
		c.Stdout, c.Stderr = &so, &se
		c.Dir = e.Dir
		c.Env = append(os.Environ(), "BTRFSCUE_METADATA="+e.metaEnv, "TZ=UTC", "PATH="+e.r.fmPath())
		if os.Getuid() == 0 {
			c.SysProcAttr = &syscall.SysProcAttr{
				Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		}
		if err := c.Start(); err != nil {
			panic(err)
		}
		m.pid = c.Process.Pid
		m.kill = func() { c.Process.Kill() }
		go func() {
			c.Wait()
			m.done <- Res{Exit: c.ProcessState.ExitCode(), Stdout: so.String(), Stderr: se.String()}
		}()
	} else {
		if e.w == nil {
			e.start()
		}
		w := e.w
		m.pid = w.Process.Pid
		m.kill = func() { w.Process.Kill() }
		op := "cli"
		if e.mountVia != nil {
			op, args = "call", append(append([]string{}, e.mountVia...), args...)
		}
		go func() { m.done <- e.do(op, args) }()
	}
	setTimeout(l, 20*time.Millisecond)
	for t := time.Now(); ; {
		fd, _, err := syscall.Accept4(l, syscall.SOCK_CLOEXEC)
		if err == nil {
			m.fd, m.real = fd, real
			break
		}
		select {
		case r := <-m.done:
			return nil, r
		default:
		}
		if time.Since(t) > wallLimit {
			m.kill()
			r := <-m.done
			r.Hung = "did not mount within 180 s"
			return nil, r
		}
	}
	setTimeout(m.fd, 500*time.Millisecond)
	m.buf = make([]byte, 256<<10)
	init := make([]byte, 16)
	le.PutUint32(init, 7)
	le.PutUint32(init[4:], 28)
	le.PutUint32(init[8:], 128<<10)
	le.PutUint32(init[12:], 1|1<<5|1<<12|1<<13|1<<18)
	if r := m.Req(opInit, 0, init); r.err != 0 {
		panic(mntDead{fmt.Sprint("init: ", r.err)})
	}
	return m, Res{}
}

// Unmount ends the file server and returns what it printed.
func (m *Mnt) Unmount() Res {
	if m.res != nil {
		return *m.res
	}
	syscall.Close(m.fd)
	m.fd = -1
	var r Res
	// The command ends by itself, as its file system is no longer mounted.
	select {
	case r = <-m.done:
		m.res = &r
		return r
	case <-time.After(time.Second):
	}
	limit := time.After(30 * time.Second)
	for try := 0; m.res == nil; try++ {
		syscall.Kill(m.pid, syscall.SIGTERM)
		select {
		case r = <-m.done:
			m.res = &r
		case <-time.After(time.Duration(try+1) * 200 * time.Millisecond):
		case <-limit:
			m.kill()
			r = <-m.done
			r.Hung = "did not end within 30 s of a signal"
			m.res = &r
		}
	}
	return r
}

// drop ends the file server in any case.
func (m *Mnt) drop() {
	if m.res == nil {
		m.kill()
		syscall.Close(m.fd)
		r := <-m.done
		m.res = &r
	}
}

func (m *Mnt) dead(what string) {
	if m.res == nil {
		m.kill()
		r := <-m.done
		m.res = &r
		syscall.Close(m.fd)
	}
	panic(mntDead{what + ": " + m.res.brief()})
}

// Send sends one request and returns its number.
func (m *Mnt) Send(op uint32, node uint64, body []byte) uint64 {
	m.uniq += 2
	b := make([]byte, 40+len(body))
	le.PutUint32(b, uint32(len(b)))
	le.PutUint32(b[4:], op)
	le.PutUint64(b[8:], m.uniq)
	le.PutUint64(b[16:], node)
	le.PutUint32(b[24:], nobody)
	le.PutUint32(b[28:], nobody)
	le.PutUint32(b[32:], 4242)
	copy(b[40:], body)
	if err := syscall.Sendmsg(m.fd, b, nil, nil, syscall.MSG_NOSIGNAL); err != nil {
		m.dead(fmt.Sprintf("the file server went away before request %d", op))
	}
	return m.uniq
}

// poll waits for the next reply for about half a second.
func (m *Mnt) poll() (uint64, reply, bool) {
	n, _, err := syscall.Recvfrom(m.fd, m.buf, 0)
	if err == syscall.EAGAIN || err == syscall.EINTR {
		return 0, reply{}, false
	}
	if err != nil || n < 16 || int(le.Uint32(m.buf)) != n {
		if n > 0 {
			m.dead(fmt.Sprintf("malformed reply of %d bytes", n))
		}
		m.dead("the file server went away")
	}
	return le.Uint64(m.buf[8:]), reply{syscall.Errno(-int32(le.Uint32(m.buf[4:]))),
		append([]byte(nil), m.buf[16:n]...)}, true
}

// Wait waits for the reply to a request.
func (m *Mnt) Wait(u uint64) reply {
	t := time.Now()
	for {
		if r, ok := m.held[u]; ok {
			delete(m.held, u)
			return r
		}
		n, r, ok := m.poll()
		if ok {
			m.held[n] = r
			continue
		}
		if len(m.done) > 0 {
			m.dead("the file server ended")
		}
		if time.Since(t) > 60*time.Second {
			m.dead("no answer within 60 s")
		}
	}
}

func (m *Mnt) Req(op uint32, node uint64, body []byte) reply {
	return m.Wait(m.Send(op, node, body))
}

// fattr holds the attributes of a FUSE reply.
type fattr struct {
	Ino, Size, Blocks   uint64
	Atime, Mtime, Ctime ts
	Mode, Nlink         uint32
	Uid, Gid, Rdev      uint32
}

func decAttr(b []byte) fattr {
	t := func(i int) ts {
		return ts{int64(le.Uint64(b[24+8*i:])), le.Uint32(b[48+4*i:])}
	}
	return fattr{le.Uint64(b), le.Uint64(b[8:]), le.Uint64(b[16:]), t(0), t(1), t(2),
		le.Uint32(b[60:]), le.Uint32(b[64:]), le.Uint32(b[68:]), le.Uint32(b[72:]), le.Uint32(b[76:])}
}

type entry struct {
	err  syscall.Errno
	node uint64
	attr fattr
}

func decEntry(b []byte) entry {
	return entry{0, le.Uint64(b), decAttr(b[40:128])}
}

func cstr(s string) []byte { return append([]byte(s), 0) }

func (m *Mnt) Lookup(dir uint64, name string) entry {
	r := m.Req(opLookup, dir, cstr(name))
	if r.err != 0 {
		return entry{err: r.err}
	}
	if len(r.data) != 128 {
		m.dead(fmt.Sprintf("reply of %d bytes to LOOKUP", len(r.data)))
	}
	e := decEntry(r.data)
	if e.node == 0 {
		// A negative entry.
		return entry{err: syscall.ENOENT}
	}
	return e
}

// Walk looks up every component of a path below the mount point.
func (m *Mnt) Walk(p string) entry {
	e := entry{node: 1}
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		if e = m.Lookup(e.node, c); e.err != 0 {
			return e
		}
	}
	return e
}

func (m *Mnt) Forget(node, n uint64) {
	if m.later != nil {
		if node > 1 {
			m.later[node] += n
		}
		return
	}
	if node <= 1 {
		return
	}
	m.forgetNow(node, n)
}

func (m *Mnt) forgetNow(node, n uint64) {
	b := make([]byte, 8)
	le.PutUint64(b, n)
	m.Send(opForget, node, b)
	// There is no reply. Let the server handle it before the next request, so
	// that runs can be repeated.
	for i := 0; i < 10000; i++ {
		var n int32
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(m.fd), syscall.TIOCOUTQ, uintptr(unsafe.Pointer(&n)))
		if n == 0 {
			break
		}
		time.Sleep(20 * time.Microsecond)
	}
	time.Sleep(50 * time.Microsecond)
}

func (m *Mnt) Getattr(node uint64) (fattr, syscall.Errno) {
	r := m.Req(opGetattr, node, make([]byte, 16))
	if r.err != 0 || len(r.data) < 104 {
		return fattr{}, r.err
	}
	return decAttr(r.data[16:]), 0
}

func (m *Mnt) GetattrFh(node, fh uint64) (fattr, syscall.Errno) {
	b := make([]byte, 16)
	le.PutUint32(b, 1)
	le.PutUint64(b[8:], fh)
	r := m.Req(opGetattr, node, b)
	if r.err != 0 || len(r.data) < 104 {
		return fattr{}, r.err
	}
	return decAttr(r.data[16:]), 0
}

func (m *Mnt) Readlink(node uint64) (string, syscall.Errno) {
	r := m.Req(opReadlink, node, nil)
	return string(r.data), r.err
}

func (m *Mnt) open(op uint32, node uint64, flags uint32) (uint64, syscall.Errno) {
	b := make([]byte, 8)
	le.PutUint32(b, flags)
	r := m.Req(op, node, b)
	if r.err != 0 {
		return 0, r.err
	}
	return le.Uint64(r.data), 0
}

func (m *Mnt) Open(node uint64, flags uint32) (uint64, syscall.Errno) {
	return m.open(opOpen, node, flags)
}

func readIn(fh, off uint64, size uint32) []byte {
	b := make([]byte, 40)
	le.PutUint64(b, fh)
	le.PutUint64(b[8:], off)
	le.PutUint32(b[16:], size)
	return b
}

func (m *Mnt) Read(node, fh, off uint64, size uint32) ([]byte, syscall.Errno) {
	r := m.Req(opRead, node, readIn(fh, off, size))
	return r.data, r.err
}

func (m *Mnt) Release(node, fh uint64) {
	b := make([]byte, 24)
	le.PutUint64(b, fh)
	m.Req(opRelease, node, b)
}

// ReadAll reads a file from the start to the end.
func (m *Mnt) ReadAll(node, fh uint64, max int) ([]byte, syscall.Errno) {
	var out []byte
	for len(out) < max {
		b, err := m.Read(node, fh, uint64(len(out)), 64<<10)
		if err != 0 {
			return out, err
		}
		if len(b) == 0 {
			break
		}
		out = append(out, b...)
	}
	return out, 0
}

type fdirent struct {
	name  string
	typ   uint32
	off   uint64
	entry *entry
}

func (m *Mnt) decDir(b []byte, plus bool) []fdirent {
	var out []fdirent
	for len(b) > 0 {
		var en *entry
		if plus {
			if len(b) < 152 {
				m.dead("malformed READDIRPLUS reply")
			}
			x := decEntry(b)
			en = &x
			b = b[128:]
		}
		if len(b) < 24 {
			m.dead("malformed READDIR reply")
		}
		n := int(le.Uint32(b[16:]))
		if len(b) < 24+n {
			m.dead("malformed READDIR reply")
		}
		out = append(out, fdirent{string(b[24 : 24+n]), le.Uint32(b[20:]), le.Uint64(b[8:]), en})
		n = (24 + n + 7) &^ 7
		if n > len(b) {
			n = len(b)
		}
		b = b[n:]
	}
	return out
}

func (m *Mnt) Opendir(node uint64) (uint64, syscall.Errno) { return m.open(opOpendir, node, 0) }

func (m *Mnt) Readdir(node, fh, off uint64, size uint32, plus bool) ([]fdirent, syscall.Errno) {
	op := uint32(opReaddir)
	if plus {
		op = opReaddirplus
	}
	r := m.Req(op, node, readIn(fh, off, size))
	if r.err != 0 {
		return nil, r.err
	}
	l := m.decDir(r.data, plus)
	for _, d := range l {
		// The kernel gives up at such entries and none after them is seen.
		if d.name == "" || len(d.name) > 1024 || strings.Contains(d.name, "/") {
			return nil, syscall.EIO
		}
	}
	return l, 0
}

// List returns all entries of a directory but "." and "..". Nodes returned by
// READDIRPLUS are forgotten again.
func (m *Mnt) List(node uint64, size uint32, plus bool) ([]fdirent, syscall.Errno) {
	fh, err := m.Opendir(node)
	if err != 0 {
		return nil, err
	}
	defer m.Releasedir(node, fh)
	return m.listFh(node, fh, size, plus)
}

func (m *Mnt) Releasedir(node, fh uint64) {
	b := make([]byte, 24)
	le.PutUint64(b, fh)
	m.Req(opReleasedir, node, b)
}

func (m *Mnt) listFh(node, fh uint64, size uint32, plus bool) ([]fdirent, syscall.Errno) {
	var out []fdirent
	off := uint64(0)
	for i := 0; ; i++ {
		if i > 10000 {
			m.dead("a directory does not end")
		}
		l, err := m.Readdir(node, fh, off, size, plus)
		if err != 0 {
			return nil, err
		}
		if len(l) == 0 {
			break
		}
		for _, d := range l {
			off = d.off
			if d.name == "." || d.name == ".." {
				continue
			}
			if d.entry != nil && d.entry.node > 1 {
				m.Forget(d.entry.node, 1)
			}
			out = append(out, d)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out, 0
}

func xattrIn(size uint32, name string) []byte {
	b := make([]byte, 8)
	le.PutUint32(b, size)
	if name != "" {
		b = append(b, cstr(name)...)
	}
	return b
}

// Getxattr asks for the size first, then for the value.
func (m *Mnt) Getxattr(node uint64, name string) (string, syscall.Errno) {
	if name == "" {
		return "", syscall.ERANGE // as the kernel does
	}
	return m.xattr(opGetxattr, node, name)
}

func (m *Mnt) xattr(op uint32, node uint64, name string) (string, syscall.Errno) {
	r := m.Req(op, node, xattrIn(0, name))
	if r.err != 0 {
		return "", r.err
	}
	if len(r.data) != 8 {
		m.dead("malformed reply to a size request")
	}
	n := le.Uint32(r.data)
	if n == 0 {
		return "", 0
	}
	r = m.Req(op, node, xattrIn(n, name))
	if r.err == 0 && uint32(len(r.data)) != n {
		return "", syscall.Errno(9999)
	}
	return string(r.data), r.err
}

func (m *Mnt) Listxattr(node uint64) ([]string, syscall.Errno) {
	s, err := m.xattr(opListxattr, node, "")
	if err != 0 || s == "" {
		return nil, err
	}
	l := strings.Split(strings.TrimSuffix(s, "\x00"), "\x00")
	sort.Strings(l)
	return l, 0
}
