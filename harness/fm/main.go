// fusermount stands in for the program of the same name. Instead of mounting
// a file system, it connects the file server to the explorer, which listens on
// MOUNTPOINT.sock and plays the role of the kernel.
//
// If there is a file MOUNTPOINT.plan, it also does what this says: each line
// consists of a point and of a signal to send to the file server there, or of
// "fail". What happened is noted in MOUNTPOINT.log.
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
)

var plan []string
var mnt string

func point(name string) {
	for i, l := range plan {
		f := strings.Fields(l)
		if len(f) != 2 || f[0] != name {
			continue
		}
		plan[i] = ""
		switch f[1] {
		case "INT":
			syscall.Kill(os.Getppid(), syscall.SIGINT)
		case "TERM":
			syscall.Kill(os.Getppid(), syscall.SIGTERM)
		case "fail":
			note("failed")
			fmt.Fprintln(os.Stderr, "fusermount: failed at", name)
			os.Exit(1)
		}
	}
}

func note(what string) {
	if f, err := os.OpenFile(mnt+".log", os.O_WRONLY|os.O_APPEND, 0); err == nil {
		f.WriteString(what + "\n")
		f.Close()
	}
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(1)
	}
	mnt = os.Args[1]
	if os.Args[1] == "-u" && len(os.Args) > 2 {
		mnt = os.Args[2]
	}
	b, err := os.ReadFile(mnt + ".plan")
	planned := err == nil
	plan = strings.Split(string(b), "\n")
	if os.Args[1] == "-u" {
		if !planned {
			return
		}
		log, _ := os.ReadFile(mnt + ".log")
		n := strings.Count(string(log), "failed\n")
		point("unmounting")
		point(fmt.Sprint("unmounting", n))
		// Tell the explorer, which takes down the connection.
		fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_SEQPACKET, 0)
		if err == nil {
			err = syscall.Connect(fd, &syscall.SockaddrUnix{Name: mnt + ".sock"})
		}
		if err == nil {
			err = syscall.Sendmsg(fd, []byte("u"), nil, nil, syscall.MSG_NOSIGNAL)
			var a [1]byte
			syscall.Read(fd, a[:])
		}
		if err != nil {
			os.Exit(1)
		}
		note("unmounted")
		point("unmounted")
		return
	}
	comm, err := strconv.Atoi(os.Getenv("_FUSE_COMMFD"))
	if err != nil {
		os.Exit(1)
	}
	point("start")
	fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_SEQPACKET, 0)
	if err != nil {
		os.Exit(1)
	}
	if err := syscall.Connect(fd, &syscall.SockaddrUnix{Name: mnt + ".sock"}); err != nil {
		os.Exit(1)
	}
	point("connected")
	if err := syscall.Sendmsg(comm, []byte{0}, syscall.UnixRights(fd), nil, 0); err != nil {
		os.Exit(1)
	}
	if planned {
		note("mounted")
	}
	point("sent")
}
