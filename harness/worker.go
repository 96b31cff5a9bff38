package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime/debug"
	"strings"
	"syscall"

	"blichmann.eu/code/btrfscue/cmd"
)

// calls are helper functions executed inside the worker process.
var calls = map[string]func(args []string) int{}

// workerMain executes btrfscue command lines inside this process, one at a
// time. An os.Exit() or a panic of the command ends the process exactly as it
// would end the real program.
func workerMain() {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	syscall.Umask(0022)
	// A signal that arrives before a command listens must not end the worker.
	signal.Notify(make(chan os.Signal, 1), syscall.SIGTERM)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	ack := os.NewFile(3, "ack")
	// Commands must not consume the request stream.
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var q workerReq
		if err := json.Unmarshal(l, &q); err != nil {
			os.Exit(99)
		}
		redirect(q.Out, 1)
		redirect(q.Err, 2)
		code := 0
		switch q.Op {
		case "cli":
			os.Args = append([]string{"btrfscue"}, q.Args...)
			cmd.Execute()
		case "call":
			code = calls[q.Args[0]](q.Args[1:])
		}
		leak := 0
		if leaksFiles(q.Out, q.Err) {
			leak = 1
		}
		fmt.Fprintf(ack, "%d %d\n", code, leak)
	}
}

// leaksFiles returns whether files are still open after a command. As a process
// it would have ended and released them, so the worker is replaced.
func leaksFiles(known ...string) bool {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return false
	}
	names, _ := d.Readdirnames(-1)
	d.Close()
next:
	for _, n := range names {
		if n == "0" || n == "1" || n == "2" || n == "3" {
			continue
		}
		l, err := os.Readlink("/proc/self/fd/" + n)
		if err != nil || l[0] != '/' || strings.HasPrefix(l, "/dev/") && !strings.HasPrefix(l, "/dev/shm/") {
			continue
		}
		for _, k := range known {
			if l == k {
				continue next
			}
		}
		return true
	}
	return false
}

func redirect(path string, fd int) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC|os.O_APPEND, 0644)
	if err != nil {
		os.Exit(98)
	}
	syscall.Dup3(int(f.Fd()), fd, 0)
	f.Close()
}
