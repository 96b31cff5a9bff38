package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

var (
	scratch string
	metaEnv string // BTRFSCUE_METADATA of run
)

func init() {
	var err error
	if scratch, err = os.MkdirTemp("", "demo"); err != nil {
		panic(err)
	}
	os.Chmod(scratch, 0777)
}

func finish(code int) {
	os.RemoveAll(scratch)
	os.Exit(code)
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	finish(1)
}

func pth(s string) string { return filepath.Join(scratch, s) }

func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}

// writeIx writes a metadata file.
func writeIx(path string, bs uint, its []It) {
	ix, err := index.Open(path, 0644, &index.Options{BlockSize: bs, FSID: uuid.UUID(fsid1), Generation: max64})
	must(err)
	for _, it := range its {
		must(put(ix, it))
	}
	must(ix.Commit())
	ix.Close()
	os.Chmod(path, 0644)
}

func bkey(k K) btrfs.Key { return btrfs.Key{ObjectID: k.Obj, Type: k.Type, Offset: k.Off} }

func put(ix *index.Index, it It) error {
	h := encHeader(hdrT{FSID: fsid1, Gen: it.Gen, Owner: it.Owner, NrItems: 1})
	return ix.InsertItem(bkey(it.K), btrfs.Header(h), encItem(it.K, 0, uint32(len(it.Data))), it.Data)
}

// image creates a sparse image with the given blocks.
func image(name string, size int64, blocks map[int64][]byte) string {
	f, err := os.Create(pth(name))
	must(err)
	defer f.Close()
	must(f.Truncate(size))
	for o, b := range blocks {
		_, err := f.WriteAt(b, o)
		must(err)
	}
	return pth(name)
}

// run executes btrfscue as an unprivileged user; the time limit ends it.
func run(args ...string) (out, errs string, code int) {
	c := exec.Command("bin/btrfscue", args...)
	if b, err := filepath.Abs("bin/btrfscue"); err == nil {
		// The working directory may not be accessible to other users.
		d, err := os.ReadFile(b)
		must(err)
		p := pth("btrfscue")
		if _, err := os.Stat(p); err != nil {
			must(os.WriteFile(p, d, 0755))
		}
		c = exec.Command(p, args...)
	}
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	c.Dir = scratch
	c.Env = append(os.Environ(), "TZ=UTC", "BTRFSCUE_METADATA="+metaEnv)
	if os.Getuid() == 0 {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	must(c.Start())
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() {
		return so.String(), se.String() + "(did not end)", -1
	}
	if err != nil {
		return so.String(), se.String(), c.ProcessState.ExitCode()
	}
	return so.String(), se.String(), 0
}

const imgSize = 64<<20 + 100*65536
