package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// Reference model of recover.

type rcvWant struct {
	tree map[string]fent // destination, "." is its root
	// Content that is not determined because it cannot be read.
	loose map[string][]span
	warn  map[string]bool // must be named in a warning
	may   map[string]bool // may be named in a warning
	all   map[string]bool // every path of an entry
	bad   []string        // parents of entries that cannot exist under their name
}

// refRecover computes the destination after recovering into pre.
func refRecover(its []It, rd func(off, n uint64) ([]byte, bool), pre map[string]fent, clobber bool) *rcvWant {
	w := &rcvWant{tree: map[string]fent{}, loose: map[string][]span{}, warn: map[string]bool{}, may: map[string]bool{}, all: map[string]bool{}}
	for k, f := range pre {
		w.tree[k] = f
	}
	if _, ok := w.tree["."]; !ok {
		w.tree["."] = fent{Mode: fs.ModeDir}
	}
	v := view{newModel(its...)}
	visited := map[[2]uint64]bool{}
	var walk func(owner, dir uint64, rel string)
	walk = func(owner, dir uint64, rel string) {
		w.all[rel] = true
		if visited[[2]uint64{owner, dir}] {
			w.warn[rel] = true
			return
		}
		if f, ok := w.tree[rel]; ok && !f.Mode.IsDir() {
			w.warn[rel] = true
			return
		}
		w.tree[rel] = fent{Mode: fs.ModeDir}
		visited[[2]uint64{owner, dir}] = true
		for _, d := range v.dirents(owner, dir) {
			if d.Name == "" || d.Name == "." || d.Name == ".." || strings.ContainsAny(d.Name, "/\x00") {
				w.bad = append(w.bad, rel)
				continue
			}
			p := filepath.Join(rel, d.Name)
			w.all[p] = true
			o, ino := owner, d.Loc.Obj
			if d.Loc.Type == tRoot {
				o, ino = d.Loc.Obj, 256
			}
			old, exists := w.tree[p]
			switch d.Type {
			case ftDir:
				walk(o, ino, p)
			case ftReg:
				if exists && !clobber {
					continue
				}
				if exists && old.Mode.IsDir() {
					w.warn[p] = true
					continue
				}
				data, lost := v.contentLost(o, ino, rd)
				w.tree[p] = fent{Data: data}
				if v.inode(o, ino) == nil {
					w.may[p] = true
					if len(v.m.all(o, tExtent, ino)) == 0 {
						w.warn[p] = true
					}
				}
				if len(lost) > 0 {
					w.warn[p] = true
					if data == nil || v.inode(o, ino) == nil {
						lost = nil // not even the size is known
					}
					w.loose[p] = lost
				}
			case ftLnk:
				if exists && !clobber {
					continue
				}
				if exists && old.Mode.IsDir() {
					w.warn[p] = true
					continue
				}
				t, ok := v.target(o, ino, rd)
				if !ok || t == "" || strings.Contains(t, "\x00") || len(t) > 4095 {
					w.warn[p] = true
					continue
				}
				w.tree[p] = fent{Mode: fs.ModeSymlink, Target: t}
			case ftChr, ftBlk, ftFifo, ftSock:
				w.may[p] = true
			default:
				w.warn[p] = true
			}
		}
	}
	walk(oFS, 256, ".")
	var subs []uint64
	for _, it := range v.m.ranged(oRoot, K{256, tRoot, 0}, K{lastFree, tRoot, max64}, max64) {
		subs = append(subs, it.K.Obj)
	}
	for _, s := range subs {
		if !visited[[2]uint64{s, 256}] {
			walk(s, 256, fmt.Sprintf("subvol_%d", s))
		}
	}
	return w
}

// warnings checks the warnings on stderr: every required one is there and
// nothing else is reported.
func (w *rcvWant) warnings(stderr, dest string) string {
	var paths []string
	for p := range w.all {
		if p != "." {
			paths = append(paths, p)
		}
	}
	// Longest first, so that a line is attributed to the entry it names and
	// not to one of its parents.
	sort.Slice(paths, func(i, j int) bool {
		if len(paths[i]) != len(paths[j]) {
			return len(paths[i]) > len(paths[j])
		}
		return paths[i] < paths[j]
	})
	seen := map[string]bool{}
	lines := strings.Split(stderr, "btrfscue: ")
	nbad := 0
	for _, l := range lines {
		if strings.TrimSpace(l) == "" {
			continue
		}
		hit := ""
		for _, p := range paths { // full paths are unambiguous
			if strings.Contains(l, filepath.Join(dest, p)) {
				hit = p
				break
			}
		}
		for _, p := range paths {
			if hit != "" {
				break
			}
			if strings.Contains(l, p) || strings.Contains(l, strings.Trim(fmt.Sprintf("%q", p), `"`)) {
				hit = p
				break
			}
		}
		if hit != "" && (w.warn[hit] || w.may[hit]) {
			seen[hit] = true
			continue
		}
		if len(w.bad) > nbad {
			nbad++
			continue
		}
		return fmt.Sprintf("unexpected warning %q (entry %q)", short(l, 300), hit)
	}
	for _, p := range paths {
		if w.warn[p] && !seen[p] {
			return fmt.Sprintf("no warning names %q although it could not be recovered completely; stderr %q", p, short(stderr, 400))
		}
	}
	if nbad < len(w.bad) {
		return fmt.Sprintf("%d warnings for entries whose names cannot be created expected, got %d: %q", len(w.bad), nbad, short(stderr, 400))
	}
	return ""
}

func (w *rcvWant) diff(got map[string]fent) string {
	want := w.tree
	for p, lost := range w.loose {
		g, ok := got[p]
		x := want[p]
		n := uint64(0)
		for _, s := range lost {
			n += s.hi - s.lo
		}
		if !ok {
			if lost == nil || n == uint64(len(x.Data)) {
				delete(want, p) // may be left out if nothing could be read
			}
			continue
		}
		if g.kind() != "file" {
			continue
		}
		if lost == nil || n == uint64(len(x.Data)) && len(g.Data) == 0 {
			want[p] = g
			continue
		}
		if len(g.Data) == len(x.Data) {
			// Extents that could not be read completely may hold anything.
			d := append([]byte(nil), x.Data...)
			for _, s := range lost {
				copy(d[s.lo:s.hi], g.Data[s.lo:s.hi])
			}
			x.Data = d
		}
		want[p] = x
	}
	return diffTree(want, got)
}

func recoverCLI(e *Env, real bool, img, meta, dest string, clobber bool) Res {
	a := []string{"recover", "--metadata=" + meta, "--verbose=false", fmt.Sprintf("--clobber=%v", clobber), img, dest}
	if real {
		return e.Exec(a...)
	}
	return e.CLI(a...)
}

// rmDest removes a scratch directory below the worker's directory.
func (e *Env) rmDest(name string) string {
	p := e.Path(name)
	if name == "" || !strings.HasPrefix(p, e.Dir+"/") {
		panic("rmDest")
	}
	os.RemoveAll(p)
	return p
}

// recoverAs recovers a set of items into a fresh destination and compares
// the result.
func recoverAs(e *Env, what string, its []It, im *Image, clobber bool) *Violation {
	meta := e.Path("ix")
	writeIndex(meta, 16384, its)
	dest := e.rmDest("dest")
	e.r.State(1)
	e.Seq++
	res := recoverCLI(e, e.Seq%97 == 0, im.Path, meta, dest, clobber)
	e.r.Trace(1)
	if res.crashed() || res.Exit != 0 {
		return viol("%s: recover: %s", what, res.brief())
	}
	w := refRecover(its, im.Read, nil, clobber)
	got := readTree(dest)
	e.r.Trans(len(got))
	e.r.Outcome(treeString(got))
	if d := w.diff(got); d != "" {
		return viol("%s: %s", what, d)
	}
	if d := w.warnings(res.Stderr, dest); d != "" {
		return viol("%s: %s", what, d)
	}
	return nil
}

// fingerprint describes everything below dir except the given entries.
func fingerprint(dir string, skip ...string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		for _, s := range skip {
			if rel == s {
				if fi != nil && fi.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
		if err != nil {
			out[rel] = err.Error()
			return nil
		}
		st, _ := fi.Sys().(*syscall.Stat_t)
		d := ""
		switch {
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			d = fmt.Sprintf("%d:%x", len(b), hash64(string(b)))
		case fi.Mode()&fs.ModeSymlink != 0:
			d, _ = os.Readlink(p)
		}
		mt := fi.ModTime().UnixNano()
		if rel == "." {
			mt = 0 // holds the destination and the capture files
		}
		uid := uint32(0)
		if st != nil {
			uid = st.Uid
		}
		out[rel] = fmt.Sprintf("%v %d %d %s", fi.Mode(), uid, mt, d)
		return nil
	})
	return out
}

func diffPrints(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, okx := a[k]
		y, oky := b[k]
		switch {
		case !okx:
			return fmt.Sprintf("%q was created: %s", k, y)
		case !oky:
			return fmt.Sprintf("%q was removed", k)
		case x != y:
			return fmt.Sprintf("%q was changed from %s to %s", k, x, y)
		}
	}
	return ""
}
