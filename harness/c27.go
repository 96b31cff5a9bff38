package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// C27: command lines.
func init() {
	register(&Prop{ID: "C27", Level: "model_checking",
		Rule: "every command with every place and source of the metadata option (before and after the command, after its arguments, in one word or two, from the environment, " +
			"given twice, against a wrong environment) x all combinations of the display options and their places x relative and absolute paths, run as the real program and compared " +
			"with the plain spelling and with the stored, recovered or shown data; all wrong argument counts, unknown options, malformed values of each option, missing options and " +
			"unusable files of each command: status, message, and nothing changed; non-trivial: distinct command lines",
		Assumptions: []string{"the order of options of the same name is that of the command line, the last one counts", "the program may print usage information with an error"},
		Run:         runC27})
}

// worldC27 is a scratch directory with everything a command needs.
type worldC27 struct {
	dir  string
	img  string // outside of dir
	blks []blk
	its  []It
	snap map[string]fent
	g    *guard
}

func mkC27(e *Env) *worldC27 {
	w := &worldC27{dir: e.rmDest("w"), img: e.Path("img27")}
	for _, d := range []string{"", "/dest", "/mp", "/ro"} {
		if err := os.Mkdir(w.dir+d, 0755); err != nil {
			panic(err)
		}
	}
	w.its = fsItems(dirN("d", 310, inlineN("f", 300, "content of f"), dirN("e", 311)), linkN("l", 301, "d/f"), fileN("empty", 302, 0),
		fileN("data", 303, S+5, ext{Off: 0, Disk: mib, Num: 2 * S}), subvolN("v", 400, inlineN("f", 300, "in v")))
	w.its = append(w.its, chunkItem(0, 6*mib, 1, 0))
	writeIndex(w.dir+"/meta.db", 16384, w.its)
	os.WriteFile(w.dir+"/dest/keep", []byte("kept"), 0644)
	os.WriteFile(w.dir+"/text", []byte(strings.Repeat("this is no metadata file\n", 3000)), 0644)
	os.WriteFile(w.dir+"/nothing", nil, 0644)
	os.WriteFile(w.dir+"/small", make([]byte, 1<<20), 0644)
	const bs = 16384
	for i := 0; i < 12; i++ {
		k := "leaf3"
		if i >= 7 {
			k = "foreign"
		}
		base := uint64(0x10000) + bs
		if i%2 == 1 {
			base = 0x4000000 + 101*bs
		}
		if off := base + uint64(i)*bs; i != 11 {
			w.blks = append(w.blks, mkBlock(k, bs, i, off))
		}
	}
	im := e.imageWith("img27", 64*mib+300*bs, w.blks)
	im.Write(mib, pat(mib, 2*S))
	im.Close()
	chownAll(w.dir)
	os.Chmod(w.dir+"/text", 0644)
	w.snap = readTree(w.dir)
	w.g = newGuard(w.img)
	return w
}

// unchanged reports what a command did to the files.
func (w *worldC27) unchanged() string {
	if s := w.g.check(false); s != "" {
		return s
	}
	return diffTree(w.snap, readTree(w.dir))
}

// execIn runs the real program in a directory with a metadata variable.
func (e *Env) execIn(dir, env string, args ...string) Res {
	d, v := e.Dir, e.metaEnv
	e.Dir, e.metaEnv = dir, env
	defer func() { e.Dir, e.metaEnv = d, v }()
	return e.Exec(args...)
}

type lineC27 struct {
	env  string
	args []string
}

func (l lineC27) String() string {
	s := "btrfscue " + strings.Join(l.args, " ")
	if l.env != "" {
		s = "BTRFSCUE_METADATA=" + l.env + " " + s
	}
	return s
}

// spellings returns all the ways to write a command. meta is "" for commands
// without metadata.
func spellings(cmd, meta string, opts, pos []string, f func(l lineC27, verbose, progress, machine bool)) {
	const bogus = "missing/none.db"
	type place struct {
		before, after, end []string
		env                string
	}
	o := "--metadata="
	metas := []place{
		{before: []string{o + meta}}, {before: []string{"--metadata", meta}}, {after: []string{o + meta}}, {after: []string{"--metadata", meta}},
		{end: []string{o + meta}}, {end: []string{"--metadata", meta}}, {env: meta}, {env: bogus, after: []string{o + meta}}, {env: bogus, before: []string{"--metadata", meta}},
		{before: []string{o + bogus}, end: []string{o + meta}}, {after: []string{o + bogus, o + meta}},
	}
	if meta == "" {
		metas = []place{{}, {env: bogus}, {before: []string{o + bogus}}}
	}
	verb := []place{{}, {before: []string{"-v"}}, {end: []string{"--verbose"}}, {after: []string{"--verbose=false"}}, {before: []string{"--verbose=true"}}}
	prog := []place{{}, {before: []string{"-p=false"}}, {after: []string{"--progress=false"}}, {end: []string{"-p"}}}
	mach := []place{{}, {after: []string{"-m"}}, {before: []string{"--machine=true"}}}
	for _, m := range metas {
		for vi, v := range verb {
			for pi, p := range prog {
				for ci, c := range mach {
					var a []string
					for _, x := range []place{p, m, c, v} {
						a = append(a, x.before...)
					}
					a = append(a, cmd)
					for _, x := range []place{c, m, p, v} {
						a = append(a, x.after...)
					}
					a = append(append(a, opts...), pos...)
					for _, x := range []place{v, m, p, c} {
						a = append(a, x.end...)
					}
					f(lineC27{m.env, a}, vi == 1 || vi == 2 || vi == 4, pi == 0 || pi == 3, ci > 0)
				}
			}
		}
	}
}

// subseq reports whether the lines of want occur in got in order.
func subseq(want, got string) bool {
	g := strings.Split(got, "\n")
	for _, w := range strings.Split(want, "\n") {
		for len(g) > 0 && g[0] != w {
			g = g[1:]
		}
		if len(g) == 0 {
			return false
		}
		g = g[1:]
	}
	return true
}

func fieldsOf(s string) string {
	var out []string
	for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
		out = append(out, strings.Join(strings.Fields(l), " "))
	}
	return strings.Join(out, "\n")
}

func runC27(r *Runner) {
	type command struct {
		name string
		meta string
		opts []string
		pos  func(w *worldC27) []string
	}
	none := func(w *worldC27) []string { return nil }
	cmds := []command{
		{"ls", "meta.db", nil, none},
		{"ls", "meta.db", []string{"--recursive", "--inode"}, func(*worldC27) []string { return []string{"/", "/d", "/nope"} }},
		{"ls", "meta.db", []string{"--inode=true"}, func(*worldC27) []string { return []string{"d/f", "/v", "/d/"} }},
		{"dump-index", "meta.db", nil, none},
		{"recover", "meta.db", nil, func(w *worldC27) []string { return []string{w.img, "dest/new"} }},
		{"recover", "meta.db", []string{"--clobber"}, func(w *worldC27) []string { return []string{w.img, "dest"} }},
		{"recon", "new.db", []string{"--id", fsid1.String()}, func(w *worldC27) []string { return []string{w.img} }},
		{"recon", "n", []string{"--id=" + strings.ToUpper(strings.ReplaceAll(fsid1.String(), "-", "")), "--block-size=16384"}, func(w *worldC27) []string { return []string{w.img} }},
		{"identify", "", []string{"--min-occurrence=1", "--sample-fraction=1"}, func(w *worldC27) []string { return []string{w.img} }},
		{"identify", "", []string{"--min-blocks", "100000", "--block-size", "16384", "--min-occurrence", "1"}, func(w *worldC27) []string { return []string{w.img} }},
	}
	// after undoes what a command was asked to do and reports what it did.
	after := func(w *worldC27) (tree map[string]fent, stored string, other string) {
		for _, n := range []string{"/new.db", "/n"} {
			if _, err := os.Stat(w.dir + n); err == nil {
				m, alt := expectOf(w.blks)
				if stored = cmpItems(w.dir+n, m, alt); stored == "" {
					stored = "complete"
				}
				os.Remove(w.dir + n)
			}
		}
		tree = readTree(w.dir + "/dest")
		if other = w.g.check(false); other != "" {
			return
		}
		all := readTree(w.dir)
		for k := range all {
			if strings.HasPrefix(k, "dest") && k != "dest" {
				delete(all, k)
			}
		}
		want := map[string]fent{}
		for k, f := range w.snap {
			if !strings.HasPrefix(k, "dest/") {
				want[k] = f
			}
		}
		other = diffTree(want, all)
		os.RemoveAll(w.dir + "/dest")
		os.Mkdir(w.dir+"/dest", 0755)
		os.WriteFile(w.dir+"/dest/keep", []byte("kept"), 0644)
		chownAll(w.dir + "/dest")
		return
	}
	r.ForEach(func(yield func(Case) bool) {
		for ci, c := range cmds {
			for rel := 0; rel < 2; rel++ {
				ci, c, rel := ci, c, rel
				if !yield(Case{fmt.Sprintf("spelling/%d-%s/%d", ci, c.name, rel), func(e *Env) *Violation {
					w := mkC27(e)
					meta := c.meta
					if rel == 0 && meta != "" {
						meta = filepath.Join(w.dir, meta)
					}
					pos := c.pos(w)
					if rel == 1 {
						for i, p := range pos {
							if p == w.img {
								pos[i] = "../img27"
							}
						}
					} else if c.name == "recover" {
						pos[1] = filepath.Join(w.dir, pos[1])
					}
					plain := append([]string{c.name, "--metadata=" + meta, "--verbose=false", "--progress=false", "--machine=true"}, append(append([]string{}, c.opts...), pos...)...)
					ref := e.execIn(w.dir, "", plain...)
					refTree, refStored, other := after(w)
					what := lineC27{"", plain}
					if ref.Exit != 0 || ref.crashed() || other != "" {
						return viol("%v: %s %s", what, ref.brief(), other)
					}
					// What the commands are for, roughly; other properties say it in full.
					switch c.name {
					case "ls", "dump-index":
						if len(ref.Stdout) < 100 {
							return viol("%v: too little output: %s", what, ref.brief())
						}
					case "recover":
						im := &Image{Path: w.img}
						im.f, _ = os.Open(w.img)
						im.Size = 64*mib + 300*16384
						defer im.f.Close()
						want := refRecover(w.its, im.Read, map[string]fent{}, true)
						got := map[string]fent{}
						for k, f := range refTree {
							if strings.HasPrefix(pos[1], filepath.Join(w.dir, "dest/new")) || pos[1] == "dest/new" {
								k = strings.TrimPrefix(k, "new/")
								if k == "new" {
									continue
								}
							}
							if k != "keep" {
								got[k] = f
							}
						}
						delete(want.tree, ".")
						delete(got, ".")
						if d := diffTree(want.tree, got); d != "" {
							return viol("%v: %s", what, d)
						}
					case "recon":
						if refStored != "complete" {
							return viol("%v: the stored items: %q", what, refStored)
						}
					case "identify":
						n := map[string]int{}
						for _, b := range w.blks {
							if len(b.its) > 0 {
								n[fsid1.String()]++
							} else {
								n[fsid2.String()]++
							}
						}
						for id, k := range n {
							if !strings.Contains(fieldsOf(ref.Stdout)+" ", fmt.Sprintf("%s %d ", id, k)) {
								return viol("%v: id %s is in %d blocks: %s", what, id, k, ref.brief())
							}
						}
					}
					var vi *Violation
					step := 1
					if r.Quick() {
						step = 3
					}
					i := rel + ci
					spellings(c.name, meta, c.opts, pos, func(l lineC27, verbose, progress, machine bool) {
						if i++; vi != nil || i%step != 0 {
							return
						}
						res := e.execIn(w.dir, l.env, l.args...)
						e.r.State(1)
						e.r.Trace(1)
						e.r.Trans(len(l.args))
						e.r.Outcome(l.String())
						tree, stored, other := after(w)
						switch {
						case other != "":
							vi = viol("%v: %s", l, other)
							return
						case res.Exit != ref.Exit || res.crashed():
							vi = viol("%v: %s; but %v: %s", l, res.brief(), what, ref.brief())
							return
						case stored != refStored:
							vi = viol("%v: stored items: %q, expected %q", l, stored, refStored)
							return
						case !progress && res.Stderr != ref.Stderr:
							vi = viol("%v: stderr %q; but %v: %q", l, short(res.Stderr, 200), what, short(ref.Stderr, 200))
							return
						case progress && !strings.Contains(res.Stderr, strings.TrimSpace(ref.Stderr)):
							vi = viol("%v: stderr %q; but %v: %q", l, short(res.Stderr, 200), what, short(ref.Stderr, 200))
							return
						}
						if d := diffTree(refTree, tree); d != "" {
							vi = viol("%v: destination: %s; compared with %v", l, d, what)
							return
						}
						got, want := res.Stdout, ref.Stdout
						if c.name == "identify" {
							if !machine {
								// A table with a heading.
								ls := strings.SplitN(got, "\n", 2)
								if verbose {
									ls = strings.SplitN(got, "\n", 3)[1:]
								}
								if len(ls) < 2 || !strings.Contains(ls[0], "fsid") {
									vi = viol("%v: no table: %s", l, res.brief())
									return
								}
								got = ls[1]
							}
							got, want = fieldsOf(got), fieldsOf(want)
						}
						if got != want && !(verbose && subseq(strings.TrimRight(want, "\n"), got)) && !(verbose && want == "") {
							vi = viol("%v: output %q; but %v: %q", l, short(got, 300), what, short(want, 300))
						}
					})
					return vi
				}}) {
					return
				}
			}
		}
		mountC27(r, yield)
		misuseC27(r, yield)
	})
}

// mountC27 mounts with the metadata from every place.
func mountC27(r *Runner, yield func(Case) bool) {
	for n := 0; n < 2; n++ {
		n := n
		if !yield(Case{fmt.Sprintf("mount/%d", n), func(e *Env) (vi *Violation) {
			w := mkC27(e)
			meta := w.dir + "/meta.db"
			var pos []string
			if n == 1 {
				pos = []string{w.img}
			}
			i := 0
			spellings("mount", meta, nil, pos, func(l lineC27, verbose, _, _ bool) {
				if i++; vi != nil || (i-1)%23 != 0 || l.args[len(l.args)-1][0] == '-' || l.args[len(l.args)-1] == meta {
					return
				}
				func() {
					var m *Mnt
					defer catch(&m, &vi)
					e.metaEnv = l.env
					defer func() { e.metaEnv = "" }()
					var res Res
					m, res = e.Mount(true, l.args...)
					e.r.State(1)
					e.r.Trace(1)
					e.r.Trans(len(l.args))
					e.r.Outcome(l.String())
					if m == nil {
						vi = viol("%v: not mounted: %s", l, res.brief())
						return
					}
					x := m.Lookup(1, "rescue")
					if x.err == 0 {
						x = m.Lookup(x.node, "d")
					}
					if x.err == 0 {
						x = m.Lookup(x.node, "f")
					}
					if x.err != 0 {
						vi = viol("%v: d/f: %v", l, x.err)
						return
					}
					if res = m.Unmount(); res.Exit != 0 {
						vi = viol("%v: the command fails in the end: %s", l, res.brief())
						return
					}
					if s := w.unchanged(); s != "" {
						vi = viol("%v: %s", l, s)
					}
				}()
			})
			return vi
		}}) {
			return
		}
	}
}

// misuseC27 runs commands that cannot work.
func misuseC27(r *Runner, yield func(Case) bool) {
	type bad struct {
		why  string
		env  string
		args []string
		fine bool // informational: succeeds
	}
	type base struct {
		cmd   string
		opts  []string
		pos   []string
		count map[int]bool // valid numbers of arguments
		flags []string     // options with values and what they must not be
	}
	list := func(w *worldC27) (out []bad) {
		id := "--id=" + fsid1.String()
		bases := []base{
			{"ls", nil, nil, map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true}, []string{"--recursive=maybe", "--inode=2", "--recursive="}},
			{"dump-index", nil, nil, map[int]bool{0: true}, nil},
			{"recover", nil, []string{w.img, "dest/new"}, map[int]bool{2: true}, []string{"--clobber=perhaps", "--clobber="}},
			{"recon", []string{id}, []string{w.img}, map[int]bool{1: true}, []string{"--id=xyz", "--id=" + fsid1.String()[1:], "--id=" + fsid1.String() + "0", "--id=g" + fsid1.String()[1:],
				"--id=00000000-0000-0000-0000-000000000000", "--append=x"}},
			{"identify", nil, []string{w.img}, map[int]bool{1: true}, []string{"--min-blocks=x", "--min-blocks=-1", "--max-blocks=1.5", "--min-occurrence=", "--sample-fraction=many"}},
			{"mount", nil, []string{w.img, "mp"}, map[int]bool{1: true, 2: true}, nil},
		}
		global := []string{"--block-size=abc", "--block-size=-1", "--block-size=1.5", "--block-size=", "--block-size=18446744073709551616", "--verbose=2", "--progress=x", "--machine=x",
			"--bogus", "--bogus=1", "-z", "-vz", "--metadat=x", "--Metadata=x", "--meta"}
		cat := func(xs ...[]string) (a []string) {
			for _, x := range xs {
				a = append(a, x...)
			}
			return
		}
		for _, b := range bases {
			metaName := "meta.db"
			if b.cmd == "recon" {
				metaName = "new.db"
			}
			meta := []string{"--metadata=" + metaName}
			// Numbers of arguments.
			for n := 0; n <= 4; n++ {
				if b.count[n] {
					continue
				}
				args := append([]string{}, b.pos...)
				for len(args) < n {
					args = append(args, "dest/new")
				}
				args = args[:n]
				out = append(out,
					bad{fmt.Sprint(n, " arguments"), "", cat([]string{b.cmd}, b.opts, meta, args), false},
					bad{fmt.Sprint(n, " arguments"), "", cat(meta, []string{b.cmd}, args, b.opts), false},
					bad{fmt.Sprint(n, " arguments"), metaName, cat([]string{b.cmd}, b.opts, args), false})
			}
			// Options.
			for _, f := range b.flags {
				for _, o := range [][]string{meta, nil} {
					env := ""
					if o == nil {
						env = metaName
					}
					out = append(out, bad{"option " + f, env, cat([]string{b.cmd}, b.opts, o, []string{f}, b.pos), false},
						bad{"option " + f, env, cat(o, []string{b.cmd}, b.opts, b.pos, []string{f}), false})
					if strings.HasPrefix(f, "--id=") {
						// Alone, and against a good one before it.
						out = append(out, bad{"option " + f, env, cat([]string{b.cmd, f}, o, b.pos), false})
					}
				}
			}
			for _, f := range global {
				out = append(out, bad{"option " + f, "", cat([]string{f, b.cmd}, b.opts, meta, b.pos), false},
					bad{"option " + f, "", cat([]string{b.cmd}, b.opts, meta, []string{f}, b.pos), false},
					bad{"option " + f, metaName, cat([]string{b.cmd}, b.opts, b.pos, []string{f}), false})
			}
			for _, f := range []string{"--block-size", "--metadata"} {
				out = append(out, bad{"option without value", metaName, cat([]string{b.cmd}, b.opts, b.pos, []string{f}), false})
			}
			// No metadata.
			if b.cmd != "identify" {
				out = append(out, bad{"no metadata option", "", cat([]string{b.cmd}, b.opts, b.pos), false},
					bad{"no metadata option", "", cat([]string{"-v", "--progress=false", b.cmd}, b.opts, b.pos), false},
					bad{"empty metadata option", "", cat([]string{b.cmd, "--metadata="}, b.opts, b.pos), false},
					bad{"empty metadata option", "", cat([]string{"--metadata", "", b.cmd}, b.opts, b.pos), false})
				files := []string{"missing", "missing/meta.db", "text", "dest", "meta.db/x", ""}
				if b.cmd != "recon" {
					files = append(files, "nothing", "small")
				}
				for _, f := range files {
					if f == "" || b.cmd == "recon" && f == "missing" {
						continue
					}
					out = append(out, bad{"unusable metadata", "", cat([]string{b.cmd}, b.opts, []string{"--metadata=" + f}, b.pos), false},
						bad{"unusable metadata", f, cat([]string{b.cmd}, b.opts, b.pos), false})
				}
			}
			// Images.
			imgs := []string{"missing", "missing/img", "text/img"}
			if b.cmd == "recon" || b.cmd == "identify" {
				imgs = append(imgs, "small", "nothing", "dest")
			}
			if len(b.pos) > 0 {
				for _, f := range imgs {
					out = append(out, bad{"unusable image", "", cat([]string{b.cmd}, b.opts, meta, []string{f}, b.pos[1:]), false})
				}
			}
			// Help.
			for _, h := range []string{"--help", "-h"} {
				out = append(out, bad{"help", "", []string{b.cmd, h}, true}, bad{"help", "", []string{h, b.cmd}, true}, bad{"help", metaName, cat([]string{b.cmd}, b.opts, b.pos, []string{h}), true})
			}
			out = append(out, bad{"help", "", []string{"help", b.cmd}, true})
		}
		for _, x := range []string{"0", "1", "2", "31", "32", "33", "48", "72", "100", "101", "125", "99999999", "1000000000000", "9223372036854775808", "18446744073709551615"} {
			for _, b := range bases[3:5] {
				out = append(out, bad{"block size " + x, "new.db", append(append([]string{b.cmd, "--block-size=" + x}, b.opts...), b.pos...), false})
			}
		}
		out = append(out, bad{"no id", "", []string{"recon", "--metadata=new.db", w.img}, false}, bad{"no id", "new.db", []string{"recon", w.img}, false},
			bad{"no id", "new.db", []string{"recon", w.img, "--id"}, false}, bad{"no id", "new.db", []string{"recon", w.img, "--id="}, false})
		for _, c := range []string{"frobnicate", "LS", "l", "recove", "recovery", "dump", "mounts", "ls/"} {
			out = append(out, bad{"unknown command", "meta.db", []string{c}, false}, bad{"unknown command", "meta.db", []string{c, w.img, "dest/new"}, false},
				bad{"unknown command", "", []string{"--metadata=meta.db", c, "--clobber", w.img, "dest"}, false})
		}
		for _, d := range []string{"text", "text/sub", "meta.db"} {
			out = append(out, bad{"destination is no directory", "", []string{"recover", "--metadata=meta.db", w.img, d}, false})
		}
		out = append(out, bad{"help", "", nil, true}, bad{"help", "", []string{"help"}, true}, bad{"help", "", []string{"--help"}, true}, bad{"version", "", []string{"--version"}, true},
			bad{"completion", "", []string{"completion"}, true})
		return
	}
	const per = 25
	// The number of lines does not depend on the scratch directory.
	n := len(list(&worldC27{dir: "/x", img: "/y"}))
	for lo := 0; lo < n; lo += per {
		lo := lo
		if !yield(Case{fmt.Sprintf("misuse/%d", lo), func(e *Env) *Violation {
			w := mkC27(e)
			ls := list(w)
			for _, b := range ls[lo:imin(lo+per, len(ls))] {
				l := lineC27{b.env, b.args}
				res := e.execIn(w.dir, b.env, b.args...)
				e.r.State(1)
				e.r.Trace(1)
				e.r.Trans(len(l.args))
				e.r.Outcome(l.String())
				what := fmt.Sprintf("%s (%v)", b.why, l)
				if s := w.unchanged(); s != "" {
					return viol("%s: %s", what, s)
				}
				if res.crashed() {
					return viol("%s: %s", what, short(res.brief(), 300))
				}
				if b.fine {
					if res.Exit != 0 || len(res.Stdout)+len(res.Stderr) == 0 {
						return viol("%s: %s", what, short(res.brief(), 300))
					}
					continue
				}
				if res.Exit == 0 {
					return viol("%s: the status says success: %s", what, short(res.brief(), 300))
				}
				if strings.TrimSpace(res.Stderr) == "" {
					return viol("%s: there is no message: %s", what, short(res.brief(), 300))
				}
			}
			return nil
		}}) {
			return
		}
	}
}

func imin(a, b int) int {
	s := []int{a, b}
	sort.Ints(s)
	return s[0]
}
