package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
)

// C05: opening metadata.
func init() {
	register(&Prop{ID: "C05", Level: "model_checking",
		Rule: "explicit state search: from 24 kinds of files (missing, empty, garbage, without index, every class of stored version, two ids, two block sizes) all sessions (18 kinds of open x 6 " +
			"actions) until no new model state appears, each transition executed on a copy of a file in that state and compared with the model; then all sequences of sessions up to " +
			"length 2 (thorough 3) on one file; the same for the commands; non-trivial: distinct (state, session, result)",
		Assumptions: []string{"bbolt itself stores committed data", "an index is not used after Commit() in the same open, except for inserting", "opens allowing old versions do not compare id and block size",
			"no two opens at the same time, except for reading"},
		Run: runC05})
}

// stC05 is the abstract state of a metadata file.
type stC05 struct {
	Kind  string // missing, garbage kinds, noindex (can be initialised), index
	Ver   uint64
	ID    int // 0: fsid1, 1: fsid2
	Bs    uint
	Gen   uint64
	Items int // bit set of itemsC05
}

var itemsC05 = []It{
	{oFS, K{256, tInode, 0}, 1, longD("first")},
	{oFS, K{256, tInode, 0}, 7, longD("second, of a newer generation")},
	{oChunk, K{256, tChunk, 1 << 40}, 3, longD("third")},
}

type openC05 struct {
	RO, Func bool // Func: OpenReadOnly
	ID       int
	Bs       uint
	Gen      uint64
	Old      bool
}

func (o openC05) String() string {
	if o.Func {
		return "OpenReadOnly"
	}
	return fmt.Sprintf("Open{ReadOnly:%v FSID:%d BlockSize:%d Generation:%d AllowOldVersion:%v}", o.RO, o.ID, o.Bs, o.Gen, o.Old)
}

// Actions of a session: which items are inserted and when it is committed.
var actionsC05 = []string{"close", "insert0 close", "insert1 commit close", "insert0 insert2 commit insert1 close", "commit close", "insert2 commit commit close"}

// step is the model: the state after a session and whether it is accepted.
func stepC05(s stC05, o openC05, action string) (stC05, bool) {
	ok := false
	switch s.Kind {
	case "missing", "empty", "noindex", "nometa":
		if !o.RO {
			ok = true
			s = stC05{Kind: "index", Ver: verC05, ID: o.ID, Bs: o.Bs, Gen: o.Gen}
		}
	case "index":
		switch {
		case s.Ver > verC05:
		case s.Ver < verC05 && !o.Old:
		case o.RO || o.Old:
			ok = true
		default:
			ok = s.ID == o.ID && s.Bs == o.Bs
		}
	}
	if ok && !o.RO {
		for i := range itemsC05 {
			if strings.Contains(action, fmt.Sprint("insert", i)) {
				s.Items |= 1 << i
			}
		}
	}
	return s, ok
}

func (s stC05) String() string {
	if s.Kind != "index" {
		return s.Kind + " file"
	}
	return fmt.Sprintf("index of version %d, id %d, block size %d, items %b", s.Ver, s.ID, s.Bs, s.Items)
}

// rawBolt returns everything a bolt file stores.
func rawBolt(path string) (map[string]string, error) {
	db, err := bbolt.Open(path, 0644, &bbolt.Options{ReadOnly: true, Timeout: 5 * time.Second})
	if err != nil {
		return nil, err
	}
	defer db.Close()
	m := map[string]string{}
	err = db.View(func(tx *bbolt.Tx) error {
		return tx.ForEach(func(name []byte, b *bbolt.Bucket) error {
			m["bucket "+string(name)] = ""
			return b.ForEach(func(k, v []byte) error {
				m[string(name)+"\x00"+string(k)] = string(v)
				return nil
			})
		})
	})
	return m, err
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// The ids after the first two differ from the first in one byte, or are
// special.
var fsidsC05 = func() []UUID {
	l := []UUID{fsid1, fsid2}
	for i := range fsid1 {
		u := fsid1
		u[i] ^= 1 << uint(i%8)
		l = append(l, u)
	}
	ones := UUID{}
	for i := range ones {
		ones[i] = 0xff
	}
	return append(l, UUID{}, ones)
}()

// makeC05 creates a file in an initial state.
func makeC05(path string, s stC05, variant string) {
	os.RemoveAll(path)
	switch s.Kind {
	case "missing":
	case "empty":
		os.WriteFile(path, nil, 0644)
	case "garbage":
		var b []byte
		switch variant {
		case "text":
			b = []byte("this is not metadata\n")
		case "zeros":
			b = make([]byte, 65536)
		case "pattern":
			b = pat(1, 40000)
		case "page":
			b = pat(5, 4096)
		case "image":
			b = encLeaf(65536, fsid1, 0, oFS, 1, itemsC05)
		case "directory":
			os.Mkdir(path, 0755)
			return
		}
		os.WriteFile(path, b, 0644)
	case "noindex", "nometa", "badmeta":
		db, err := bbolt.Open(path, 0644, nil)
		if err != nil {
			panic(err)
		}
		db.Update(func(tx *bbolt.Tx) error {
			if variant == "other" {
				b, _ := tx.CreateBucket([]byte("other"))
				b.Put([]byte("k"), []byte("v"))
			}
			if s.Kind == "nometa" {
				tx.CreateBucket([]byte("index"))
			}
			return nil
		})
		db.Close()
		if s.Kind == "badmeta" {
			os.Remove(path)
			makeC05(path, stC05{Kind: "index", Ver: verC05, Bs: 4096}, "")
			patchMeta(path, func(v []byte) []byte { return v[:len(v)/2] })
		}
	case "index":
		if variant == "raw" {
			rawC05(path, s)
			return
		}
		ix, err := openIx(path, s.Bs, fsidsC05[s.ID], s.Gen, false)
		if err != nil {
			panic(err)
		}
		for i, it := range itemsC05 {
			if s.Items>>i&1 != 0 {
				insertIt(ix, it)
			}
		}
		ix.Commit()
		ix.Close()
		if s.Ver != verC05 {
			patchMeta(path, func(v []byte) []byte {
				var old, nw [8]byte
				binary.LittleEndian.PutUint64(old[:], verC05)
				binary.LittleEndian.PutUint64(nw[:], s.Ver)
				return bytes.Replace(append([]byte{}, v...), old[:], nw[:], 1)
			})
		}
	}
}

// rawC05 writes a file without using the index package, as existing files are
// laid out.
func rawC05(path string, s stC05) {
	db, err := bbolt.Open(path, 0644, &bbolt.Options{Timeout: 5 * time.Second})
	if err != nil {
		panic(err)
	}
	defer db.Close()
	key := func(owner uint64, k K, gen uint64) []byte {
		b := binary.BigEndian.AppendUint64(nil, owner)
		b = append(b, k.Type)
		b = binary.BigEndian.AppendUint64(b, k.Obj)
		b = binary.BigEndian.AppendUint64(b, k.Off)
		return binary.BigEndian.AppendUint64(b, gen)
	}
	err = db.Update(func(tx *bbolt.Tx) error {
		b, err := tx.CreateBucket([]byte("index"))
		if err != nil {
			return err
		}
		v := binary.LittleEndian.AppendUint64(nil, s.Ver)
		v = binary.LittleEndian.AppendUint32(v, uint32(s.Bs))
		v = append(v, fsidsC05[s.ID][:]...)
		v = binary.LittleEndian.AppendUint64(v, s.Gen)
		if err := b.Put(key(max64, K{max64 - 255, 255, max64}, max64), v); err != nil {
			return err
		}
		for i, it := range itemsC05 {
			if s.Items>>i&1 != 0 {
				if err := b.Put(key(it.Owner, it.K, it.Gen), append(encItem(it.K, 0, uint32(len(it.Data))), it.Data...)); err != nil {
					return err
				}
			}
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
}

// verC05 is the version of the format that files have.
const verC05 = 20190809

// patchMeta changes the record that holds the index metadata: the one with
// the largest key.
func patchMeta(path string, f func(v []byte) []byte) {
	db, err := bbolt.Open(path, 0644, &bbolt.Options{Timeout: 5 * time.Second})
	if err != nil {
		panic(err)
	}
	defer db.Close()
	err = db.Update(func(tx *bbolt.Tx) error {
		b := tx.Bucket([]byte("index"))
		k, v := b.Cursor().Last()
		k = append([]byte{}, k...)
		return b.Put(k, f(append([]byte{}, v...)))
	})
	if err != nil {
		panic(err)
	}
}

// sessionC05 runs one session under a time limit. It returns whether the open
// was accepted.
func sessionC05(path string, st stC05, o openC05, action string) (ok bool, bad string) {
	type result struct {
		ok  bool
		bad string
	}
	ch := make(chan result, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- result{false, fmt.Sprintf("panic: %v", p)}
			}
		}()
		var ix *index.Index
		var err error
		if o.Func {
			ix, err = index.OpenReadOnly(path)
		} else {
			ix, err = index.Open(path, 0644, &index.Options{ReadOnly: o.RO, BlockSize: o.Bs, FSID: uuid.UUID(fsidsC05[o.ID]), Generation: o.Gen, AllowOldVersion: o.Old})
		}
		if err != nil {
			ch <- result{false, ""}
			return
		}
		want, _ := stepC05(st, o, "close")
		m := ix.Metadata()
		if m.Version() != want.Ver || m.BlockSize() != uint32(want.Bs) || UUID(m.FSID()) != fsidsC05[want.ID] || m.Generation() != want.Gen {
			ch <- result{true, fmt.Sprintf("metadata is version %d, block size %d, id %v, generation %d", m.Version(), m.BlockSize(), m.FSID(), m.Generation())}
			return
		}
		if o.RO {
			// A second reader at the same time.
			ix2, err := index.OpenReadOnly(path)
			if err == nil {
				ix2.Close()
			} else if want.Ver == verC05 {
				ch <- result{true, fmt.Sprintf("a second reader is refused: %v", err)}
				return
			}
		} else {
			for _, a := range strings.Fields(action) {
				switch {
				case strings.HasPrefix(a, "insert"):
					err = insertIt(ix, itemsC05[a[6]-'0'])
				case a == "commit":
					err = ix.Commit()
				}
				if err != nil {
					ch <- result{true, fmt.Sprintf("%s: %v", a, err)}
					return
				}
			}
		}
		ix.Close()
		ch <- result{true, ""}
	}()
	select {
	case x := <-ch:
		return x.ok, x.bad
	case <-time.After(20 * time.Second):
		return false, "the open does not return: the file is still locked"
	}
}

// contentC05 compares the stored items with the model.
func contentC05(path string, s stC05) string {
	if s.Kind != "index" {
		return ""
	}
	m := &idxModel{}
	for i, it := range itemsC05 {
		if s.Items>>i&1 != 0 {
			m.put(it)
		}
	}
	if s.Ver != verC05 {
		raw, err := rawBolt(path)
		if err != nil {
			return err.Error()
		}
		if len(raw) != len(m.items)+2 {
			return fmt.Sprintf("%d records are stored, expected %d items", len(raw), len(m.items))
		}
		return ""
	}
	return cmpItems(path, m, nil)
}

func opensC05() []openC05 {
	out := []openC05{{RO: true, Func: true, Gen: max64}}
	for _, old := range []bool{false, true} {
		for id := 0; id < 2; id++ {
			for _, bs := range []uint{4096, 16384} {
				out = append(out, openC05{ID: id, Bs: bs, Gen: max64, Old: old})
			}
		}
		out = append(out, openC05{RO: true, ID: 1, Bs: 512, Gen: 5, Old: old}, openC05{RO: true, ID: 0, Bs: 16384, Gen: max64, Old: old})
	}
	return append(out, openC05{ID: 0, Bs: 16384, Gen: 3}, openC05{ID: 0, Bs: 0, Gen: 0}, openC05{ID: 0, Bs: 16385, Gen: max64},
		openC05{RO: true, Gen: 0, Old: true})
}

type initC05 struct {
	s       stC05
	variant string
}

func initsC05() []initC05 {
	ix := func(ver uint64, items int) initC05 {
		return initC05{stC05{Kind: "index", Ver: ver, Bs: 16384, Gen: max64, Items: items}, ""}
	}
	v := uint64(verC05)
	return []initC05{
		{stC05{Kind: "missing"}, ""}, {stC05{Kind: "empty"}, ""},
		{stC05{Kind: "garbage"}, "text"}, {stC05{Kind: "garbage"}, "zeros"}, {stC05{Kind: "garbage"}, "pattern"}, {stC05{Kind: "garbage"}, "page"},
		{stC05{Kind: "garbage"}, "image"}, {stC05{Kind: "garbage"}, "directory"},
		{stC05{Kind: "noindex"}, ""}, {stC05{Kind: "noindex"}, "other"}, {stC05{Kind: "nometa"}, ""}, {stC05{Kind: "badmeta"}, ""},
		ix(v, 7), ix(v, 0), ix(v+1, 7), ix(v-1, 7), ix(max64, 3), ix(0, 5), ix(index.MetadataVersionUpgradable, 7), ix(index.MetadataVersionUpgradable+1, 1),
		ix(1<<63, 1), ix(v+1<<32, 7),
		{stC05{Kind: "index", Ver: v, ID: 1, Bs: 4096, Gen: 9, Items: 4}, ""},
		{stC05{Kind: "index", Ver: v, Bs: 16384, Gen: max64, Items: 7}, "raw"}, {stC05{Kind: "index", Ver: v, ID: 1, Bs: 4096, Gen: 9, Items: 5}, "raw"},
		{stC05{Kind: "index", Ver: v + 1, Bs: 16384, Gen: max64, Items: 7}, "raw"}, {stC05{Kind: "index", Ver: v - 1, Bs: 16384, Gen: max64, Items: 7}, "raw"},
	}
}

// transC05 executes one session on the file and checks it against the model.
func transC05(e *Env, path string, st stC05, o openC05, action, what string) (stC05, *Violation) {
	e.r.Trans(1)
	e.r.Trace(1)
	next, want := stepC05(st, o, action)
	before, errB := os.ReadFile(path)
	var raw map[string]string
	if st.Kind == "index" || st.Kind == "noindex" || st.Kind == "nometa" || st.Kind == "badmeta" {
		raw, _ = rawBolt(path)
	}
	ok, bad := sessionC05(path, st, o, action)
	desc := fmt.Sprintf("%s%s: %s, %s", what, st, o, action)
	if bad != "" {
		return next, viol("%s: %s", desc, bad)
	}
	if ok != want {
		return next, viol("%s: accepted=%v, expected %v", desc, ok, want)
	}
	e.r.Outcome(fmt.Sprint(st, o, action, ok))
	after, errA := os.ReadFile(path)
	if !ok || o.RO {
		if os.IsNotExist(errB) != os.IsNotExist(errA) {
			return next, viol("%s: the file exists: %v before, %v after", desc, errB == nil, errA == nil)
		}
		if (o.RO || raw == nil && st.Kind != "empty") && !bytes.Equal(before, after) {
			return next, viol("%s: the file was changed", desc)
		}
		if raw != nil {
			r2, err := rawBolt(path)
			if err != nil || !sameMap(raw, r2) {
				return next, viol("%s: the stored items were changed: %v", desc, err)
			}
		}
	}
	if st.Kind == "noindex" && next.Kind == "index" {
		// Other buckets are kept.
		r2, _ := rawBolt(path)
		for k, v := range raw {
			if w, ok := r2[k]; !ok || v != w {
				return next, viol("%s: other data was lost", desc)
			}
		}
	}
	if next.Kind == "index" && !(st.Kind == "noindex" && len(raw) > 0) {
		if d := contentC05(path, next); d != "" {
			return next, viol("%s: %s", desc, d)
		}
	}
	return next, nil
}

func copyC05(e *Env, from, to string) {
	os.RemoveAll(to)
	b, err := os.ReadFile(from)
	if err == nil {
		os.WriteFile(to, b, 0644)
	} else if fi, err := os.Stat(from); err == nil && fi.IsDir() {
		os.Mkdir(to, 0755)
	}
}

func runC05(r *Runner) {
	opens, inits := opensC05(), initsC05()
	acts := func(o openC05) []string {
		if o.RO {
			return actionsC05[:1]
		}
		return actionsC05
	}
	// Closure of the model.
	reach := map[stC05]bool{}
	var states []stC05
	var q []stC05
	for _, i := range inits {
		if !reach[i.s] {
			reach[i.s] = true
			q = append(q, i.s)
		}
	}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		states = append(states, s)
		for _, o := range opens {
			for _, a := range acts(o) {
				n, _ := stepC05(s, o, a)
				if !reach[n] {
					reach[n] = true
					q = append(q, n)
				}
			}
		}
	}
	sort.SliceStable(states, func(i, j int) bool { return states[i].Kind < states[j].Kind })
	r.Note("model states", len(states))
	var mu sync.Mutex
	done := 0
	r.ForEach(func(yield func(Case) bool) {
		for i, s := range states {
			i, s := i, s
			variants := []string{""}
			for _, x := range inits {
				if x.s == s && x.variant != "" {
					variants = append(variants, x.variant)
				}
			}
			if s.Kind == "garbage" {
				variants = variants[1:]
			}
			for _, vr := range variants {
				vr := vr
				if !yield(Case{fmt.Sprintf("state/%d/%s", i, vr), func(e *Env) *Violation {
					p, c := e.Path("m0"), e.Path("m")
					makeC05(p, s, vr)
					e.r.State(1)
					for _, o := range opens {
						for _, a := range acts(o) {
							copyC05(e, p, c)
							if _, v := transC05(e, c, s, o, a, ""); v != nil {
								return v
							}
							// The file must be usable at once.
							if _, v := transC05(e, c, mustStep(s, o, a), opens[0], "close", fmt.Sprintf("%s: %s, %s; then ", s, o, a)); v != nil {
								return v
							}
						}
					}
					mu.Lock()
					done++
					mu.Unlock()
					return nil
				}}) {
					return
				}
			}
		}
		// Ids and block sizes that are similar to the stored ones.
		for id := range fsidsC05 {
			id := id
			if !yield(Case{fmt.Sprintf("near/%d", id), func(e *Env) *Violation {
				p := e.Path("m")
				for _, st := range []stC05{{Kind: "index", Ver: verC05, Bs: 16384, Gen: max64, Items: 7}, {Kind: "index", Ver: verC05, ID: id, Bs: 16384, Gen: max64, Items: 7}} {
					makeC05(p, st, "")
					e.r.State(1)
					for other := range fsidsC05 {
						if _, v := transC05(e, p, st, openC05{ID: other, Bs: 16384, Gen: max64}, "close", ""); v != nil {
							return v
						}
					}
					for b := uint(0); b < 32; b++ {
						if _, v := transC05(e, p, st, openC05{ID: st.ID, Bs: 16384 ^ 1<<b, Gen: max64}, "close", ""); v != nil {
							return v
						}
					}
				}
				return nil
			}}) {
				return
			}
		}
		// Sequences on one file, without materialising the state in between.
		for i, in := range inits {
			for j, o := range opens {
				i, in, j, o := i, in, j, o
				if !yield(Case{fmt.Sprintf("seq/%d/%d", i, j), func(e *Env) *Violation {
					return seqC05(e, in, opens, o, acts)
				}}) {
					return
				}
			}
		}
		for i, in := range inits {
			i, in := i, in
			if !yield(Case{fmt.Sprintf("cli/%d", i), func(e *Env) *Violation { return cliC05(e, in) }}) {
				return
			}
		}
	})
	r.Note("states explored", done)
}

func mustStep(s stC05, o openC05, a string) stC05 {
	n, _ := stepC05(s, o, a)
	return n
}

func seqC05(e *Env, in initC05, opens []openC05, o1 openC05, acts func(openC05) []string) *Violation {
	type step struct {
		o openC05
		a string
	}
	var all []step
	for _, o := range opens {
		for _, a := range acts(o) {
			if a == actionsC05[0] || a == actionsC05[2] || a == actionsC05[3] {
				all = append(all, step{o, a})
			}
		}
	}
	p := e.Path("m")
	run := func(seq ...step) *Violation {
		makeC05(p, in.s, in.variant)
		s, what := in.s, ""
		e.r.State(1)
		for _, x := range seq {
			n, v := transC05(e, p, s, x.o, x.a, what)
			if v != nil {
				return v
			}
			what += fmt.Sprintf("%s: %s, %s; then ", s, x.o, x.a)
			s = n
		}
		return nil
	}
	for _, a := range acts(o1) {
		for _, b := range all {
			if v := run(step{o1, a}, b); v != nil {
				return v
			}
			if e.r.Thorough() {
				for _, c := range all {
					if c.a == actionsC05[3] {
						continue
					}
					if v := run(step{o1, a}, b, c); v != nil {
						return v
					}
				}
			}
		}
	}
	return nil
}

// cliC05 runs the commands on a file of each kind.
func cliC05(e *Env, in initC05) *Violation {
	p := e.Path("mc")
	im := e.NewImage("img", minImage)
	defer im.Close()
	leaf := []It{{oFS, K{300, tInode, 0}, 2, encInode(inodeT{Mode: 0100644})}}
	os.Mkdir(e.Path("dest"), 0777)
	os.Chmod(e.Path("dest"), 0777)
	cmds := []struct {
		ro   bool
		args []string
	}{
		{true, []string{"dump-index", "--metadata=" + p}},
		{true, []string{"ls", "--metadata=" + p, "--recursive=false", "--inode=false", "/"}},
		{true, []string{"recover", "--metadata=" + p, "--verbose=false", "--clobber=false", im.Path, e.Path("dest")}},
		{false, []string{"recon", "--metadata=" + p, "--progress=false", "--verbose=false", "--block-size=16384", "--id=" + fsid2.String(), im.Path}},
		{false, []string{"recon", "--metadata=" + p, "--progress=false", "--verbose=false", "--block-size=4096", "--id=" + fsid1.String(), im.Path}},
		{false, []string{"recon", "--metadata=" + p, "--progress=false", "--verbose=false", "--block-size=16384", "--id=" + fsid1.String(), im.Path}},
	}
	for i, c := range cmds {
		bs := 16384
		if i == 4 {
			bs = 4096
		}
		im.Write(1<<20, make([]byte, 16384))
		im.Write(1<<20, encLeaf(bs, fsid1, 1<<20, oFS, 2, leaf))
		makeC05(p, in.s, in.variant)
		os.Chmod(p, 0666)
		if in.variant == "directory" {
			os.Chmod(p, 0777)
		}
		var raw map[string]string
		if in.s.Kind != "missing" {
			raw, _ = rawBolt(p)
		}
		o := openC05{RO: c.ro, Bs: 16384, Gen: max64}
		if i == 3 {
			o.ID = 1
		}
		if i == 4 {
			o.Bs = 4096
		}
		next, want := stepC05(in.s, o, "")
		res := e.CLI(c.args...)
		e.r.State(1)
		e.r.Trace(1)
		e.r.Trans(1)
		desc := fmt.Sprintf("%s: %s", in.s, strings.Join(c.args, " "))
		if res.crashed() {
			v := viol("%s: %s", desc, short(res.brief(), 400))
			v.Hung = res.Hung != ""
			return v
		}
		if want && (res.Exit != 0) {
			return viol("%s: %s", desc, short(res.brief(), 300))
		}
		if !want && (res.Exit == 0 || res.Stderr == "") {
			return viol("%s: not refused with a message: %s", desc, short(res.brief(), 300))
		}
		if !want || c.ro {
			if _, err := os.Stat(p); in.s.Kind == "missing" && err == nil {
				return viol("%s: the metadata file was created", desc)
			}
			if in.s.Kind == "missing" {
				continue
			}
			r2, _ := rawBolt(p)
			if !sameMap(raw, r2) {
				return viol("%s: the stored items were changed", desc)
			}
			continue
		}
		// The scan added the leaf's item.
		m := &idxModel{}
		for k, it := range itemsC05 {
			if next.Items>>k&1 != 0 {
				m.put(it)
			}
		}
		if i != 3 {
			m.put(leaf[0])
		}
		if d := cmpItems(p, m, nil); d != "" {
			return viol("%s: %s", desc, d)
		}
	}
	return nil
}
