package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// ---- reference model of the index: a sorted list of item versions ----

type idxModel struct {
	items []It
	dirs  map[[2]uint64]map[string]vref // see view.child
}

func (m *idxModel) pos(o uint64, k K, g uint64) (int, bool) {
	i := sort.Search(len(m.items), func(i int) bool {
		x := m.items[i]
		if x.Owner != o {
			return x.Owner > o
		}
		if x.K != k {
			return lessK(k, x.K)
		}
		return x.Gen >= g
	})
	return i, i < len(m.items) && m.items[i].Owner == o && m.items[i].K == k && m.items[i].Gen == g
}

func (m *idxModel) put(its ...It) {
	m.dirs = nil
	for _, it := range its {
		i, ok := m.pos(it.Owner, it.K, it.Gen)
		if ok {
			m.items[i] = it
			continue
		}
		m.items = append(m.items, It{})
		copy(m.items[i+1:], m.items[i:])
		m.items[i] = it
	}
}

func newModel(its ...It) *idxModel {
	m := &idxModel{}
	if len(its) > 64 {
		// Bulk load: last write of a version wins.
		idx := map[string]int{}
		for _, it := range its {
			s := fmt.Sprint(it.Owner, it.K, it.Gen)
			if j, ok := idx[s]; ok {
				m.items[j] = it
				continue
			}
			idx[s] = len(m.items)
			m.items = append(m.items, it)
		}
		sort.Slice(m.items, func(i, j int) bool {
			a, b := m.items[i], m.items[j]
			if a.Owner != b.Owner {
				return a.Owner < b.Owner
			}
			if a.K != b.K {
				return lessK(a.K, b.K)
			}
			return a.Gen < b.Gen
		})
		return m
	}
	m.put(its...)
	return m
}

// lookup returns the newest version with generation <= g, or, if there is
// none, the earliest version.
func (m *idxModel) lookup(o uint64, k K, g uint64) *It {
	var best, first *It
	i, _ := m.pos(o, k, 0)
	for ; i < len(m.items); i++ {
		it := &m.items[i]
		if it.Owner != o || it.K != k {
			break
		}
		if first == nil {
			first = it
		}
		if it.Gen <= g {
			best = it
		}
	}
	if best != nil {
		return best
	}
	return first
}

// ranged returns every key in [first, last] once, at the version lookup picks.
func (m *idxModel) ranged(o uint64, first, last K, g uint64) []It {
	var out []It
	for i, _ := m.pos(o, first, 0); i < len(m.items); {
		if m.items[i].Owner != o || lessK(last, m.items[i].K) {
			break
		}
		j := i
		for j < len(m.items) && m.items[j].Owner == m.items[i].Owner && m.items[j].K == m.items[i].K {
			j++
		}
		a := m.items[i]
		if a.Owner == o && !lessK(a.K, first) && !lessK(last, a.K) {
			pick := a
			for k := i; k < j; k++ {
				if m.items[k].Gen <= g {
					pick = m.items[k]
				}
			}
			out = append(out, pick)
		}
		i = j
	}
	return out
}

func (m *idxModel) all(o uint64, t uint8, id uint64) []It {
	return m.ranged(o, K{id, t, 0}, K{id, t, max64}, max64)
}

// ---- decoding of the model's own items ----

func getKey(b []byte) K { return K{le.Uint64(b), b[8], le.Uint64(b[9:])} }

func decDirents(b []byte) []dirent {
	var out []dirent
	for len(b) >= 30 {
		d := dirent{Loc: getKey(b), Transid: le.Uint64(b[17:]), Type: b[29]}
		dl, nl := int(le.Uint16(b[25:])), int(le.Uint16(b[27:]))
		if 30+dl+nl > len(b) {
			break
		}
		d.Name, d.Data = string(b[30:30+nl]), string(b[30+nl:30+nl+dl])
		out = append(out, d)
		b = b[30+nl+dl:]
	}
	return out
}

func decInode(b []byte) inodeT {
	gt := func(o int) ts { return ts{int64(le.Uint64(b[o:])), le.Uint32(b[o+8:])} }
	return inodeT{Gen: le.Uint64(b), Transid: le.Uint64(b[8:]), Size: le.Uint64(b[16:]),
		Nbytes: le.Uint64(b[24:]), Group: le.Uint64(b[32:]), Nlink: le.Uint32(b[40:]),
		UID: le.Uint32(b[44:]), GID: le.Uint32(b[48:]), Mode: le.Uint32(b[52:]),
		Rdev: le.Uint64(b[56:]), Flags: le.Uint64(b[64:]), Seq: le.Uint64(b[72:]),
		Atime: gt(112), Ctime: gt(124), Mtime: gt(136), Otime: gt(148)}
}

// ---- file system view of a set of items ----

type view struct{ m *idxModel }

func (v view) dirents(owner, dir uint64) []dirent {
	var out []dirent
	for _, it := range v.m.all(owner, tDirItem, dir) {
		out = append(out, decDirents(it.Data)...)
	}
	return out
}

func (v view) xattrs(owner, ino uint64) []dirent {
	var out []dirent
	for _, it := range v.m.all(owner, tXattr, ino) {
		out = append(out, decDirents(it.Data)...)
	}
	return out
}

func (v view) inode(owner, ino uint64) *inodeT {
	it := v.m.lookup(owner, K{ino, tInode, 0}, max64)
	if it == nil {
		return nil
	}
	i := decInode(it.Data)
	return &i
}

// phys maps a logical address through the chunk that contains it.
func (v view) phys(logical uint64) (dev, off uint64, ok bool) {
	for _, it := range v.m.all(oChunk, tChunk, 256) {
		l := le.Uint64(it.Data)
		n := le.Uint16(it.Data[44:])
		if n == 0 || logical < it.K.Off || logical-it.K.Off >= l {
			continue
		}
		off := le.Uint64(it.Data[56:])
		if d := logical - it.K.Off; off+d >= off {
			return le.Uint64(it.Data[48:]), off + d, true
		}
		return 0, 0, false // not an address of a device
	}
	return 0, 0, false
}

// content computes the bytes of a file: its extents laid over a zero
// background, older leaf generations first, cut or zero-extended to the
// inode's size. rd reads the image. It returns ok=false if it needs bytes that
// are not available.
func (v view) content(owner, ino uint64, rd func(off, n uint64) ([]byte, bool)) (data []byte, ok bool) {
	data, lost := v.contentLost(owner, ino, rd)
	return data, len(lost) == 0
}

// span is a part of a file.
type span struct{ lo, hi uint64 }

// contentLost also returns the parts of the file that belong to extents which
// cannot be read completely. It returns no data if the file cannot exist.
func (v view) contentLost(owner, ino uint64, rd func(off, n uint64) ([]byte, bool)) (data []byte, lost []span) {
	exts := v.m.all(owner, tExtent, ino)
	sort.SliceStable(exts, func(i, j int) bool { return exts[i].Gen < exts[j].Gen })
	in := v.inode(owner, ino)
	var size uint64
	if in != nil {
		size = in.Size
	} else {
		for _, e := range exts {
			end := e.K.Off + uint64(len(e.Data)-21)
			if n := le.Uint64(e.Data[8:]); e.K.Off+n > end {
				end = e.K.Off + n
			}
			if e.Data[20] != 0 {
				end = e.K.Off + le.Uint64(e.Data[45:])
			}
			if end > size {
				size = end
			}
		}
	}
	if size > 1<<32 {
		return nil, []span{{0, size}} // cannot be represented
	}
	out := make([]byte, size)
	bad := map[*It]bool{}
	parts := map[*It][]span{}
	// Only what no newer extent covers is needed.
	length := func(e It) uint64 {
		if e.Data[20] != 0 {
			return le.Uint64(e.Data[45:])
		}
		n := uint64(len(e.Data) - 21)
		if r := le.Uint64(e.Data[8:]); r > n {
			n = r
		}
		return n
	}
	set := map[uint64]bool{0: true, size: true}
	for _, e := range exts {
		for _, p := range []uint64{e.K.Off, e.K.Off + length(e)} {
			if p < size {
				set[p] = true
			}
		}
	}
	var pts []uint64
	for p := range set {
		pts = append(pts, p)
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
	for i, lo := range pts {
		if lo >= size {
			break
		}
		var e *It
		for j := len(exts) - 1; j >= 0 && e == nil; j-- {
			if x := &exts[j]; x.K.Off <= lo && lo-x.K.Off < length(*x) {
				e = x
			}
		}
		if e == nil {
			continue // a gap
		}
		parts[e] = append(parts[e], span{lo, pts[i+1]})
		dst, skip := out[lo:pts[i+1]], lo-e.K.Off
		if e.Data[16]|e.Data[17]|e.Data[18]|e.Data[19] != 0 {
			bad[e] = true // compressed or encrypted
			continue
		}
		if e.Data[20] == 0 {
			if d := e.Data[21:]; skip+uint64(len(dst)) > uint64(len(d)) {
				bad[e] = true // cut short
				if skip < uint64(len(d)) {
					copy(dst, d[skip:])
				}
			} else {
				copy(dst, d[skip:])
			}
			continue
		}
		disk, off := le.Uint64(e.Data[21:]), le.Uint64(e.Data[37:])
		if disk == 0 || e.Data[20] == 2 {
			continue
		}
		_, p, okp := v.phys(disk)
		if !okp || p+off < p || p+off+skip > max64>>1 {
			bad[e] = true
			continue
		}
		b, okr := rd(p+off+skip, uint64(len(dst)))
		if !okr {
			bad[e] = true
			continue
		}
		copy(dst, b)
	}
	for e := range bad {
		lost = append(lost, parts[e]...)
	}
	return out, lost
}

// target returns the symlink target.
func (v view) target(owner, ino uint64, rd func(off, n uint64) ([]byte, bool)) (string, bool) {
	it := v.m.lookup(owner, K{ino, tExtent, 0}, max64)
	if it == nil {
		return "", false
	}
	if it.Data[20] == 0 && it.Data[16]|it.Data[17]|it.Data[18]|it.Data[19] == 0 &&
		le.Uint64(it.Data[8:]) <= uint64(len(it.Data)-21) {
		return string(it.Data[21:]), true
	}
	if it.Data[20] == 1 && len(it.Data) < 53 {
		// Missing fields count as zeros.
		it = &It{Owner: it.Owner, K: it.K, Gen: it.Gen, Data: append(append([]byte{}, it.Data...), make([]byte, 53-len(it.Data))...)}
	}
	if it.Data[20] == 1 && rd != nil && it.Data[16]|it.Data[17]|it.Data[18]|it.Data[19] == 0 && le.Uint64(it.Data[21:]) != 0 {
		n := le.Uint64(it.Data[45:])
		if in := v.inode(owner, ino); in != nil && in.Size < n {
			n = in.Size
		}
		_, p, okp := v.phys(le.Uint64(it.Data[21:]))
		if p += le.Uint64(it.Data[37:]); okp && n <= 4096 && p < 1<<62 {
			b, ok := rd(p, n)
			return string(b), ok
		}
	}
	return "", false
}

// ---- building file systems ----

type ext struct {
	Off           uint64 // in the file
	Inline        []byte
	Pre           bool   // preallocated, unwritten
	Disk          uint64 // logical address; 0 is a hole
	DiskLen, EOff uint64
	Num           uint64
	Gen           uint64 // leaf generation, default that of the node
}

type xattr struct{ Name, Val string }

type node struct {
	Name    string
	Ft      uint8
	Subvol  uint64 // tree id when the entry is a subvolume
	Ino     uint64
	I       inodeT
	NoInode bool
	Exts    []ext
	Kids    []*node
	X       []xattr
	Gen     uint64 // leaf generation of the node's items, default 10
}

var defTime = ts{1577934245, 123456789} // 2020-01-02 03:04:05

func modeFor(ft uint8) uint32 {
	switch ft {
	case ftReg:
		return 0100644
	case ftDir:
		return 040755
	case ftChr:
		return 020600
	case ftBlk:
		return 060660
	case ftFifo:
		return 010644
	case ftSock:
		return 0140755
	case ftLnk:
		return 0120777
	}
	return 0
}

func dgen(g uint64) uint64 {
	if g == 0 {
		return 10
	}
	return g
}

func fileN(name string, ino, size uint64, exts ...ext) *node {
	return &node{Name: name, Ft: ftReg, Ino: ino, I: inodeT{Size: size}, Exts: exts}
}

func inlineN(name string, ino uint64, data string) *node {
	return fileN(name, ino, uint64(len(data)), ext{Inline: []byte(data)})
}

func linkN(name string, ino uint64, target string) *node {
	n := inlineN(name, ino, target)
	n.Ft = ftLnk
	return n
}

func dirN(name string, ino uint64, kids ...*node) *node {
	return &node{Name: name, Ft: ftDir, Ino: ino, Kids: kids}
}

func subvolN(name string, id uint64, kids ...*node) *node {
	return &node{Name: name, Ft: ftDir, Subvol: id, Kids: kids}
}

// emitNode appends the items of a node (not its directory entry) to out.
func emitNode(out *[]It, owner uint64, n *node, ino uint64) {
	g := dgen(n.Gen)
	i := n.I
	if i.Mode == 0 {
		i.Mode = modeFor(n.Ft)
	}
	if i.Nlink == 0 {
		i.Nlink = 1
	}
	if i.Mtime == (ts{}) {
		i.Atime, i.Ctime, i.Mtime, i.Otime = defTime, defTime, defTime, defTime
	}
	if !n.NoInode {
		*out = append(*out, It{owner, K{ino, tInode, 0}, g, encInode(i)})
	}
	by := map[uint32][]dirent{}
	var hs []uint32
	for _, x := range n.X {
		h := nameHash(x.Name)
		if _, ok := by[h]; !ok {
			hs = append(hs, h)
		}
		by[h] = append(by[h], dirent{Loc: K{}, Transid: g, Type: ftXatt, Name: x.Name, Data: x.Val})
	}
	for _, h := range hs {
		*out = append(*out, It{owner, K{ino, tXattr, uint64(h)}, g, encDirents(by[h]...)})
	}
	for _, e := range n.Exts {
		eg := e.Gen
		if eg == 0 {
			eg = g
		}
		var d []byte
		switch {
		case e.Inline != nil:
			d = encInline(eg, e.Inline)
		default:
			t := uint8(1)
			if e.Pre {
				t = 2
			}
			dl := e.DiskLen
			if dl == 0 && e.Disk != 0 {
				dl = e.EOff + e.Num
			}
			d = encExtent(extT{Gen: eg, RAM: dl, Type: t, Disk: e.Disk,
				DiskLen: dl, Offset: e.EOff, Num: e.Num})
		}
		*out = append(*out, It{owner, K{ino, tExtent, e.Off}, eg, d})
	}
	// Directory entries, hash collisions packed into one DIR_ITEM.
	de := map[uint32][]dirent{}
	hs = nil
	for j, k := range n.Kids {
		loc := K{k.Ino, tInode, 0}
		if k.Subvol != 0 {
			loc = K{k.Subvol, tRoot, max64}
		}
		d := dirent{Loc: loc, Transid: dgen(k.Gen), Type: k.Ft, Name: k.Name}
		h := nameHash(k.Name)
		if _, ok := de[h]; !ok {
			hs = append(hs, h)
		}
		de[h] = append(de[h], d)
		*out = append(*out, It{owner, K{ino, tDirIndex, uint64(j + 2)}, g, encDirents(d)})
	}
	for _, h := range hs {
		*out = append(*out, It{owner, K{ino, tDirItem, uint64(h)}, g, encDirents(de[h]...)})
	}
	for j, k := range n.Kids {
		if k.Subvol != 0 {
			emitTree(out, k.Subvol, k)
			b := make([]byte, 18+len(k.Name))
			le.PutUint64(b, ino)
			le.PutUint16(b[16:], uint16(len(k.Name)))
			copy(b[18:], k.Name)
			*out = append(*out, It{oRoot, K{owner, tRootRef, k.Subvol}, dgen(k.Gen), b})
			continue
		}
		emitNode(out, owner, k, k.Ino)
		b := make([]byte, 10+len(k.Name))
		le.PutUint64(b, uint64(j+2))
		le.PutUint16(b[8:], uint16(len(k.Name)))
		copy(b[10:], k.Name)
		*out = append(*out, It{owner, K{k.Ino, tInodeRef, ino}, g, b})
	}
}

// emitTree emits a subvolume tree whose root directory is node n.
func emitTree(out *[]It, owner uint64, n *node) {
	emitNode(out, owner, n, 256)
	*out = append(*out, It{oRoot, K{owner, tRoot, 0}, dgen(n.Gen), encRoot(dgen(n.Gen))})
}

func fsItems(kids ...*node) []It {
	var out []It
	emitTree(&out, oFS, &node{Ft: ftDir, Kids: kids})
	return out
}

func chunkItem(logical, length, dev, off uint64) It {
	return It{oChunk, K{256, tChunk, logical}, 10, simpleChunk(length, dev, off)}
}

// ---- metadata files ----

func ixKey(k K) btrfs.Key { return btrfs.Key{ObjectID: k.Obj, Type: k.Type, Offset: k.Off} }

func openIx(path string, bs uint, id UUID, gen uint64, ro bool) (*index.Index, error) {
	return index.Open(path, 0644, &index.Options{ReadOnly: ro, BlockSize: bs,
		FSID: uuid.UUID(id), Generation: gen})
}

func insertIt(ix *index.Index, it It) error {
	h := encHeader(hdrT{FSID: fsid1, Gen: it.Gen, Owner: it.Owner, NrItems: 1})
	return ix.InsertItem(ixKey(it.K), btrfs.Header(h), encItem(it.K, 0, uint32(len(it.Data))), it.Data)
}

// writeIndex creates a metadata file holding exactly the given versions.
func writeIndex(path string, bs uint, items []It) {
	os.Remove(path)
	ix, err := openIx(path, bs, fsid1, max64, false)
	if err != nil {
		panic(err)
	}
	for _, it := range items {
		if err := insertIt(ix, it); err != nil {
			panic(err)
		}
	}
	if err := ix.Commit(); err != nil {
		panic(err)
	}
	ix.Close()
	os.Chmod(path, 0644)
}

// ---- images ----

const minImage = 64<<20 + 100*65536

// pat is the byte pattern of data at image offset off; every aligned 8-byte
// word is different.
func pat(off, n uint64) []byte {
	b := make([]byte, n)
	patInto(b, off)
	return b
}

func patInto(b []byte, off uint64) {
	for i := range b {
		o := off + uint64(i)
		w := (o>>3 + 1) * 0x9e3779b97f4a7c15
		w ^= w >> 29
		w |= 0x0101010101010101
		b[i] = byte(w >> (8 * (o & 7)))
	}
}

// Image is a sparse image file.
type Image struct {
	Path string
	f    *os.File
	Size int64
}

func (e *Env) NewImage(name string, size int64) *Image {
	p := e.Path(name)
	f, err := os.OpenFile(p, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	if err := f.Truncate(size); err != nil {
		panic(err)
	}
	return &Image{p, f, size}
}

func (im *Image) Write(off uint64, b []byte) {
	if _, err := im.f.WriteAt(b, int64(off)); err != nil {
		panic(err)
	}
}

func (im *Image) Close() { im.f.Close() }

func (im *Image) Read(off, n uint64) ([]byte, bool) {
	if off > uint64(im.Size) || n > uint64(im.Size)-off {
		return nil, false
	}
	b := make([]byte, n)
	if _, err := im.f.ReadAt(b, int64(off)); err != nil {
		return nil, false
	}
	return b, true
}

// ---- observing directories ----

type fent struct {
	Mode   fs.FileMode
	Data   []byte
	Target string
}

func (f fent) kind() string {
	switch {
	case f.Mode.IsDir():
		return "dir"
	case f.Mode&fs.ModeSymlink != 0:
		return "symlink"
	case f.Mode.IsRegular():
		return "file"
	}
	return "special"
}

func readTree(root string) map[string]fent {
	out := map[string]fent{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		e := fent{Mode: fi.Mode()}
		if fi.Mode()&fs.ModeSymlink != 0 {
			e.Target, _ = os.Readlink(p)
		} else if fi.Mode().IsRegular() {
			e.Data, _ = os.ReadFile(p)
		}
		out[rel] = e
		return nil
	})
	return out
}

func diffTree(want, got map[string]fent) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, okw := want[k]
		g, okg := got[k]
		switch {
		case !okg:
			return fmt.Sprintf("missing %s %q", w.kind(), k)
		case !okw:
			return fmt.Sprintf("unexpected %s %q (%d bytes)", g.kind(), k, len(g.Data))
		case w.kind() != g.kind():
			return fmt.Sprintf("%q is a %s, expected a %s", k, g.kind(), w.kind())
		case w.Target != g.Target:
			return fmt.Sprintf("symlink %q points to %q, expected %q", k, g.Target, w.Target)
		case !bytes.Equal(w.Data, g.Data):
			return fmt.Sprintf("content of %q: %s", k, diffBytes(w.Data, g.Data))
		}
	}
	return ""
}

func diffBytes(w, g []byte) string {
	n := len(w)
	if len(g) < n {
		n = len(g)
	}
	for i := 0; i < n; i++ {
		if w[i] != g[i] {
			return fmt.Sprintf("first difference at byte %d: got %#02x, expected %#02x (lengths %d, expected %d)",
				i, g[i], w[i], len(g), len(w))
		}
	}
	return fmt.Sprintf("length %d, expected %d", len(g), len(w))
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func itemsString(its []It) string {
	var b strings.Builder
	for i, it := range its {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i == 12 {
			fmt.Fprintf(&b, "... (%d)", len(its))
			break
		}
		fmt.Fprintf(&b, "%d:%v@%d", it.Owner, it.K, it.Gen)
	}
	return b.String()
}
