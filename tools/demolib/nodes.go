package main

type ext struct {
	Off           uint64 // in the file
	Inline        []byte
	Pre           bool   // preallocated, unwritten
	Disk          uint64 // logical address; 0 is a hole
	DiskLen, EOff uint64
	Num           uint64
	Gen           uint64 // leaf generation, default that of the node
}

type xattr struct{ Name, Val string }

type node struct {
	Name    string
	Ft      uint8
	Subvol  uint64 // tree id when the entry is a subvolume
	Ino     uint64
	I       inodeT
	NoInode bool
	Exts    []ext
	Kids    []*node
	X       []xattr
	Gen     uint64 // leaf generation of the node's items, default 10
}

var defTime = ts{1577934245, 123456789} // 2020-01-02 03:04:05

func modeFor(ft uint8) uint32 {
	switch ft {
	case ftReg:
		return 0100644
	case ftDir:
		return 040755
	case ftChr:
		return 020600
	case ftBlk:
		return 060660
	case ftFifo:
		return 010644
	case ftSock:
		return 0140755
	case ftLnk:
		return 0120777
	}
	return 0
}

func dgen(g uint64) uint64 {
	if g == 0 {
		return 10
	}
	return g
}

func fileN(name string, ino, size uint64, exts ...ext) *node {
	return &node{Name: name, Ft: ftReg, Ino: ino, I: inodeT{Size: size}, Exts: exts}
}

func inlineN(name string, ino uint64, data string) *node {
	return fileN(name, ino, uint64(len(data)), ext{Inline: []byte(data)})
}

func linkN(name string, ino uint64, target string) *node {
	n := inlineN(name, ino, target)
	n.Ft = ftLnk
	return n
}

func dirN(name string, ino uint64, kids ...*node) *node {
	return &node{Name: name, Ft: ftDir, Ino: ino, Kids: kids}
}

func subvolN(name string, id uint64, kids ...*node) *node {
	return &node{Name: name, Ft: ftDir, Subvol: id, Kids: kids}
}

// emitNode appends the items of a node (not its directory entry) to out.
func emitNode(out *[]It, owner uint64, n *node, ino uint64) {
	g := dgen(n.Gen)
	i := n.I
	if i.Mode == 0 {
		i.Mode = modeFor(n.Ft)
	}
	if i.Nlink == 0 {
		i.Nlink = 1
	}
	if i.Mtime == (ts{}) {
		i.Atime, i.Ctime, i.Mtime, i.Otime = defTime, defTime, defTime, defTime
	}
	if !n.NoInode {
		*out = append(*out, It{owner, K{ino, tInode, 0}, g, encInode(i)})
	}
	by := map[uint32][]dirent{}
	var hs []uint32
	for _, x := range n.X {
		h := nameHash(x.Name)
		if _, ok := by[h]; !ok {
			hs = append(hs, h)
		}
		by[h] = append(by[h], dirent{Loc: K{}, Transid: g, Type: ftXatt, Name: x.Name, Data: x.Val})
	}
	for _, h := range hs {
		*out = append(*out, It{owner, K{ino, tXattr, uint64(h)}, g, encDirents(by[h]...)})
	}
	for _, e := range n.Exts {
		eg := e.Gen
		if eg == 0 {
			eg = g
		}
		var d []byte
		switch {
		case e.Inline != nil:
			d = encInline(eg, e.Inline)
		default:
			t := uint8(1)
			if e.Pre {
				t = 2
			}
			dl := e.DiskLen
			if dl == 0 && e.Disk != 0 {
				dl = e.EOff + e.Num
			}
			d = encExtent(extT{Gen: eg, RAM: dl, Type: t, Disk: e.Disk,
				DiskLen: dl, Offset: e.EOff, Num: e.Num})
		}
		*out = append(*out, It{owner, K{ino, tExtent, e.Off}, eg, d})
	}
	// Directory entries, hash collisions packed into one DIR_ITEM.
	de := map[uint32][]dirent{}
	hs = nil
	for j, k := range n.Kids {
		loc := K{k.Ino, tInode, 0}
		if k.Subvol != 0 {
			loc = K{k.Subvol, tRoot, max64}
		}
		d := dirent{Loc: loc, Transid: dgen(k.Gen), Type: k.Ft, Name: k.Name}
		h := nameHash(k.Name)
		if _, ok := de[h]; !ok {
			hs = append(hs, h)
		}
		de[h] = append(de[h], d)
		*out = append(*out, It{owner, K{ino, tDirIndex, uint64(j + 2)}, g, encDirents(d)})
	}
	for _, h := range hs {
		*out = append(*out, It{owner, K{ino, tDirItem, uint64(h)}, g, encDirents(de[h]...)})
	}
	for j, k := range n.Kids {
		if k.Subvol != 0 {
			emitTree(out, k.Subvol, k)
			b := make([]byte, 18+len(k.Name))
			le.PutUint64(b, ino)
			le.PutUint16(b[16:], uint16(len(k.Name)))
			copy(b[18:], k.Name)
			*out = append(*out, It{oRoot, K{owner, tRootRef, k.Subvol}, dgen(k.Gen), b})
			continue
		}
		emitNode(out, owner, k, k.Ino)
		b := make([]byte, 10+len(k.Name))
		le.PutUint64(b, uint64(j+2))
		le.PutUint16(b[8:], uint16(len(k.Name)))
		copy(b[10:], k.Name)
		*out = append(*out, It{owner, K{k.Ino, tInodeRef, ino}, g, b})
	}
}

// emitTree emits a subvolume tree whose root directory is node n.
func emitTree(out *[]It, owner uint64, n *node) {
	emitNode(out, owner, n, 256)
	*out = append(*out, It{oRoot, K{owner, tRoot, 0}, dgen(n.Gen), encRoot(dgen(n.Gen))})
}

func fsItems(kids ...*node) []It {
	var out []It
	emitTree(&out, oFS, &node{Ft: ftDir, Kids: kids})
	return out
}

func chunkItem(logical, length, dev, off uint64) It {
	return It{oChunk, K{256, tChunk, logical}, 10, simpleChunk(length, dev, off)}
}

// pat is the byte pattern of data at image offset off; every aligned 8-byte
// word is different.
func pat(off, n uint64) []byte {
	b := make([]byte, n)
	patInto(b, off)
	return b
}

func patInto(b []byte, off uint64) {
	for i := range b {
		o := off + uint64(i)
		w := (o>>3 + 1) * 0x9e3779b97f4a7c15
		w ^= w >> 29
		w |= 0x0101010101010101
		b[i] = byte(w >> (8 * (o & 7)))
	}
}
