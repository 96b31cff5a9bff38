package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"sort"
)

// Independent encoders of the on-disk format, written from the btrfs format
// description (struct sizes and offsets of the kernel), not from the code
// under test.

var le = binary.LittleEndian

const (
	tInode     = 1
	tInodeRef  = 12
	tXattr     = 24
	tOrphan    = 48
	tDirItem   = 84
	tDirIndex  = 96
	tExtent    = 108
	tCsum      = 128
	tRoot      = 132
	tRootBRef  = 144
	tRootRef   = 156
	tExtItem   = 168
	tBlockGrp  = 192
	tDevExtent = 204
	tDevItem   = 216
	tChunk     = 228

	oRoot  = 1
	oExt   = 2
	oChunk = 3
	oDev   = 4
	oFS    = 5
	oCsum  = 7

	hdrLen  = 101
	itemLen = 25

	lastFree = ^uint64(0) - 255 // (u64)-256
	max64    = ^uint64(0)
)

const (
	ftReg  = 1
	ftDir  = 2
	ftChr  = 3
	ftBlk  = 4
	ftFifo = 5
	ftSock = 6
	ftLnk  = 7
	ftXatt = 8
)

// K is a btrfs key.
type K struct {
	Obj  uint64
	Type uint8
	Off  uint64
}

func (k K) String() string { return fmt.Sprintf("(%d %d %d)", k.Obj, k.Type, k.Off) }

// lessK orders keys by (type, objectid, offset), the order in which the index
// stores the items of an owner.
func lessK(a, b K) bool {
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	if a.Obj != b.Obj {
		return a.Obj < b.Obj
	}
	return a.Off < b.Off
}

// lessDisk orders keys as in a btrfs leaf (objectid, type, offset).
func lessDisk(a, b K) bool {
	if a.Obj != b.Obj {
		return a.Obj < b.Obj
	}
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	return a.Off < b.Off
}

// It is one stored item version.
type It struct {
	Owner uint64
	K     K
	Gen   uint64
	Data  []byte
}

type UUID [16]byte

var fsid1 = UUID{0xa7, 0xf3, 0x26, 0x75, 0xa3, 0x26, 0x04, 0xf9, 0x2c,
	0xd1, 0xe4, 0x8b, 0x6f, 0x93, 0x98, 0xe0}
var fsid2 = UUID{0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99,
	0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xf0, 0x01}

// fsid1n differs from fsid1 in the last bit only.
var fsid1n = func() UUID { u := fsid1; u[15] ^= 1; return u }()

func (u UUID) String() string {
	h := fmt.Sprintf("%x", u[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func putKey(b []byte, k K) {
	le.PutUint64(b, k.Obj)
	b[8] = k.Type
	le.PutUint64(b[9:], k.Off)
}

type ts struct {
	Sec  int64
	Nsec uint32
}

type inodeT struct {
	Gen, Transid, Size, Nbytes, Group uint64
	Nlink, UID, GID, Mode             uint32
	Rdev, Flags, Seq                  uint64
	Atime, Ctime, Mtime, Otime        ts
}

func putTime(b []byte, t ts) {
	le.PutUint64(b, uint64(t.Sec))
	le.PutUint32(b[8:], t.Nsec)
}

func encInode(i inodeT) []byte {
	b := make([]byte, 160)
	le.PutUint64(b[0:], i.Gen)
	le.PutUint64(b[8:], i.Transid)
	le.PutUint64(b[16:], i.Size)
	le.PutUint64(b[24:], i.Nbytes)
	le.PutUint64(b[32:], i.Group)
	le.PutUint32(b[40:], i.Nlink)
	le.PutUint32(b[44:], i.UID)
	le.PutUint32(b[48:], i.GID)
	le.PutUint32(b[52:], i.Mode)
	le.PutUint64(b[56:], i.Rdev)
	le.PutUint64(b[64:], i.Flags)
	le.PutUint64(b[72:], i.Seq)
	putTime(b[112:], i.Atime)
	putTime(b[124:], i.Ctime)
	putTime(b[136:], i.Mtime)
	putTime(b[148:], i.Otime)
	return b
}

// dirent is one entry of a DIR_ITEM, DIR_INDEX or XATTR_ITEM.
type dirent struct {
	Loc     K
	Transid uint64
	Type    uint8
	Name    string
	Data    string
}

func encDirents(ds ...dirent) []byte {
	var out []byte
	for _, d := range ds {
		b := make([]byte, 30)
		putKey(b, d.Loc)
		le.PutUint64(b[17:], d.Transid)
		le.PutUint16(b[25:], uint16(len(d.Data)))
		le.PutUint16(b[27:], uint16(len(d.Name)))
		b[29] = d.Type
		out = append(out, b...)
		out = append(out, d.Name...)
		out = append(out, d.Data...)
	}
	return out
}

func encInline(gen uint64, data []byte) []byte {
	b := make([]byte, 21, 21+len(data))
	le.PutUint64(b, gen)
	le.PutUint64(b[8:], uint64(len(data)))
	return append(b, data...)
}

type extT struct {
	Gen, RAM                   uint64
	Compr, Enc                 uint8
	Other                      uint16
	Type                       uint8 // 1 regular, 2 prealloc
	Disk, DiskLen, Offset, Num uint64
}

func encExtent(e extT) []byte {
	b := make([]byte, 53)
	le.PutUint64(b, e.Gen)
	le.PutUint64(b[8:], e.RAM)
	b[16], b[17] = e.Compr, e.Enc
	le.PutUint16(b[18:], e.Other)
	b[20] = e.Type
	le.PutUint64(b[21:], e.Disk)
	le.PutUint64(b[29:], e.DiskLen)
	le.PutUint64(b[37:], e.Offset)
	le.PutUint64(b[45:], e.Num)
	return b
}

type stripeT struct {
	Dev, Off uint64
	UUID     UUID
}

type chunkT struct {
	Len, Owner, StripeLen, Type uint64
	IOAlign, IOWidth, Sector    uint32
	Sub                         uint16
	Stripes                     []stripeT
}

func encChunk(c chunkT) []byte {
	b := make([]byte, 48+32*len(c.Stripes))
	le.PutUint64(b, c.Len)
	le.PutUint64(b[8:], c.Owner)
	le.PutUint64(b[16:], c.StripeLen)
	le.PutUint64(b[24:], c.Type)
	le.PutUint32(b[32:], c.IOAlign)
	le.PutUint32(b[36:], c.IOWidth)
	le.PutUint32(b[40:], c.Sector)
	le.PutUint16(b[44:], uint16(len(c.Stripes)))
	le.PutUint16(b[46:], c.Sub)
	for i, s := range c.Stripes {
		o := 48 + 32*i
		le.PutUint64(b[o:], s.Dev)
		le.PutUint64(b[o+8:], s.Off)
		copy(b[o+16:], s.UUID[:])
	}
	return b
}

func simpleChunk(length, dev, off uint64) []byte {
	return encChunk(chunkT{Len: length, Owner: 2, StripeLen: 65536, Type: 1,
		IOAlign: 4096, IOWidth: 4096, Sector: 4096, Sub: 1,
		Stripes: []stripeT{{Dev: dev, Off: off}}})
}

// encRoot encodes a ROOT_ITEM of which only the size and a few fields matter.
func encRoot(gen uint64) []byte {
	b := make([]byte, 439)
	copy(b, encInode(inodeT{Gen: 1, Size: 3, Nlink: 1, Mode: 040755}))
	le.PutUint64(b[160:], gen)
	le.PutUint64(b[168:], 256)
	le.PutUint64(b[239:], gen)
	return b
}

// encItem encodes the 25 byte item header.
func encItem(k K, off, size uint32) []byte {
	b := make([]byte, itemLen)
	putKey(b, k)
	le.PutUint32(b[17:], off)
	le.PutUint32(b[21:], size)
	return b
}

type hdrT struct {
	FSID     UUID
	Bytenr   uint64
	Flags    uint64
	ChunkU   UUID
	Gen      uint64
	Owner    uint64
	NrItems  uint32
	Level    uint8
	ZeroCsum bool
}

func encHeader(h hdrT) []byte {
	b := make([]byte, hdrLen)
	copy(b[32:], h.FSID[:])
	le.PutUint64(b[48:], h.Bytenr)
	le.PutUint64(b[56:], h.Flags)
	copy(b[64:], h.ChunkU[:])
	le.PutUint64(b[80:], h.Gen)
	le.PutUint64(b[88:], h.Owner)
	le.PutUint32(b[96:], h.NrItems)
	b[100] = h.Level
	return b
}

// leafSpace is the number of bytes a list of items needs in a leaf.
func leafSpace(items []It) int {
	n := hdrLen
	for _, it := range items {
		n += itemLen + len(it.Data)
	}
	return n
}

// encLeaf encodes a leaf; item data grows down from the end of the block.
func encLeaf(bs int, fsid UUID, bytenr, owner, gen uint64, items []It) []byte {
	if leafSpace(items) > bs {
		panic(fmt.Sprintf("leaf overflow: %d items, %d bytes", len(items), leafSpace(items)))
	}
	b := make([]byte, bs)
	copy(b, encHeader(hdrT{FSID: fsid, Bytenr: bytenr, Flags: 1 | 1<<56,
		ChunkU: fsid2, Gen: gen, Owner: owner, NrItems: uint32(len(items))}))
	end := bs
	for i, it := range items {
		end -= len(it.Data)
		copy(b[end:], it.Data)
		copy(b[hdrLen+i*itemLen:], encItem(it.K, uint32(end-hdrLen), uint32(len(it.Data))))
	}
	setCsum(b)
	return b
}

// crcRef is a bitwise CRC32C, the reference for checksums and name hashes.
func crcRef(crc uint32, data []byte) uint32 {
	for _, c := range data {
		crc ^= uint32(c)
		for k := 0; k < 8; k++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x82f63b78
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// crcFast equals crcRef (checked by property C22).
func crcFast(crc uint32, data []byte) uint32 {
	return ^crc32.Update(^crc, castagnoli, data)
}

// nameHash is btrfs_name_hash(): crc32c((u32)~1, name, len).
func nameHash(name string) uint32 { return crcFast(0xfffffffe, []byte(name)) }

func setCsum(b []byte) {
	for i := 0; i < 32; i++ {
		b[i] = 0
	}
	le.PutUint32(b, ^crcFast(0xffffffff, b[32:]))
}

// collideName returns a name of the given prefix whose hash equals that of
// name, by solving for four trailing bytes; printable reports whether all of
// them must be acceptable file name characters.
func collideName(target uint32, prefix string) string {
	// Running the CRC backwards over four bytes gives the unique 4-byte
	// suffix; vary a filler until it consists of plain characters.
	state := target
	for n := 0; ; n++ {
		p := fmt.Sprintf("%s%d", prefix, n)
		cur := crcFast(0xfffffffe, []byte(p))
		// Backward CRC: find x with crc(cur, x) == state.
		rev := state
		for i := 0; i < 32; i++ {
			if rev&0x80000000 != 0 {
				rev = (rev^0x82f63b78)<<1 | 1
			} else {
				rev <<= 1
			}
		}
		x := rev ^ cur
		s := []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
		ok := true
		for _, c := range s {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
				ok = false
			}
		}
		if ok {
			r := p + string(s)
			if nameHash(r) != target {
				panic("collideName")
			}
			return r
		}
	}
}

// packLeaves distributes items over leaves per (owner, gen) in disk order.
func packLeaves(bs int, items []It) [][]It {
	type og struct{ o, g uint64 }
	groups := map[og][]It{}
	var order []og
	for _, it := range items {
		k := og{it.Owner, it.Gen}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], it)
	}
	var out [][]It
	for _, k := range order {
		g := append([]It(nil), groups[k]...)
		sort.SliceStable(g, func(i, j int) bool { return lessDisk(g[i].K, g[j].K) })
		var cur []It
		for _, it := range g {
			if leafSpace(append(cur[:len(cur):len(cur)], it)) > bs {
				out = append(out, cur)
				cur = nil
			}
			cur = append(cur, it)
		}
		if len(cur) > 0 {
			out = append(out, cur)
		}
	}
	return out
}
