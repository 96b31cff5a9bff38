package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// C20: decoding of on-disk structures. The reference is a table of (field,
// offset, width) taken from the kernel's btrfs_tree.h.
func init() {
	register(&Prop{ID: "C20", Level: "model_checking",
		Rule: "for every structure: every byte position set to every value over 3 backgrounds (5 thorough, plus all pairs of positions " +
			"over boundary bytes), all accessors compared with the format table; names and data: every recorded length 0..255 (names) and " +
			"0..300 plus block-size boundaries (data); leaves: every item count, offset and size over boundaries; " +
			"non-trivial: distinct (structure, position)",
		Assumptions: []string{"format table transcribed from the btrfs on-disk format (struct sizes 101, 25, 160, 439, 98, 48, 80, 24, 53)"},
		Run:         runC20})
}

type field struct {
	name  string
	off   int
	width int // 1, 2, 4, 8: unsigned; 12: time; 16, 32: bytes; 17: key; 64: 8 words; 33: 4 words (32 bytes)
	get   func(b []byte) interface{}
}

func u8f(name string, off int, f func(b []byte) uint8) field {
	return field{name, off, 1, func(b []byte) interface{} { return uint64(f(b)) }}
}
func u16f(name string, off int, f func(b []byte) uint16) field {
	return field{name, off, 2, func(b []byte) interface{} { return uint64(f(b)) }}
}
func u32f(name string, off int, f func(b []byte) uint32) field {
	return field{name, off, 4, func(b []byte) interface{} { return uint64(f(b)) }}
}
func u64f(name string, off int, f func(b []byte) uint64) field {
	return field{name, off, 8, func(b []byte) interface{} { return f(b) }}
}
func uuidf(name string, off int, f func(b []byte) uuid.UUID) field {
	return field{name, off, 16, func(b []byte) interface{} { u := f(b); return [16]byte(u) }}
}
func timef(name string, off int, f func(b []byte) time.Time) field {
	return field{name, off, 12, func(b []byte) interface{} {
		t := f(b)
		return [2]int64{t.Unix(), int64(t.Nanosecond())}
	}}
}
func keyf(name string, off int, f func(b []byte) btrfs.Key) field {
	return field{name, off, 17, func(b []byte) interface{} { k := f(b); return K{k.ObjectID, k.Type, k.Offset} }}
}
func csumf(name string, off int, f func(b []byte) btrfs.CSum) field {
	return field{name, off, 32, func(b []byte) interface{} { return [32]byte(f(b)) }}
}
func boolf(name string, want func(b []byte) bool, f func(b []byte) bool) field {
	return field{name, -1, 0, func(b []byte) interface{} {
		if f(b) != want(b) {
			return fmt.Sprintf("%v", f(b))
		}
		return nil
	}}
}

// refField decodes a field independently of the code under test.
func refField(b []byte, f field) interface{} {
	switch f.width {
	case 1, 2, 4, 8:
		var v uint64
		for i := f.width - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[f.off+i])
		}
		return v
	case 12:
		var s, n uint64
		for i := 7; i >= 0; i-- {
			s = s<<8 | uint64(b[f.off+i])
		}
		for i := 11; i >= 8; i-- {
			n = n<<8 | uint64(b[f.off+i])
		}
		return [2]int64{int64(s) + int64(n/1000000000), int64(n % 1000000000)}
	case 16:
		var a [16]byte
		copy(a[:], b[f.off:])
		return a
	case 32:
		var a [32]byte
		copy(a[:], b[f.off:f.off+32])
		return a
	case 17:
		return K{refField(b, field{off: f.off, width: 8}).(uint64), b[f.off+8],
			refField(b, field{off: f.off + 9, width: 8}).(uint64)}
	case 64:
		var a [8]uint64
		for i := range a {
			a[i] = refField(b, field{off: f.off + 8*i, width: 8}).(uint64)
		}
		return a
	case 33:
		var a [4]uint64
		for i := range a {
			a[i] = refField(b, field{off: f.off + 8*i, width: 8}).(uint64)
		}
		return a
	}
	return nil
}

type structT struct {
	name   string
	size   int
	fields []field
}

func inodeFields(prefix string, o int, get func(b []byte) btrfs.InodeItem) []field {
	p := func(n string) string { return prefix + n }
	return []field{
		u64f(p("Generation"), o+0, func(b []byte) uint64 { return get(b).Generation() }),
		u64f(p("TransID"), o+8, func(b []byte) uint64 { return get(b).TransID() }),
		u64f(p("Size"), o+16, func(b []byte) uint64 { return get(b).Size() }),
		u64f(p("BlockGroup"), o+32, func(b []byte) uint64 { return get(b).BlockGroup() }),
		u32f(p("Nlink"), o+40, func(b []byte) uint32 { return get(b).Nlink() }),
		u32f(p("UID"), o+44, func(b []byte) uint32 { return get(b).UID() }),
		u32f(p("GID"), o+48, func(b []byte) uint32 { return get(b).GID() }),
		u32f(p("Mode"), o+52, func(b []byte) uint32 { return get(b).Mode() }),
		u64f(p("NBytes"), o+24, func(b []byte) uint64 { return get(b).NBytes() }),
		u64f(p("Rdev"), o+56, func(b []byte) uint64 { return get(b).Rdev() }),
		u64f(p("Flags"), o+64, func(b []byte) uint64 { return get(b).Flags() }),
		u64f(p("Sequence"), o+72, func(b []byte) uint64 { return get(b).Sequence() }),
		{p("Reserved"), o + 80, 33, func(b []byte) interface{} { return get(b).Reserved() }},
		timef(p("Atime"), o+112, func(b []byte) time.Time { return get(b).Atime() }),
		timef(p("Ctime"), o+124, func(b []byte) time.Time { return get(b).Ctime() }),
		timef(p("Mtime"), o+136, func(b []byte) time.Time { return get(b).Mtime() }),
		timef(p("Otime"), o+148, func(b []byte) time.Time { return get(b).Rtime() }),
	}
}

func structTable() []structT {
	var t []structT
	add := func(name string, size int, fs ...field) { t = append(t, structT{name, size, fs}) }

	add("Header", 101,
		csumf("CSum", 0, func(b []byte) btrfs.CSum { return btrfs.Header(b).CSum() }),
		uuidf("FSID", 32, func(b []byte) uuid.UUID { return btrfs.Header(b).FSID() }),
		u64f("ByteNr", 48, func(b []byte) uint64 { return btrfs.Header(b).ByteNr() }),
		u64f("Flags", 56, func(b []byte) uint64 { return btrfs.Header(b).Flags() }),
		uuidf("ChunkTreeUUID", 64, func(b []byte) uuid.UUID { return btrfs.Header(b).ChunkTreeUUID() }),
		u64f("Generation", 80, func(b []byte) uint64 { return btrfs.Header(b).Generation() }),
		u64f("Owner", 88, func(b []byte) uint64 { return btrfs.Header(b).Owner() }),
		u32f("NrItems", 96, func(b []byte) uint32 { return btrfs.Header(b).NrItems() }),
		u8f("Level", 100, func(b []byte) uint8 { return btrfs.Header(b).Level() }),
		boolf("IsLeaf", func(b []byte) bool { return b[100] == 0 }, func(b []byte) bool { return btrfs.Header(b).IsLeaf() }))

	add("Item", 25,
		keyf("Key", 0, func(b []byte) btrfs.Key { return btrfs.Item(b).Key() }),
		u32f("Offset", 17, func(b []byte) uint32 { return btrfs.Item(b).Offset() }),
		u32f("Size", 21, func(b []byte) uint32 { return btrfs.Item(b).Size() }))

	add("DevExtent", 48,
		u64f("ChunkTree", 0, func(b []byte) uint64 { return btrfs.DevExtent(b).ChunkTree() }),
		u64f("ChunkObjectID", 8, func(b []byte) uint64 { return btrfs.DevExtent(b).ChunkObjectID() }),
		u64f("ChunkOffset", 16, func(b []byte) uint64 { return btrfs.DevExtent(b).ChunkOffset() }),
		u64f("Length", 24, func(b []byte) uint64 { return btrfs.DevExtent(b).Length() }),
		uuidf("ChunkTreeUUID", 32, func(b []byte) uuid.UUID { return btrfs.DevExtent(b).ChunkTreeUUID() }))

	add("DevItem", 98,
		u64f("DevID", 0, func(b []byte) uint64 { return btrfs.DevItem(b).DevID() }),
		u64f("TotalBytes", 8, func(b []byte) uint64 { return btrfs.DevItem(b).TotalBytes() }),
		u64f("BytesUsed", 16, func(b []byte) uint64 { return btrfs.DevItem(b).BytesUsed() }),
		u32f("IOAlign", 24, func(b []byte) uint32 { return btrfs.DevItem(b).IOAlign() }),
		u32f("IOWidth", 28, func(b []byte) uint32 { return btrfs.DevItem(b).IOWidth() }),
		u32f("SectorSize", 32, func(b []byte) uint32 { return btrfs.DevItem(b).SectorSize() }),
		u64f("Type", 36, func(b []byte) uint64 { return btrfs.DevItem(b).Type() }),
		u64f("Generation", 44, func(b []byte) uint64 { return btrfs.DevItem(b).Generation() }),
		u64f("StartOffset", 52, func(b []byte) uint64 { return btrfs.DevItem(b).StartOffset() }),
		u32f("DevGroup", 60, func(b []byte) uint32 { return btrfs.DevItem(b).DevGroup() }),
		u8f("SeekSpeed", 64, func(b []byte) uint8 { return btrfs.DevItem(b).SeekSpeed() }),
		u8f("Bandwidth", 65, func(b []byte) uint8 { return btrfs.DevItem(b).Bandwidth() }),
		uuidf("UUID", 66, func(b []byte) uuid.UUID { return btrfs.DevItem(b).UUID() }),
		uuidf("FSID", 82, func(b []byte) uuid.UUID { return btrfs.DevItem(b).FSID() }))

	st := func(i int) []field {
		o := 48 + 32*i
		s := func(b []byte) btrfs.Stripe { return btrfs.Chunk(b).Stripe(uint16(i)) }
		p := fmt.Sprintf("Stripe(%d).", i)
		return []field{
			u64f(p+"DevID", o, func(b []byte) uint64 { return s(b).DevID() }),
			u64f(p+"Offset", o+8, func(b []byte) uint64 { return s(b).Offset() }),
			uuidf(p+"DevUUID", o+16, func(b []byte) uuid.UUID { return s(b).DevUUID() })}
	}
	ch := []field{
		u64f("Length", 0, func(b []byte) uint64 { return btrfs.Chunk(b).Length() }),
		u64f("Owner", 8, func(b []byte) uint64 { return btrfs.Chunk(b).Owner() }),
		u64f("StripeLen", 16, func(b []byte) uint64 { return btrfs.Chunk(b).StripeLen() }),
		u64f("Type", 24, func(b []byte) uint64 { return btrfs.Chunk(b).Type() }),
		u32f("IOAlign", 32, func(b []byte) uint32 { return btrfs.Chunk(b).IOAlign() }),
		u32f("IOWidth", 36, func(b []byte) uint32 { return btrfs.Chunk(b).IOWidth() }),
		u32f("SectorSize", 40, func(b []byte) uint32 { return btrfs.Chunk(b).SectorSize() }),
		u16f("NumStripes", 44, func(b []byte) uint16 { return btrfs.Chunk(b).NumStripes() }),
		u16f("SubStripes", 46, func(b []byte) uint16 { return btrfs.Chunk(b).SubStripes() })}
	for i := 0; i < 4; i++ {
		ch = append(ch, st(i)...)
	}
	add("Chunk", 48+32*4, ch...)

	add("InodeItem", 160, inodeFields("", 0, func(b []byte) btrfs.InodeItem { return btrfs.InodeItem(b) })...)

	add("InodeRefItem", 10,
		u64f("Index", 0, func(b []byte) uint64 { return btrfs.InodeRefItem(b).Index() }),
		u16f("NameLen", 8, func(b []byte) uint16 { return btrfs.InodeRefItem(b).NameLen() }))

	add("DirItem", 30,
		keyf("Location", 0, func(b []byte) btrfs.Key { return btrfs.DirItem(b).Location() }),
		u64f("TransID", 17, func(b []byte) uint64 { return btrfs.DirItem(b).TransID() }),
		u16f("DataLen", 25, func(b []byte) uint16 { return btrfs.DirItem(b).DataLen() }),
		u16f("NameLen", 27, func(b []byte) uint16 { return btrfs.DirItem(b).NameLen() }),
		u8f("Type", 29, func(b []byte) uint8 { return btrfs.DirItem(b).Type() }),
		boolf("IsDir", func(b []byte) bool { return b[29] == 2 }, func(b []byte) bool { return btrfs.DirItem(b).IsDir() }),
		boolf("IsSubvolume", func(b []byte) bool { return b[8] == 132 }, func(b []byte) bool { return btrfs.DirItem(b).IsSubvolume() }))

	add("BlockGroupItem", 24,
		u64f("Used", 0, func(b []byte) uint64 { return btrfs.BlockGroupItem(b).Used() }),
		u64f("ChunkObjectID", 8, func(b []byte) uint64 { return btrfs.BlockGroupItem(b).ChunkObjectID() }),
		u64f("Flags", 16, func(b []byte) uint64 { return btrfs.BlockGroupItem(b).Flags() }))

	add("FileExtentItem", 53,
		u64f("Generation", 0, func(b []byte) uint64 { return btrfs.FileExtentItem(b).Generation() }),
		u64f("RAMBytes", 8, func(b []byte) uint64 { return btrfs.FileExtentItem(b).RAMBytes() }),
		u8f("Compression", 16, func(b []byte) uint8 { return btrfs.FileExtentItem(b).Compression() }),
		u8f("Encryption", 17, func(b []byte) uint8 { return btrfs.FileExtentItem(b).Encryption() }),
		u16f("OtherEncoding", 18, func(b []byte) uint16 { return btrfs.FileExtentItem(b).OtherEncoding() }),
		u8f("Type", 20, func(b []byte) uint8 { return btrfs.FileExtentItem(b).Type() }),
		u64f("DiskByteNr", 21, func(b []byte) uint64 { return btrfs.FileExtentItem(b).DiskByteNr() }),
		u64f("DiskNumBytes", 29, func(b []byte) uint64 { return btrfs.FileExtentItem(b).DiskNumBytes() }),
		u64f("Offset", 37, func(b []byte) uint64 { return btrfs.FileExtentItem(b).Offset() }),
		u64f("NumBytes", 45, func(b []byte) uint64 { return btrfs.FileExtentItem(b).NumBytes() }),
		boolf("IsInline", func(b []byte) bool { return b[20] == 0 }, func(b []byte) bool { return btrfs.FileExtentItem(b).IsInline() }))

	add("CSumItem", 32,
		csumf("CSum", 0, func(b []byte) btrfs.CSum { return btrfs.CSumItem(b).CSum() }))

	ri := func(b []byte) btrfs.RootItem { return btrfs.RootItem(b) }
	root := inodeFields("Inode.", 0, func(b []byte) btrfs.InodeItem { return ri(b).Inode() })
	root = append(root,
		u64f("Generation", 160, func(b []byte) uint64 { return ri(b).Generation() }),
		u64f("RootDirID", 168, func(b []byte) uint64 { return ri(b).RootDirID() }),
		u64f("ByteNr", 176, func(b []byte) uint64 { return ri(b).ByteNr() }),
		u64f("ByteLimit", 184, func(b []byte) uint64 { return ri(b).ByteLimit() }),
		u64f("BytesUsed", 192, func(b []byte) uint64 { return ri(b).BytesUsed() }),
		u64f("LastSnapshot", 200, func(b []byte) uint64 { return ri(b).LastSnapshot() }),
		u64f("Flags", 208, func(b []byte) uint64 { return ri(b).Flags() }),
		u32f("Refs", 216, func(b []byte) uint32 { return ri(b).Refs() }),
		keyf("DropProgress", 220, func(b []byte) btrfs.Key { return ri(b).DropProgress() }),
		u8f("DropLevel", 237, func(b []byte) uint8 { return ri(b).DropLevel() }),
		u8f("Level", 238, func(b []byte) uint8 { return ri(b).Level() }),
		u64f("GenerationV2", 239, func(b []byte) uint64 { return ri(b).GenerationV2() }),
		uuidf("UUID", 247, func(b []byte) uuid.UUID { return ri(b).UUID() }),
		uuidf("ParentUUID", 263, func(b []byte) uuid.UUID { return ri(b).ParentUUID() }),
		uuidf("ReceivedUUID", 279, func(b []byte) uuid.UUID { return ri(b).ReceivedUUID() }),
		u64f("CTransID", 295, func(b []byte) uint64 { return ri(b).CTransID() }),
		u64f("OTransID", 303, func(b []byte) uint64 { return ri(b).OTransID() }),
		u64f("STransID", 311, func(b []byte) uint64 { return ri(b).STransID() }),
		u64f("RTransID", 319, func(b []byte) uint64 { return ri(b).RTransID() }),
		timef("Ctime", 327, func(b []byte) time.Time { return ri(b).Ctime() }),
		timef("Otime", 339, func(b []byte) time.Time { return ri(b).Otime() }),
		timef("Stime", 351, func(b []byte) time.Time { return ri(b).Stime() }),
		timef("Rtime", 363, func(b []byte) time.Time { return ri(b).Rtime() }),
		field{"Reserved", 375, 64, func(b []byte) interface{} { return ri(b).Reserved() }},
		boolf("IsGenerationV2", func(b []byte) bool { return bytes.Equal(b[160:168], b[239:247]) },
			func(b []byte) bool { return ri(b).IsGenerationV2() }))
	add("RootItem", 439, root...)

	add("RootRef", 18,
		u64f("DirID", 0, func(b []byte) uint64 { return btrfs.RootRef(b).DirID() }),
		u64f("Sequence", 8, func(b []byte) uint64 { return btrfs.RootRef(b).Sequence() }),
		u16f("NameLen", 16, func(b []byte) uint16 { return btrfs.RootRef(b).NameLen() }))

	add("ExtentItem", 24,
		u64f("Refs", 0, func(b []byte) uint64 { return btrfs.ExtentItem(b).Refs() }),
		u64f("Generation", 8, func(b []byte) uint64 { return btrfs.ExtentItem(b).Generation() }),
		u64f("Flags", 16, func(b []byte) uint64 { return btrfs.ExtentItem(b).Flags() }))
	return t
}

func checkStruct(r *Runner, st *structT, b []byte) *Violation {
	for i := range st.fields {
		f := &st.fields[i]
		got := f.get(b)
		if f.off < 0 {
			if got != nil {
				return viol("%s.%s is %v for %x", st.name, f.name, got, b)
			}
			continue
		}
		if want := refField(b, *f); got != want {
			return viol("%s.%s decodes as %v, the format says %v; structure bytes %x", st.name, f.name, got, want, b)
		}
	}
	return nil
}

func background(kind, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i*7 + 1)
		case 3:
			b[i] = 0x80
		case 4:
			b[i] = byte(255 - i*13)
		}
	}
	return b
}

func runC20(r *Runner) {
	nbg := 3
	if r.Thorough() {
		nbg = 5
	}
	r.ForEach(func(yield func(Case) bool) {
		for _, st := range structTable() {
			st := st
			for bg := 0; bg < nbg; bg++ {
				for p0 := 0; p0 < st.size; p0 += 20 {
					bg, p0 := bg, p0
					if !yield(Case{fmt.Sprintf("%s/bg%d/bytes%d", st.name, bg, p0), func(e *Env) *Violation {
						b := background(bg, st.size)
						for p := p0; p < p0+20 && p < st.size; p++ {
							old := b[p]
							r.Outcome(fmt.Sprint(st.name, p))
							for v := 0; v < 256; v++ {
								b[p] = byte(v)
								r.State(1)
								r.Trace(1)
								r.Trans(len(st.fields))
								if x := checkStruct(r, &st, b); x != nil {
									return x
								}
							}
							b[p] = old
						}
						return nil
					}}) {
						return
					}
				}
			}
			if r.Thorough() {
				for p0 := 0; p0 < st.size; p0++ {
					p0 := p0
					if !yield(Case{fmt.Sprintf("%s/pairs%d", st.name, p0), func(e *Env) *Violation {
						vals := []byte{0, 1, 0x7f, 0x80, 0xff}
						for bg := 0; bg < 2; bg++ {
							b := background(bg, st.size)
							for q := p0 + 1; q < st.size; q++ {
								o1, o2 := b[p0], b[q]
								for _, x := range vals {
									for _, y := range vals {
										b[p0], b[q] = x, y
										r.State(1)
										r.Trace(1)
										r.Trans(len(st.fields))
										if v := checkStruct(r, &st, b); v != nil {
											return v
										}
									}
								}
								b[p0], b[q] = o1, o2
							}
						}
						return nil
					}}) {
						return
					}
				}
			}
		}
		// Names and inline data.
		nm := func(n, seed int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*31 + seed)
			}
			return string(b)
		}
		dataLens := []int{0, 1, 2, 254, 255, 256, 257, 300, 4095, 4096, 16383, 16384, 16385, 65000, 65505, 65535}
		for n0 := 0; n0 <= 255; n0 += 16 {
			n0 := n0
			if !yield(Case{fmt.Sprintf("names/%d", n0), func(e *Env) *Violation {
				for n := n0; n < n0+16 && n <= 255; n++ {
					for _, dl := range dataLens {
						for _, tail := range []int{0, 1, 40} {
							name, data := nm(n, dl), nm(dl, n+7)
							b := append(encDirents(dirent{Loc: K{300, 1, 0}, Type: 1, Name: name, Data: data}),
								bytes.Repeat([]byte{0xee}, tail)...)
							r.State(1)
							r.Trace(1)
							r.Trans(2)
							if got := btrfs.DirItem(b).Name(); got != name {
								return viol("directory entry with a name of %d and data of %d bytes: name is %d bytes: %.40q, expected %.40q",
									n, dl, len(got), got, name)
							}
							if got := btrfs.DirItem(b).Data(); got != data {
								return viol("entry with a name of %d and data of %d bytes: data is %d bytes: %.40q, expected %.40q",
									n, dl, len(got), got, data)
							}
						}
					}
					name := nm(n, 3)
					for _, tail := range []int{0, 1, 300} {
						t := strings.Repeat("\xee", tail)
						b := make([]byte, 10)
						le.PutUint16(b[8:], uint16(n))
						if got := btrfs.InodeRefItem(append(b, name+t...)).Name(); got != name {
							return viol("inode ref with a name of %d bytes: got %q", n, got)
						}
						b = make([]byte, 18)
						le.PutUint16(b[16:], uint16(n))
						if got := btrfs.RootRef(append(b, name+t...)).Name(); got != name {
							return viol("root ref with a name of %d bytes: got %q", n, got)
						}
						r.Trans(2)
					}
				}
				return nil
			}}) {
				return
			}
		}
		yield(Case{"inline-data", func(e *Env) *Violation {
			var lens []int
			for i := 0; i <= 300; i++ {
				lens = append(lens, i)
			}
			lens = append(lens, 2047, 2048, 2049, 3900, 4094, 4095, 4096, 16100, 16383, 16384, 16385, 30000, 65000)
			for _, n := range lens {
				for _, tail := range []int{0, 1, 64} {
					d := nm(n, 11)
					r.State(1)
					r.Trace(1)
					r.Trans(1)
					if got := btrfs.FileExtentItem(append(encInline(7, []byte(d)), bytes.Repeat([]byte{0xee}, tail)...)).Data(); got != d {
						return viol("inline extent of %d bytes: data is %d bytes", n, len(got))
					}
				}
			}
			return nil
		}})
		// Leaves.
		for _, bs := range []int{512, 4096, 16384, 65536} {
			bs := bs
			if !yield(Case{fmt.Sprintf("leaf/bs%d", bs), func(e *Env) *Violation { return c20Leaf(r, bs) }}) {
				return
			}
		}
		yield(Case{"item-data", func(e *Env) *Violation {
			// A stored item is its header followed by its data.
			for _, ty := range []uint8{0, 1, 12, 24, 48, 84, 96, 108, 128, 132, 144, 156, 168, 192, 204, 216, 228, 255} {
				for n := 160; n <= 600; n++ {
					d := []byte(nm(n, 5))
					d[20] = byte(n % 3)
					it := btrfs.Item(append(encItem(K{1, ty, 2}, 4711, uint32(n)), d...))
					r.State(1)
					r.Trans(1)
					if !bytes.Equal(it.Data(), d) {
						return viol("item of type %d with %d data bytes: Data() returns %d bytes", ty, n, len(it.Data()))
					}
				}
			}
			return nil
		}})
	})
}

// c20Leaf checks leaf access by position for every item count and a set of
// item sizes.
func c20Leaf(r *Runner, bs int) *Violation {
	sizes := [][]int{{0}, {1}, {160}, {0, 1, 7, 160, 30}, {439, 53, 0, 21}}
	for si, sz := range sizes {
		var items []It
		for n := 0; ; n++ {
			// Leaf of n items.
			if leafSpace(items) > bs {
				break
			}
			b := encLeaf(bs, fsid1, 0x10000, 5, 9, items)
			r.State(1)
			r.Trace(1)
			l := btrfs.Leaf(b)
			if l.Len() != n || len(l.Items()) != n {
				return viol("leaf of %d bytes with %d items reports %d (%d) items", bs, n, l.Len(), len(l.Items()))
			}
			if l.Header().Owner() != 5 || l.Header().Generation() != 9 {
				return viol("leaf header wrong")
			}
			step := 1
			if n > 64 {
				step = n/16 + 1
			}
			end := bs
			ends := make([]int, n)
			for i := 0; i < n; i++ {
				end -= len(items[i].Data)
				ends[i] = end
			}
			all := l.Items()
			for i := 0; i < n; i += step {
				r.Trans(1)
				it := items[i]
				if k := l.Key(i); k != ixKey(it.K) {
					return viol("leaf key %d of %d is %v, expected %v", i, n, k, it.K)
				}
				x := l.Item(i)
				if x.Key() != ixKey(it.K) || int(x.Offset()) != ends[i]-101 || int(x.Size()) != len(it.Data) ||
					!bytes.Equal(x, all[i]) {
					return viol("leaf item %d of %d is key %v offset %d size %d", i, n, x.Key(), x.Offset(), x.Size())
				}
				if !bytes.Equal(l.Data(i), it.Data) {
					return viol("data of leaf item %d of %d (block size %d, %d bytes) is wrong: %d bytes", i, n, bs, len(it.Data), len(l.Data(i)))
				}
			}
			d := make([]byte, sz[n%len(sz)])
			for j := range d {
				d[j] = byte(n*13 + j*7 + si)
			}
			items = append(items, It{5, K{uint64(256 + n), uint8(n), uint64(n) << 33}, 9, d})
		}
	}
	return nil
}
