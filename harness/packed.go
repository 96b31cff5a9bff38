package main

import (
	"fmt"
	"strings"
	"sync"
)

// Entries whose names have the same hash share an item. packedKinds are the
// kinds of such entries; the last three are broken.
const (
	packedKinds = 9
	packedSound = 6
)

var packedOnce sync.Once
var packedNames []string

// packedItems makes a top-level directory, a directory and a subvolume that
// hold the given kinds of entries in one item, in the order of perm.
func packedItems(kinds, perm []int) []It {
	packedOnce.Do(func() {
		h := nameHash("c")
		packedNames = []string{"c", collideName(h, "k"), collideName(h, strings.Repeat("q", 240))}
	})
	var its []It
	ent := func(o, ino uint64, k int, name string) (d dirent) {
		d = dirent{Loc: K{ino, tInode, 0}, Name: name, Transid: 1}
		put := func(mode uint32, data string) {
			its = append(its, It{o, K{ino, tInode, 0}, 1, encInode(inodeT{Nlink: 1, Mode: mode, Size: uint64(len(data))})})
			if data != "" {
				its = append(its, It{o, K{ino, tExtent, 0}, 1, encInline(1, []byte(data))})
			}
		}
		switch k {
		case 0:
			d.Type = ftReg
			put(0100644, "data of "+name[:1]+fmt.Sprint(ino))
		case 1:
			d.Type = ftLnk
			put(0120777, "to "+fmt.Sprint(ino))
		case 2:
			d.Type = ftDir
			put(040755, "")
			its = append(its, It{o, K{ino, tDirItem, 1}, 1, encDirents(dirent{Loc: K{ino + 1, tInode, 0}, Type: ftReg, Name: "in", Transid: 1})},
				It{o, K{ino + 1, tInode, 0}, 1, encInode(inodeT{Nlink: 1, Mode: 0100600})})
		case 3:
			d.Type, d.Loc = ftDir, K{ino + o*16, tRoot, max64}
			emitTree(&its, ino+o*16, &node{Ft: ftDir, Kids: []*node{inlineN("v", 300, "in "+fmt.Sprint(ino))}})
		case 4:
			d.Type = ftFifo
			put(010644, "")
		case 5:
			d.Type = ftReg
			put(0100644, "")
		case 6:
			d.Type = ftReg
		case 7:
			d.Type = ftLnk
		case 8:
			d.Loc.Obj, d.Type = 256, ftDir
		}
		return
	}
	for _, p := range []struct{ o, dir uint64 }{{oFS, 256}, {oFS, 400}, {260, 256}} {
		var ds []dirent
		for i, x := range perm {
			ds = append(ds, ent(p.o, p.dir+100+uint64(10*i), kinds[x], packedNames[x]))
		}
		its = append(its, It{p.o, K{p.dir, tInode, 0}, 1, encInode(inodeT{Nlink: 1, Mode: 040755})},
			It{p.o, K{p.dir, tDirItem, uint64(nameHash("c"))}, 1, encDirents(ds...)})
	}
	top := func(d dirent) {
		its = append(its, It{oFS, K{256, tDirItem, uint64(nameHash(d.Name))}, 1, encDirents(d)})
	}
	top(dirent{Loc: K{400, tInode, 0}, Type: ftDir, Name: "Shared-D", Transid: 1})
	top(dirent{Loc: K{260, tRoot, max64}, Type: ftDir, Name: "Shared-V", Transid: 1})
	return append(its, It{oRoot, K{260, tRoot, 0}, 1, encRoot(1)}, It{oRoot, K{oFS, tRoot, 0}, 1, encRoot(1)})
}

// eachPacked calls fn for all triples of the first kinds, starting with one of
// them, in all orders of the names.
func eachPacked(first, kinds int, every bool, fn func(what string, its []It) *Violation) *Violation {
	for b := 0; b < kinds; b++ {
		for c := 0; c < kinds; c++ {
			for pi, p := range permutations(3) {
				if !every && pi != (first+b+c)%6 {
					continue
				}
				if v := fn(fmt.Sprintf("entries %d, %d, %d sharing an item, in order %v", first, b, c, p), packedItems([]int{first, b, c}, p)); v != nil {
					return v
				}
			}
		}
	}
	return nil
}
