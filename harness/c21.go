package main

import (
	"fmt"
	"sort"
	"strings"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

var typeNames = map[uint8]string{1: "INODE_ITEM", 12: "INODE_REF", 13: "INODE_EXTREF", 24: "XATTR_ITEM", 48: "ORPHAN_ITEM",
	60: "DIR_LOG_ITEM", 72: "DIR_LOG_INDEX", 84: "DIR_ITEM", 96: "DIR_INDEX", 108: "EXTENT_DATA", 128: "EXTENT_CSUM",
	132: "ROOT_ITEM", 144: "ROOT_BACKREF", 156: "ROOT_REF", 168: "EXTENT_ITEM", 169: "METADATA_ITEM", 176: "TREE_BLOCK_REF",
	178: "EXTENT_DATA_REF", 180: "EXTENT_REF_V0", 182: "SHARED_BLOCK_REF", 184: "SHARED_DATA_REF", 192: "BLOCK_GROUP_ITEM",
	198: "FREE_SPACE_INFO", 199: "FREE_SPACE_EXTENT", 200: "FREE_SPACE_BITMAP", 204: "DEV_EXTENT", 216: "DEV_ITEM", 228: "CHUNK_ITEM",
	240: "QGROUP_STATUS", 242: "QGROUP_INFO", 246: "QGROUP_RELATION", 248: "TEMPORARY_ITEM", 249: "PERSISTENT_ITEM", 250: "DEV_REPLACE",
	251: "UUID_SUBVOL", 252: "UUID_RECEIVED_SUBVOL", 253: "STRING_ITEM"}

func neg(n uint64) uint64 { return ^n + 1 }

// idNames lists the accepted names; the tool spells two of them unusually.
var idNames = map[uint64][]string{1: {"ROOT_TREE"}, 2: {"EXTENT_TREE"}, 3: {"CHUNK_TREE"}, 4: {"DEV_TREE"}, 5: {"FS_TREE"},
	6: {"ROOT_TREE_DIR"}, 7: {"CSUM_TREE"}, 8: {"QUOTA_TREE"}, 9: {"UUID", "UUID_TREE"}, 10: {"FREES_SPACE_TREE", "FREE_SPACE_TREE"},
	0: {"DEV_STATS"}, neg(4): {"BALANCE"}, neg(5): {"ORPHAN"}, neg(6): {"TREE_LOG"}, neg(7): {"TREE_LOG_FIXUP"}, neg(8): {"TREE_RELOC"},
	neg(9): {"DATA_RELOC_TREE"}, neg(10): {"EXTENT_CSUM"}, neg(11): {"FREE_SPACE"}, neg(12): {"FREE_INO"}, neg(255): {"MULTIPLE"},
	256: {"FIRST_FREE"}, neg(256): {"LAST_FREE"}}

// C21: key order and names.
func init() {
	register(&Prop{ID: "C21", Level: "model_checking",
		Rule: "all pairs of keys over a boundary alphabet of 17 x 20 x 12 ids/types/offsets and all triples of a reduced alphabet; " +
			"all 256 types, all special object ids and their neighbours; iteration order of an index holding the alphabet",
		Assumptions: []string{"names are the kernel's constant names; FREES_SPACE_TREE and UUID are accepted spellings of the tool"},
		Run:         runC21})
}

func sgn(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func runC21(r *Runner) {
	ids := []uint64{0, 1, 5, 6, 255, 256, 257, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, lastFree - 1, lastFree, lastFree + 1, max64}
	types := []uint8{0, 1, 12, 24, 83, 84, 96, 108, 127, 128, 129, 132, 168, 169, 192, 216, 228, 253, 254, 255}
	offs := []uint64{0, 1, 7, 255, 256, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, max64 - 1, max64, 4096}
	var ks []K
	for _, i := range ids {
		for _, t := range types {
			for _, o := range offs {
				ks = append(ks, K{i, t, o})
			}
		}
	}
	ref := func(a, b K) int {
		switch {
		case lessK(a, b):
			return -1
		case lessK(b, a):
			return 1
		}
		return 0
	}
	r.ForEach(func(yield func(Case) bool) {
		for i := 0; i < len(ids); i++ {
			i := i
			yield(Case{fmt.Sprintf("pairs/%d", i), func(e *Env) *Violation {
				n := len(ks) / len(ids)
				for _, a := range ks[i*n : (i+1)*n] {
					for _, b := range ks {
						e.r.Trans(1)
						if got := sgn(btrfs.KeyCompare(ixKey(a), ixKey(b))); got != ref(a, b) {
							return viol("comparing keys %v and %v gives %d, expected %d", a, b, got, ref(a, b))
						}
					}
					e.r.State(1)
					e.r.Trace(1)
				}
				e.r.Outcome(fmt.Sprint("p", i))
				return nil
			}})
		}
		yield(Case{"triples", func(e *Env) *Violation {
			var small []K
			for _, i := range []uint64{0, 256, 1 << 32, max64} {
				for _, t := range []uint8{0, 84, 200, 255} {
					for _, o := range []uint64{0, 1 << 32, max64} {
						small = append(small, K{i, t, o})
					}
				}
			}
			c := func(a, b K) bool { return btrfs.KeyCompare(ixKey(a), ixKey(b)) < 0 }
			for _, a := range small {
				for _, b := range small {
					if c(a, b) && c(b, a) || a != b && !c(a, b) && !c(b, a) {
						return viol("keys %v and %v are not strictly ordered", a, b)
					}
					for _, d := range small {
						e.r.Trans(1)
						if c(a, b) && c(b, d) && !c(a, d) {
							return viol("order is not transitive on %v %v %v", a, b, d)
						}
					}
				}
			}
			return nil
		}})
		yield(Case{"iteration-order", func(e *Env) *Violation {
			var its []It
			for _, k := range ks {
				if !lessK(K{lastFree, 255, max64}, k) {
					its = append(its, It{5, k, 7, longD("x")})
				}
			}
			p := e.Path("ix")
			writeIndex(p, 16384, its)
			ix := openRO(p, max64)
			defer ix.Close()
			want := append([]It{}, its...)
			sort.Slice(want, func(i, j int) bool { return btrfs.KeyCompare(ixKey(want[i].K), ixKey(want[j].K)) < 0 })
			rg, v := ix.Range(5, ixKey(K{}), ixKey(K{lastFree, 255, max64}))
			got, ended := walk(rg, v, len(its)+2)
			e.r.Trans(len(got))
			return cmpRange("full range in KeyCompare order", &idxModel{}, got, ended, want)
		}})
		yield(Case{"names", func(e *Env) *Violation {
			seen := map[string]interface{}{}
			for t := 0; t < 256; t++ {
				e.r.Trans(1)
				s := btrfs.KeyTypeString(uint8(t))
				if o, dup := seen[s]; dup {
					return viol("item types %v and %d both print as %q", o, t, s)
				}
				seen[s] = t
				w, named := typeNames[uint8(t)]
				if !named && (t == 244 || t == 245 || t == 247 || t == 254) {
					continue // named by newer kernels
				}
				if !named {
					w = fmt.Sprint(t)
				}
				if s != w {
					return viol("item type %d prints as %q, expected %q", t, s, w)
				}
				e.r.Outcome(s)
			}
			seen = map[string]interface{}{}
			cand := map[uint64]bool{}
			for id := range idNames {
				for d := uint64(0); d < 9; d++ {
					cand[id+d-4] = true
				}
			}
			for _, i := range ids {
				cand[i] = true
			}
			for i := uint64(0); i < 600; i++ {
				cand[i], cand[neg(i)] = true, true
			}
			for id := range cand {
				e.r.Trans(1)
				s := btrfs.ObjectIDString(id)
				if o, dup := seen[s]; dup {
					return viol("object ids %v and %d both print as %q", o, id, s)
				}
				seen[s] = id
				w, named := idNames[id]
				if !named {
					w = []string{fmt.Sprint(id)}
				}
				ok := false
				for _, x := range w {
					ok = ok || x == s
				}
				if !ok {
					return viol("object id %d prints as %q, expected %q", id, s, w)
				}
			}
			return nil
		}})
		yield(Case{"key-strings", func(e *Env) *Violation {
			seen := map[string]K{}
			for _, k := range ks {
				e.r.Trans(1)
				s := ixKey(k).String()
				if o, dup := seen[s]; dup {
					return viol("keys %v and %v both print as %q", o, k, s)
				}
				seen[s] = k
				f := strings.Fields(strings.Trim(strings.TrimPrefix(s, "key "), "()"))
				if len(f) != 3 || f[0] != btrfs.ObjectIDString(k.Obj) || f[1] != btrfs.KeyTypeString(k.Type) ||
					f[2] != fmt.Sprint(int64(k.Off)) && f[2] != fmt.Sprint(k.Off) {
					return viol("key %v prints as %q", k, s)
				}
			}
			return nil
		}})
	})
}
