package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"blichmann.eu/code/btrfscue/pkg/ioutil"
)

// C24: block reads.
func init() {
	register(&Prop{ID: "C24", Level: "model_checking",
		Rule: "device contents of 0..24 bytes x block lengths 0..12 x offsets 0..26 and beyond 2^40, 2^62, 2^63 x every answer a reader may give to each call " +
			"(bytes delivered 0..asked, then no error, EOF or an error); non-trivial: distinct (length, offset, answer) classes",
		Assumptions: []string{"readers obey io.ReaderAt except that a short read without an error is also tolerated (a kernel device may give one)"},
		Run:         runC24})
}

// scriptReader answers every ReadAt according to a fixed plan.
type scriptReader struct {
	data  []byte
	cap   int   // deliver at most this many bytes per call
	err   error // returned after the bytes of a call
	calls int
	bad   string
	onlyN int // err only on this call (0: all)
}

func (s *scriptReader) ReadAt(p []byte, off int64) (int, error) {
	s.calls++
	if s.calls > 100 {
		s.bad = "more than 100 reads for one block"
		return 0, errors.New("stop")
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := copy(p, s.data[off:])
	if n > s.cap {
		n = s.cap
	}
	if s.err != nil && (s.onlyN == 0 || s.onlyN == s.calls) {
		return n, s.err
	}
	if n < len(p) && off+int64(n) >= int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

func runC24(r *Runner) {
	errDev := errors.New("input/output error")
	maxDev, maxBlock := 24, 12
	if r.Thorough() {
		maxDev, maxBlock = 64, 40
	}
	r.ForEach(func(yield func(Case) bool) {
		for size := 0; size <= maxDev; size++ {
			size := size
			if !yield(Case{fmt.Sprintf("device%d", size), func(e *Env) *Violation {
				data := pat(0, uint64(size))
				var offs []int
				for o := 0; o <= maxDev+2; o++ {
					offs = append(offs, o)
				}
				offs = append(offs, 1<<40, 1<<62, -1<<63, -1, -5)
				for bl := 0; bl <= maxBlock; bl++ {
					for _, off := range offs {
						for cap := 0; cap <= bl; cap++ {
							for ei, rerr := range []error{nil, io.EOF, io.ErrUnexpectedEOF, errDev} {
								for _, onlyN := range []int{0, 1, 2} {
									if rerr == nil && onlyN > 0 {
										continue
									}
									s := &scriptReader{data: data, cap: cap, err: rerr, onlyN: onlyN}
									block := bytes.Repeat([]byte{0xAA}, bl)
									err := ioutil.ReadBlockAt(s, block, uint64(off))
									r.State(1)
									r.Trans(s.calls)
									r.Trace(1)
									r.Outcome(fmt.Sprint(bl, off+bl-size, cap, ei, onlyN))
									if s.bad != "" {
										return viol("device of %d bytes, block of %d at %d: %s", size, bl, off, s.bad)
									}
									full := off >= 0 && off+bl <= size && bytes.Equal(block, data[off:off+bl])
									desc := fmt.Sprintf("device of %d bytes, block of %d bytes at %d, reader delivers at most %d bytes per call and then %v",
										size, bl, off, cap, rerr)
									if bl == 0 {
										continue // nothing to read, either answer is right
									}
									if err == nil && !full {
										return viol("%s: success reported, but the block was not filled", desc)
									}
									// The first call delivered everything: it must succeed
									// whatever error came with it only if that was EOF or none.
									first := cap >= bl && off >= 0 && off+bl <= size
									if err != nil && first && (rerr == nil || rerr == io.EOF) {
										return viol("%s: reported %v although the whole block was read", desc, err)
									}
								}
							}
						}
					}
				}
				return nil
			}}) {
				return
			}
		}
	})
}
