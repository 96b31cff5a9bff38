// Package zzvsched lets the explorer decide which goroutine runs next.
package zzvsched

// Hook is called before every statement of instrumented code (kinds 0 and 1)
// and around every use of a lock (kind 2). Statements are numbered.
var Hook func(kind, id int)

// Point is a place where the explorer may switch to another goroutine.
func Point(id int) {
	if h := Hook; h != nil {
		h(0, id)
	}
}

// Deep is a place in code that is called by the code with points.
func Deep(id int) {
	if h := Hook; h != nil {
		h(1, id)
	}
}

// Sync is a place where locks are taken or released.
func Sync() {
	if h := Hook; h != nil {
		h(2, 0)
	}
}
