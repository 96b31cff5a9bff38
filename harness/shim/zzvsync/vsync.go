// Package zzvsync replaces sync in instrumented builds, so that waiting for a
// lock is visible to the explorer.
package zzvsync

import (
	"sync"

	"blichmann.eu/code/btrfscue/internal/zzvsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Pool      = sync.Pool
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Block is called when a goroutine has to wait; it returns when it may try
// again.
var Block func()

func wait(try func() bool) {
	zzvsched.Sync()
	for !try() {
		Block()
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if Block == nil {
		m.m.Lock()
		return
	}
	wait(m.m.TryLock)
}
func (m *Mutex) TryLock() bool { zzvsched.Sync(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); zzvsched.Deep(0) }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if Block == nil {
		m.m.Lock()
		return
	}
	wait(m.m.TryLock)
}
func (m *RWMutex) RLock() {
	if Block == nil {
		m.m.RLock()
		return
	}
	wait(m.m.TryRLock)
}
func (m *RWMutex) TryLock() bool  { zzvsched.Sync(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { zzvsched.Sync(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); zzvsched.Deep(0) }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); zzvsched.Deep(0) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}
