// Package vsync stands in for package sync in code run under vsched.
package vsync

import (
	"sync"

	"verif/shim/vsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
)

func yield() {
	if !vsched.InBubble() {
		vsched.Yield()
	}
}

func block(obj any) {
	if vsched.InBubble() {
		vsched.BBlock(obj)
		return
	}
	vsched.Block(obj)
}

func unblock(obj any) {
	if vsched.InBubble() {
		vsched.BUnblock(obj)
		return
	}
	vsched.Unblock(obj)
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	yield()
	for !m.m.TryLock() {
		block(m)
	}
}

func (m *Mutex) TryLock() bool {
	yield()
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	yield()
	m.m.Unlock()
	unblock(m)
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	yield()
	for !m.m.TryLock() {
		block(m)
	}
}

func (m *RWMutex) TryLock() bool {
	yield()
	return m.m.TryLock()
}

func (m *RWMutex) Unlock() {
	yield()
	m.m.Unlock()
	unblock(m)
}

func (m *RWMutex) RLock() {
	yield()
	for !m.m.TryRLock() {
		block(m)
	}
}

func (m *RWMutex) TryRLock() bool {
	yield()
	return m.m.TryRLock()
}

func (m *RWMutex) RUnlock() {
	yield()
	m.m.RUnlock()
	unblock(m)
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
