package vsync

import (
	"fmt"
	"sync"
	"unsafe"
)

// Locker is a sync.Locker
type Locker = sync.Locker

// Pool is a sync.Pool
type Pool = sync.Pool

// Cond is a sync.Cond
type Cond = sync.Cond

// NewCond creates a Cond
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// WaitGroup is a sync.WaitGroup
type WaitGroup = sync.WaitGroup

// Mutex is a sync.Mutex
type Mutex struct {
	real sync.Mutex
	held bool // by a thread that is controlled
}

// Lock locks
func (m *Mutex) Lock() {
	if t := self(); t != nil {
		o := addr(unsafe.Pointer(m))
		t.point(Op{o, nil, Acquire})
		for m.held {
			t.block(o)
		}
		m.held = true
	}
	m.real.Lock()
}

// TryLock tries to lock
func (m *Mutex) TryLock() bool {
	if t := self(); t != nil {
		t.point(Op{addr(unsafe.Pointer(m)), nil, Try})
		if m.held || !m.real.TryLock() {
			return false
		}
		m.held = true
		return true
	}
	return m.real.TryLock()
}

// Unlock unlocks
func (m *Mutex) Unlock() {
	o := addr(unsafe.Pointer(m))
	if t := self(); t != nil {
		t.point(Op{o, nil, Release})
	}
	m.held = false
	m.real.Unlock()
	released(o)
}

// RWMutex is a sync.RWMutex
type RWMutex struct {
	real    sync.RWMutex
	readers int
	waiting int // writers
	writer  bool
}

// Lock locks
func (m *RWMutex) Lock() {
	if t := self(); t != nil {
		o := addr(unsafe.Pointer(m))
		t.point(Op{o, nil, Acquire})
		m.waiting++
		for m.writer || m.readers > 0 {
			t.block(o)
		}
		m.waiting--
		m.writer = true
	}
	m.real.Lock()
}

// TryLock tries to lock
func (m *RWMutex) TryLock() bool {
	if t := self(); t != nil {
		t.point(Op{addr(unsafe.Pointer(m)), nil, Try})
		if m.writer || m.readers > 0 || m.waiting > 0 || !m.real.TryLock() {
			return false
		}
		m.writer = true
		return true
	}
	return m.real.TryLock()
}

// Unlock unlocks
func (m *RWMutex) Unlock() {
	o := addr(unsafe.Pointer(m))
	if t := self(); t != nil {
		t.point(Op{o, nil, Release})
	}
	m.writer = false
	m.real.Unlock()
	released(o)
}

// RLock locks for reading. Readers wait for writers that are waiting
func (m *RWMutex) RLock() {
	if t := self(); t != nil {
		o := addr(unsafe.Pointer(m))
		t.point(Op{o, nil, Share})
		for m.writer || m.waiting > 0 {
			t.block(o)
		}
		m.readers++
	}
	m.real.RLock()
}

// TryRLock tries to lock for reading
func (m *RWMutex) TryRLock() bool {
	if t := self(); t != nil {
		t.point(Op{addr(unsafe.Pointer(m)), nil, Try})
		if m.writer || m.waiting > 0 || !m.real.TryRLock() {
			return false
		}
		m.readers++
		return true
	}
	return m.real.TryRLock()
}

// RUnlock unlocks
func (m *RWMutex) RUnlock() {
	o := addr(unsafe.Pointer(m))
	t := self()
	if t != nil {
		t.point(Op{o, nil, Release})
	}
	if m.readers > 0 {
		m.readers--
	}
	m.real.RUnlock()
	released(o)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is a sync.Once
type Once struct {
	m    Mutex
	done bool
}

// Do calls the function unless it has been called
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is like sync.OnceFunc
func OnceFunc(f func()) func() {
	g := OnceValue(func() bool { f(); return true })
	return func() { g() }
}

// OnceValue is like sync.OnceValue
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, bool) { return f(), true })
	return func() T { v, _ := g(); return v }
}

// OnceValues is like sync.OnceValues
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var t T
	var u U
	var p interface{}
	ok := false
	return func() (T, U) {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			t, u = f()
			ok = true
		})
		if !ok {
			panic(p)
		}
		return t, u
	}
}

// Map is a sync.Map
type Map struct {
	real sync.Map
}

func (m *Map) point(key interface{}, k Kind) *thread {
	t := self()
	if t != nil {
		t.point(Op{addr(unsafe.Pointer(m)), key, k})
	}
	return t
}

// Load loads
func (m *Map) Load(key interface{}) (interface{}, bool) {
	m.point(key, Read)
	return m.real.Load(key)
}

// Store stores
func (m *Map) Store(key, value interface{}) {
	m.point(key, Write)
	m.real.Store(key, value)
}

// LoadOrStore loads or stores
func (m *Map) LoadOrStore(key, value interface{}) (interface{}, bool) {
	t := m.point(key, Write)
	v, loaded := m.real.LoadOrStore(key, value)
	if t != nil && loaded {
		t.setKind(Read)
	}
	return v, loaded
}

// LoadAndDelete loads and deletes
func (m *Map) LoadAndDelete(key interface{}) (interface{}, bool) {
	m.point(key, Write)
	return m.real.LoadAndDelete(key)
}

// Delete deletes
func (m *Map) Delete(key interface{}) {
	m.point(key, Write)
	m.real.Delete(key)
}

// Swap swaps
func (m *Map) Swap(key, value interface{}) (interface{}, bool) {
	m.point(key, Write)
	return m.real.Swap(key, value)
}

// CompareAndSwap compares and swaps
func (m *Map) CompareAndSwap(key, o, n interface{}) bool {
	m.point(key, Write)
	return m.real.CompareAndSwap(key, o, n)
}

// CompareAndDelete compares and deletes
func (m *Map) CompareAndDelete(key, o interface{}) bool {
	m.point(key, Write)
	return m.real.CompareAndDelete(key, o)
}

// Clear clears
func (m *Map) Clear() {
	m.point(nil, Write)
	m.real.Clear()
}

// Range calls the function for all entries. Control can be handed over between the calls. The order is determined by the
// keys, so that schedules can be repeated. Entries that are added meanwhile are seen.
func (m *Map) Range(f func(key, value interface{}) bool) {
	if self() == nil {
		m.real.Range(f)
		return
	}
	seen := map[interface{}]bool{}
	for {
		m.point(nil, Read)
		var next interface{}
		name, found := ``, false
		m.real.Range(func(k, _ interface{}) bool {
			if !seen[k] {
				if n := fmt.Sprintf(`%T %v`, k, k); !found || n < name {
					next, name, found = k, n, true
				}
			}
			return true
		})
		if !found {
			return
		}
		seen[next] = true
		if v, ok := m.real.Load(next); ok && !f(next, v) {
			return
		}
	}
}
