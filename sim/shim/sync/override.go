// Package sync is the simulator's stand-in for sync: waiting is decided by the
// simulator's scheduler, and the usual happens-before edges are told to the
// race detector.
package sync

import (
	orig "sync"
	"sync/atomic"
	"unsafe"

	"verifsim.local/hook"
)

const siteSync = 32761

// Mutex stands in for sync.Mutex.
type Mutex struct {
	v     int32
	epoch int
}

//go:norace
func (m *Mutex) fresh() {
	if m.epoch != hook.Epoch {
		m.epoch = hook.Epoch
		m.v = 0
	}
}

//go:norace
func (m *Mutex) Lock() {
	hook.Y(siteSync)
	m.fresh()
	for !atomic.CompareAndSwapInt32(&m.v, 0, 1) {
		if hook.Dead() {
			return
		}
		hook.Block(unsafe.Pointer(m))
	}
	hook.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	hook.Y(siteSync)
	m.fresh()
	if !atomic.CompareAndSwapInt32(&m.v, 0, 1) {
		return false
	}
	hook.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.fresh()
	if hook.Dead() {
		m.v = 0
		return
	}
	if m.v == 0 {
		panic("sync: unlock of unlocked mutex")
	}
	hook.RaceRelease(unsafe.Pointer(m))
	atomic.StoreInt32(&m.v, 0)
	hook.Wake(unsafe.Pointer(m))
	hook.Y(siteSync)
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	readers int
	writer  bool
	waiting int
	epoch   int
	mu      orig.Mutex
}

//go:norace
func (m *RWMutex) fresh() {
	if m.epoch != hook.Epoch {
		m.epoch = hook.Epoch
		m.readers, m.writer, m.waiting = 0, false, 0
	}
}

//go:norace
func (m *RWMutex) Lock() {
	hook.Y(siteSync)
	m.fresh()
	m.waiting++
	for m.writer || m.readers > 0 {
		if hook.Dead() {
			return
		}
		hook.Block(unsafe.Pointer(m))
	}
	m.waiting--
	m.writer = true
	hook.RaceAcquire(unsafe.Pointer(m))
	hook.RaceAcquire(unsafe.Pointer(&m.waiting))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.fresh()
	if hook.Dead() {
		m.writer = false
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	hook.RaceRelease(unsafe.Pointer(m))
	m.writer = false
	hook.Wake(unsafe.Pointer(m))
	hook.Y(siteSync)
}

//go:norace
func (m *RWMutex) RLock() {
	hook.Y(siteSync)
	m.fresh()
	for m.writer || m.waiting > 0 {
		if hook.Dead() {
			return
		}
		hook.Block(unsafe.Pointer(m))
	}
	m.readers++
	hook.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.fresh()
	if hook.Dead() {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	hook.RaceRelease(unsafe.Pointer(&m.waiting))
	m.readers--
	hook.Wake(unsafe.Pointer(m))
	hook.Y(siteSync)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() orig.Locker { return rlocker{m} }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n     int64
	epoch int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	hook.Y(siteSync)
	if w.epoch != hook.Epoch {
		w.epoch, w.n = hook.Epoch, 0
	}
	if d < 0 {
		hook.RaceRelease(unsafe.Pointer(w))
	}
	n := atomic.AddInt64(&w.n, int64(d))
	if n < 0 && !hook.Dead() {
		panic("sync: negative WaitGroup counter")
	}
	if n <= 0 {
		hook.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	hook.Go(func() {
		defer w.Done()
		f()
	})
}

//go:norace
func (w *WaitGroup) Wait() {
	hook.Y(siteSync)
	for w.epoch == hook.Epoch && atomic.LoadInt64(&w.n) > 0 {
		if hook.Dead() {
			return
		}
		hook.Block(unsafe.Pointer(w))
	}
	hook.RaceAcquire(unsafe.Pointer(w))
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) get() bool {
	if o.done {
		hook.RaceAcquire(unsafe.Pointer(o))
	}
	return o.done
}

//go:norace
func (o *Once) set() {
	hook.RaceRelease(unsafe.Pointer(o))
	o.done = true
}

func (o *Once) Do(f func()) {
	hook.Y(siteSync)
	if o.get() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.get() {
		return
	}
	defer o.set()
	f()
}

// Cond stands in for sync.Cond.
type Cond struct {
	L orig.Locker
	n int
}

func NewCond(l orig.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	c.L.Unlock()
	n := c.n
	for c.n == n {
		if hook.Dead() {
			break
		}
		hook.Block(unsafe.Pointer(c))
	}
	c.L.Lock()
}

// Signal may wake several waiters, which sync.Cond permits callers to expect.
func (c *Cond) Signal() { c.Broadcast() }

//go:norace
func (c *Cond) Broadcast() {
	c.n++
	hook.Wake(unsafe.Pointer(c))
	hook.Y(siteSync)
}

// Pool stands in for sync.Pool: last in first out, and the simulator decides
// when an item is forgotten.
type Pool struct {
	New   func() interface{}
	items [64]interface{}
	n     int
	epoch int
}

//go:norace
func (p *Pool) take() interface{} {
	if p.epoch != hook.Epoch {
		p.epoch, p.n = hook.Epoch, 0
	}
	if p.n == 0 {
		return nil
	}
	p.n--
	x := p.items[p.n]
	p.items[p.n] = nil
	hook.RaceAcquire(unsafe.Pointer(p))
	return x
}

func (p *Pool) Get() interface{} {
	hook.Y(siteSync)
	if x := p.take(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) put(x interface{}) {
	if p.epoch != hook.Epoch {
		p.epoch, p.n = hook.Epoch, 0
	}
	if p.n == len(p.items) || hook.Active() && hook.PoolDrop() {
		return
	}
	hook.RaceRelease(unsafe.Pointer(p))
	p.items[p.n] = x
	p.n++
}

func (p *Pool) Put(x interface{}) {
	hook.Y(siteSync)
	if x != nil {
		p.put(x)
	}
}

// OnceFunc stands in for sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var failed bool
	var val interface{}
	g := func() {
		defer func() {
			if failed {
				val = recover()
				panic(val)
			}
		}()
		failed = true
		f()
		f = nil
		failed = false
	}
	return func() {
		o.Do(g)
		if failed {
			panic(val)
		}
	}
}
