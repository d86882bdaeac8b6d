// Package vsync stands in for package sync in sched mode.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/w/vsched"
)

func acq(p *bool) { vsched.RaceAcquire(unsafe.Pointer(p)) }
func rel(p *bool) { vsched.RaceReleaseMerge(unsafe.Pointer(p)) }

type Locker = sync.Locker
type Map = sync.Map
type Pool = sync.Pool

type Mutex struct {
	m    sync.Mutex
	held bool
}

func (l *Mutex) Lock() {
	if !vsched.Active() {
		l.m.Lock()
		return
	}
	vsched.Block("mutex.lock", func() bool { return !l.held })
	l.held = true
	acq(&l.held)
}

func (l *Mutex) TryLock() bool {
	if !vsched.Active() {
		return l.m.TryLock()
	}
	vsched.P("mutex.trylock")
	if l.held {
		return false
	}
	l.held = true
	acq(&l.held)
	return true
}

func (l *Mutex) Unlock() {
	if !vsched.Active() {
		l.m.Unlock()
		return
	}
	if !l.held {
		panic("sync: unlock of unlocked mutex")
	}
	rel(&l.held)
	l.held = false
	vsched.P("mutex.unlock")
}

// RWMutex follows the runtime's semantics: a waiting writer blocks new readers.
// (The runtime also admits the readers that wait at an Unlock before the next
// writer. Nobody can observe that a reader has begun to wait, so letting a writer
// go first only adds what happens when that reader begins to wait later.)
type RWMutex struct {
	m       sync.RWMutex
	readers int
	writer  bool // held by a writer
	pending bool // a writer has announced itself
}

type ticket struct{ granted bool }

func (l *RWMutex) RLock() {
	if !vsched.Active() {
		l.m.RLock()
		return
	}
	vsched.Block("rw.rlock", func() bool { return !l.writer && !l.pending })
	l.readers++
	acq(&l.writer)
}

func (l *RWMutex) RUnlock() {
	if !vsched.Active() {
		l.m.RUnlock()
		return
	}
	if l.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rel(&l.pending)
	l.readers--
	vsched.P("rw.runlock")
}

func (l *RWMutex) Lock() {
	if !vsched.Active() {
		l.m.Lock()
		return
	}
	vsched.Block("rw.lock", func() bool { return !l.writer && !l.pending })
	l.pending = true
	if l.readers > 0 {
		vsched.Block("rw.lock.wait", func() bool { return l.readers == 0 })
	}
	l.pending = false
	l.writer = true
	acq(&l.writer)
	acq(&l.pending)
}

func (l *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return l.m.TryLock()
	}
	vsched.P("rw.trylock")
	if l.writer || l.pending || l.readers > 0 {
		return false
	}
	l.writer = true
	acq(&l.writer)
	acq(&l.pending)
	return true
}

func (l *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return l.m.TryRLock()
	}
	vsched.P("rw.tryrlock")
	if l.writer || l.pending {
		return false
	}
	l.readers++
	acq(&l.writer)
	return true
}

func (l *RWMutex) Unlock() {
	if !vsched.Active() {
		l.m.Unlock()
		return
	}
	if !l.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rel(&l.writer)
	l.writer = false
	vsched.P("rw.unlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (l *RWMutex) RLocker() Locker { return (*rlocker)(l) }

type WaitGroup struct {
	w sync.WaitGroup
	n int
}

func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.w.Add(d)
		return
	}
	if d < 0 {
		vsched.RaceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsched.P("wg.add")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.w.Wait()
		return
	}
	vsched.Block("wg.wait", func() bool { return w.n == 0 })
	vsched.RaceAcquire(unsafe.Pointer(w))
}

type Once struct {
	m    Mutex
	done bool
	n    sync.Once
}

func (o *Once) Do(f func()) {
	if !vsched.Active() {
		o.n.Do(func() { o.done = true; f() })
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; o.n.Do(func() {}) }()
		f()
	}
}

type Cond struct {
	L Locker
	c *sync.Cond
	q []*ticket
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }
func (c *Cond) Wait() {
	if !vsched.Active() {
		c.c.Wait()
		return
	}
	t := &ticket{}
	c.q = append(c.q, t)
	c.L.Unlock()
	vsched.Block("cond.wait", func() bool { return t.granted })
	vsched.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	if !vsched.Active() {
		c.c.Signal()
		return
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(c))
	if len(c.q) > 0 {
		c.q[0].granted = true
		c.q = c.q[1:]
	}
	vsched.P("cond.signal")
}
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.c.Broadcast()
		return
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(c))
	for _, t := range c.q {
		t.granted = true
	}
	c.q = nil
	vsched.P("cond.broadcast")
}
