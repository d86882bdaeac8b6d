// Package vsched is a cooperative scheduler for the instrumented code: while a
// controlled run is active exactly one task runs at a time, and every
// synchronisation operation is a scheduling point at which the explorer decides
// which enabled task continues. Outside a controlled run everything behaves
// natively.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"
)

type task struct {
	id    int
	wake  chan struct{}
	cond  func() bool // nil: runnable
	done  bool
	where string
	kind  string
}

// Point describes one scheduling decision of a run.
type Point struct {
	N       int  // number of enabled tasks
	Chosen  int  // index chosen
	Forced  bool // the running task was not enabled (default switch is free)
	Kind    string
	Running int // id of the task that ran before
	Picked  int
	Ids     []int // the enabled tasks, in choice order
}

type Run struct {
	mu        sync.Mutex
	tasks     []*task
	live      []*task // the tasks that have not ended, in order of creation
	en        []*task // scratch
	cur       *task
	prefix    []int
	Points    []Point
	Deadlock  bool
	Panic     interface{}
	Stack     string
	Diverged  string
	finished  chan struct{}
	aborted   bool
	closedFin bool
	MaxPts    int
	TooLong   bool
	chans     []*chState
	nchans    int
	NTasks    int
	KindMask  func(kind string) bool // which kinds are choice points (nil: all)
	end       int
	pol       *Policy
	Steps     int
}

var active atomic.Pointer[Run]

func Active() bool { return active.Load() != nil }

// Policy changes the default choice: tasks in Low run only when nothing else
// can, the task High runs whenever it can. Ids count task creations from 0.
type Policy struct {
	Low      []int
	High     int  // 0: none
	NoPoints bool // do not record points (and do not follow a prefix)
}

// ExecPolicy is Exec under a policy.
func ExecPolicy(pol Policy, maxPts int, body func()) *Run {
	return exec(nil, maxPts, nil, &pol, body)
}

// Exec runs body as task 0 under the scheduler, following prefix and then the default choice.
func Exec(prefix []int, maxPts int, mask func(string) bool, body func()) *Run {
	return exec(prefix, maxPts, mask, nil, body)
}

func exec(prefix []int, maxPts int, mask func(string) bool, pol *Policy, body func()) *Run {
	r := &Run{pol: pol, prefix: prefix, finished: make(chan struct{}), MaxPts: maxPts, KindMask: mask}
	if !active.CompareAndSwap(nil, r) {
		panic("vsched: nested run")
	}
	t := r.newTask("main")
	r.cur = t
	go r.main(t, body)
	<-r.finished
	active.Store(nil)
	RaceAcquire(unsafe.Pointer(&r.end))
	return r
}

func (r *Run) newTask(kind string) *task {
	t := &task{id: len(r.tasks), wake: make(chan struct{}, 1), kind: kind}
	r.tasks = append(r.tasks, t)
	r.live = append(r.live, t)
	r.NTasks = len(r.tasks)
	return t
}

func (r *Run) fin() {
	if !r.closedFin {
		r.closedFin = true
		close(r.finished)
	}
}

func (r *Run) main(t *task, body func()) {
	defer func() {
		if x := recover(); x != nil {
			r.mu.Lock()
			if r.Panic == nil && !r.aborted {
				r.Panic = x
				r.Stack = string(debug.Stack())
			}
			r.aborted = true
			r.fin()
			r.mu.Unlock()
			return
		}
		RaceReleaseMerge(unsafe.Pointer(&r.end))
		raceDisable()
		defer raceEnable()
		r.mu.Lock()
		t.done = true
		if r.aborted {
			r.mu.Unlock()
			return
		}
		// pick another task
		r.switchFrom(t, "exit", false)
		r.mu.Unlock()
	}()
	body()
}

func ids(en []*task) []int {
	r := make([]int, len(en))
	for i, t := range en {
		r[i] = t.id
	}
	return r
}

// Kinds lists the tasks' origins.
func (r *Run) Kinds() []string {
	var s []string
	for _, t := range r.tasks {
		s = append(s, t.kind)
	}
	return s
}

// Live counts the tasks of the active run that have not ended.
func Live() int {
	r := active.Load()
	if r == nil {
		return 0
	}
	n := 0
	for _, t := range r.tasks {
		if !t.done {
			n++
		}
	}
	return n
}

// switchFrom (mu held) chooses the next task. When self is still to run it
// returns true if self continues.
func (r *Run) switchFrom(self *task, kind string, choice bool) bool {
	r.Steps++
	if r.Steps >= r.MaxPts && r.MaxPts > 0 {
		r.TooLong = true
		r.aborted = true
		r.fin()
		return false
	}
	if self.done {
		n := 0
		for _, t := range r.live {
			if !t.done {
				r.live[n] = t
				n++
			}
		}
		r.live = r.live[:n]
	}
	en := r.en[:0]
	selfEn := !self.done && (self.cond == nil || self.cond())
	if selfEn {
		en = append(en, self)
	}
	// canonical order: running task first, then ascending ids
	for _, t := range r.live {
		if t != self && (t.cond == nil || t.cond()) {
			en = append(en, t)
		}
	}
	r.en = en
	if len(en) == 0 {
		all := true
		for _, t := range r.tasks {
			if !t.done {
				all = false
			}
		}
		if !all {
			r.Deadlock = true
			var s []string
			for _, t := range r.tasks {
				if !t.done {
					s = append(s, fmt.Sprintf("task %d (%s) waits at %s", t.id, t.kind, t.where))
				}
			}
			r.Stack = strings.Join(s, "\n")
			r.aborted = true
		}
		r.fin()
		return false
	}
	pick := 0
	if r.pol != nil {
		pick = r.pol.pick(en)
	}
	isChoice := len(en) > 1 && (!selfEn || choice)
	if isChoice && r.KindMask != nil && !r.KindMask(kind) {
		isChoice = false
	}
	if isChoice && !(r.pol != nil && r.pol.NoPoints) {
		i := len(r.Points)
		if i < len(r.prefix) {
			pick = r.prefix[i]
			if pick >= len(en) {
				r.Diverged = fmt.Sprintf("at point %d choice %d of %d", i, pick, len(en))
				r.aborted = true
				r.fin()
				return false
			}
		}
		r.Points = append(r.Points, Point{N: len(en), Chosen: pick, Forced: !selfEn, Kind: kind, Running: self.id, Picked: en[pick].id, Ids: ids(en)})
	}
	n := en[pick]
	n.cond = nil
	r.cur = n
	if n == self {
		return true
	}
	n.wake <- struct{}{}
	return false
}

// park stops a goroutine of an aborted run for ever, without running its deferred calls.
func park() { select {} }

// yield is a scheduling point; cond (may be nil) must hold before the task continues.
func yield(kind string, cond func() bool) {
	r := active.Load()
	if r == nil {
		return
	}
	raceDisable()
	defer raceEnable()
	r.mu.Lock()
	if r.aborted {
		r.mu.Unlock()
		park() // the run is over
	}
	t := r.cur
	t.cond = cond
	if cond != nil {
		t.where = kind
	}
	if r.switchFrom(t, kind, true) {
		r.mu.Unlock()
		return
	}
	ab := r.aborted
	r.mu.Unlock()
	if ab {
		park()
	}
	<-t.wake
	r.mu.Lock()
	ab = r.aborted
	r.mu.Unlock()
	if ab {
		park()
	}
}

func (p *Policy) pick(en []*task) int {
	first := -1
	for i, t := range en {
		if p.High > 0 && t.id == p.High {
			return i
		}
		low := false
		for _, l := range p.Low {
			low = low || l == t.id
		}
		if !low && first < 0 {
			first = i
		}
	}
	if first < 0 {
		return 0
	}
	return first
}

// P is a plain scheduling point.
func P(kind string) { yield(kind, nil) }

// Block is a scheduling point that also waits for cond.
func Block(kind string, cond func() bool) { yield(kind, cond) }

func spawn(f func()) {
	r := active.Load()
	if r == nil {
		go f()
		return
	}
	raceDisable()
	r.mu.Lock()
	if r.aborted {
		r.mu.Unlock()
		park()
	}
	pc := make([]uintptr, 1)
	kind := "go"
	if runtime.Callers(4, pc) > 0 {
		fr, _ := runtime.CallersFrames(pc).Next()
		kind = fr.Function
		if i := strings.LastIndexByte(kind, '/'); i >= 0 {
			kind = kind[i+1:]
		}
	}
	t := r.newTask(kind)
	r.mu.Unlock()
	raceEnable()
	go func() {
		raceDisable()
		<-t.wake
		r.mu.Lock()
		ab := r.aborted
		r.mu.Unlock()
		raceEnable()
		if ab {
			return
		}
		r.main(t, f)
	}()
	yield("go", nil)
}

func Go0(f func())                                    { spawn(f) }
func Go1[A any](f func(A), a A)                       { spawn(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)            { spawn(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) { spawn(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	spawn(func() { f(a, b, c, d) })
}

// ---- channels: the real channel holds the buffered elements, unbuffered ones
// rendezvous through a side table ----

type chState struct {
	p       unsafe.Pointer
	senders []*slot // waiting senders on an unbuffered channel
	closed  bool
}

type slot struct {
	v     any
	taken bool
}

// state finds the side record of a channel. A plain slice with a copying growth:
// map operations and append report accesses to the race detector even from this
// package, which is otherwise built without it.
func state(p unsafe.Pointer) *chState {
	raceDisable()
	defer raceEnable()
	r := active.Load()
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := r.nchans - 1; i >= 0; i-- {
		if r.chans[i].p == p {
			return r.chans[i]
		}
	}
	s := &chState{p: p}
	if r.nchans == len(r.chans) {
		n := make([]*chState, 2*len(r.chans)+64)
		for i := range r.chans {
			n[i] = r.chans[i]
		}
		r.chans = n
	}
	r.chans[r.nchans] = s
	r.nchans++
	return s
}

// The rest of the channel operations is kept out of the generic functions, which
// are compiled with the packages that use them.

func sendUnbuf(st *chState, v any) {
	if st.closed {
		panic("send on closed channel")
	}
	sl := &slot{v: v}
	RaceReleaseMerge(unsafe.Pointer(sl))
	n := make([]*slot, len(st.senders)+1)
	for i := range st.senders {
		n[i] = st.senders[i]
	}
	n[len(st.senders)] = sl
	st.senders = n
	Block("send", func() bool { return sl.taken || st.closed })
	if !sl.taken {
		panic("send on closed channel")
	}
	RaceAcquire(unsafe.Pointer(sl))
}

func recvUnbuf(st *chState) (any, bool) {
	Block("recv", func() bool { return len(st.senders) > 0 || st.closed })
	if len(st.senders) > 0 {
		sl := st.senders[0]
		st.senders = st.senders[1:]
		sl.taken = true
		RaceAcquire(unsafe.Pointer(sl))
		RaceReleaseMerge(unsafe.Pointer(sl))
		return sl.v, true
	}
	RaceAcquire(unsafe.Pointer(st))
	return nil, false
}

// the runtime's channel header begins with the number of buffered elements and
// the capacity
func chanLen(p unsafe.Pointer) (int, int) { return *(*int)(p), *(*int)(unsafe.Add(p, 8)) }

func waitSend(st *chState) {
	Block("send", func() bool { n, c := chanLen(st.p); return n < c || st.closed })
}

func waitRecv(st *chState) {
	Block("recv", func() bool { n, _ := chanLen(st.p); return n > 0 || st.closed })
}

func closing(st *chState) {
	P("close")
	st.closed = true
	RaceReleaseMerge(unsafe.Pointer(st))
}

type Sender[T any] struct{ c chan<- T }

func To[T any](c chan<- T) Sender[T] { return Sender[T]{c} }

func (s Sender[T]) Send(v T) {
	c := s.c
	if !Active() {
		c <- v
		return
	}
	st := state(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	if cap(c) == 0 {
		sendUnbuf(st, v)
		return
	}
	waitSend(st)
	c <- v
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-c
		return v, ok
	}
	st := state(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	if cap(c) == 0 {
		v, ok := recvUnbuf(st)
		if !ok {
			var z T
			return z, false
		}
		return v.(T), true
	}
	waitRecv(st)
	v, ok := <-c
	return v, ok
}

func Close[T any](c chan<- T) {
	if !Active() {
		close(c)
		return
	}
	closing(state(*(*unsafe.Pointer)(unsafe.Pointer(&c))))
	close(c)
}
