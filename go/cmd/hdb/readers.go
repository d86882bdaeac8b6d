package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vsched"
	"verif.local/w/vsync"
	"verif.local/w/vw"
)

// Long keys of the block that is written back, over several shards.
var readKeys = []string{"reader-key-0", "reader-key-1", "reader-key-2", "reader-key-3", "reader-key-4", "reader-key-5"}

// the block: overwritten, deleted, untouched, created, deleted, overwritten
var readOld = []string{"a0", "a1", "a2", "", "a4", "a5"}
var readNew = []string{"b0", "", "a2", "b3", "", "b5"}

func fillTx(tx *rabbit.RabbitStore, was, is []string) {
	for i, k := range readKeys {
		switch {
		case is[i] == was[i]:
		case is[i] == "":
			tx.Delete([]byte(k))
		default:
			tx.Set([]byte(k), []byte(is[i]))
		}
	}
}

func cacheable(mode int) func(k []byte) bool {
	switch mode {
	case 1:
		return func(k []byte) bool { return true }
	case 2:
		return func(k []byte) bool { return k[0]&1 == 1 }
	}
	return nil
}

// readBase is a database with the old values committed at height 1.
func readBase(hist bool) *vw.World {
	return dbx.Image(fmt.Sprintf("readbase%v", hist), func() *vw.World {
		db := dbx.Fresh(hist)
		root := store.NewRootStore(db.A, nil)
		root.SetHeight(1)
		t := root.GetTrunkStore(10).(*store.TrunkStore)
		tx := rabbit.NewRabbitStore(t)
		fillTx(&tx, make([]string, len(readKeys)), readOld)
		tx.Close()
		tx.WriteBack()
		t.Close(true)
		w := db.W.Clone()
		db.Done()
		return w
	})
}

type renv struct {
	root  *store.RootStore
	trunk *store.TrunkStore
	wrote bool
	seen  []string
}

// A reader opens a store, reads in the given order and closes it.
type reader struct {
	via   string // root, trunk, tx, raw, height
	order []int
	pause int // scheduling points with the store open between the two halves
}

func values(v []string) string { return strings.Join(v, "|") }

func (e *senv) read(r *renv, rd reader) {
	got := make([]string, len(readKeys))
	copy(got, readOld)
	newv := make([]string, len(readKeys))
	copy(newv, readOld)
	for _, i := range rd.order {
		newv[i] = readNew[i]
	}
	full := func(i int, v []byte) { got[i] = string(v) }
	var get func(k []byte) []byte
	var done func()
	switch rd.via {
	case "raw":
		r.root.RLock()
		get = func(k []byte) []byte { return rawRabbit(r.root, k) }
		done = r.root.RUnlock
	case "root":
		s := rabbit.NewReadOnlyRabbitStore(r.root)
		get, done = s.Get, s.Close
	case "height":
		s := rabbit.NewReadOnlyRabbitStoreAtHeight(r.root, 1)
		get, done = s.Get, s.Close
	case "trunk":
		t := r.root.GetReadOnlyTrunkStore(4).(*store.TrunkStore)
		s := rabbit.NewReadOnlyRabbitStore(t)
		get, done = s.Get, func() { s.Close(); t.Close(false) }
	case "tx": // a transaction that writes but is dropped
		t := r.root.GetTrunkStore(4).(*store.TrunkStore)
		s := rabbit.NewRabbitStore(t)
		s.Set([]byte("reader-own"), []byte("x"))
		s.Delete([]byte(readKeys[rd.order[0]]))
		got[rd.order[0]], newv[rd.order[0]] = "", ""
		old := rd.order
		rd.order = old[1:]
		get, done = s.Get, func() { s.Close(); t.Close(false) }
	}
	want := make([]string, len(readKeys))
	copy(want, readOld)
	if rd.via == "tx" {
		want = append([]string(nil), got...)
	}
	if rd.via == "height" {
		newv = want
	}
	for n, i := range rd.order {
		if n == len(rd.order)/2 {
			for p := 0; p < rd.pause; p++ {
				vsched.P("reader.pause")
			}
		}
		full(i, get([]byte(readKeys[i])))
	}
	g := values(got)
	switch {
	case g != values(want) && g != values(newv):
		e.bad = fmt.Sprintf("a store opened with %s saw %q, neither the state before the block %q nor after it %q", rd.via, got, want, newv)
	case g == values(want) && values(want) != values(newv) && r.wrote:
		e.bad = fmt.Sprintf("the write-back ended while a store opened with %s on the state before it was open", rd.via)
	}
	done()
}

// rawRabbit reads through the root store the slot that the rabbit path names.
func rawRabbit(root *store.RootStore, k []byte) []byte {
	s := rabbit.NewReadOnlyRabbitStore(noLock{root})
	defer s.Close()
	return s.Get(k)
}

// noLock is the store under a lock the caller already holds.
type noLock struct{ types.BaseStoreI }

func (noLock) RLock()   {}
func (noLock) RUnlock() {}

func readScenario(name string, mode int, hist bool, write string, readers []reader) scenario {
	var cur *renv
	prep := func() *senv {
		db := dbx.Open(readBase(hist).Clone(), hist)
		e := &senv{db: db, w: db.W}
		e.drop = append(e.drop, func() { db.W.Drop() })
		r := &renv{root: store.NewRootStore(db.A, cacheable(mode))}
		cur = r
		r.root.SetHeight(2)
		r.trunk = r.root.GetTrunkStore(10).(*store.TrunkStore)
		tx := rabbit.NewRabbitStore(r.trunk)
		fillTx(&tx, readOld, readNew)
		tx.Close()
		tx.WriteBack()
		return e
	}
	body := func(e *senv) {
		r := cur
		var wg vsync.WaitGroup
		wg.Add(1 + len(readers))
		for _, rd := range readers {
			rd := rd
			vsched.Go0(func() { e.read(r, rd); wg.Done() })
		}
		vsched.Go0(func() {
			switch write {
			case "close":
				r.trunk.Close(true)
			case "writeback":
				r.trunk.WriteBack()
			case "update": // the same data written to the root store directly
				m := r.trunk.GetCacheContent()
				ks := make([]string, 0, len(m))
				for k := range m {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				r.root.Update(func(db types.SetDeleter) {
					for _, k := range ks {
						if m[k] == "" {
							db.Delete([]byte(k))
						} else {
							db.Set([]byte(k), []byte(m[k]))
						}
					}
				})
			}
			r.wrote = true
			wg.Done()
		})
		wg.Wait()
		// every lock is free again and the state is the new one
		s := rabbit.NewReadOnlyRabbitStore(r.root)
		for i, k := range readKeys {
			if v := string(s.Get([]byte(k))); v != readNew[i] && e.bad == "" {
				e.bad = fmt.Sprintf("after the block %q reads %q", k, v)
			}
		}
		s.Close()
		r.root.Lock()
		r.root.Unlock()
		e.out = fmt.Sprintf("root %x", e.db.A.GetRootHash())
	}
	return scenario{name: name, cpus: 1, prep: prep, body: body, last: len(readers) + 1}
}

// own: transactions of the block itself are still open when the block's
// write-back is called; it must wait for them.
func ownScenario(n, reads int) scenario {
	var cur *renv
	return scenario{name: fmt.Sprintf("own transactions %d", n), cpus: 1, last: n,
		prep: func() *senv {
			db := dbx.Open(readBase(false).Clone(), false)
			e := &senv{db: db, w: db.W}
			e.drop = append(e.drop, func() { db.W.Drop() })
			r := &renv{root: store.NewRootStore(db.A, cacheable(2))}
			cur = r
			r.root.SetHeight(2)
			r.trunk = r.root.GetTrunkStore(10).(*store.TrunkStore)
			tx := rabbit.NewRabbitStore(r.trunk)
			fillTx(&tx, readOld, readNew)
			tx.Close()
			tx.WriteBack()
			return e
		},
		body: func(e *senv) {
			r := cur
			var wg vsync.WaitGroup
			open := 0
			for i := 0; i < n; i++ {
				i := i
				s := rabbit.NewRabbitStore(r.trunk)
				open++
				wg.Add(1)
				vsched.Go0(func() {
					for d := 0; d < reads; d++ {
						j := (d + i*3) % len(readKeys)
						if v := string(s.Get([]byte(readKeys[j]))); v != readNew[j] {
							e.bad = fmt.Sprintf("a transaction of the block saw %q=%q, the block has %q", readKeys[j], v, readNew[j])
						}
						if d == 1 {
							s.Set([]byte(fmt.Sprintf("dropped-%d", i)), []byte("x"))
						}
					}
					open--
					s.Close()
					wg.Done()
				})
			}
			r.trunk.Close(true)
			if open != 0 {
				e.bad = "the write-back ended while a transaction of the block was open"
			}
			wg.Wait()
			s := rabbit.NewReadOnlyRabbitStore(r.root)
			for i, k := range readKeys {
				if v := string(s.Get([]byte(k))); v != readNew[i] && e.bad == "" {
					e.bad = fmt.Sprintf("after the block %q reads %q", k, v)
				}
			}
			for i := 0; i < n; i++ {
				if s.Has([]byte(fmt.Sprintf("dropped-%d", i))) && e.bad == "" {
					e.bad = "a dropped transaction was committed"
				}
			}
			s.Close()
			r.root.Lock()
			r.root.Unlock()
			e.out = fmt.Sprintf("root %x", e.db.A.GetRootHash())
		}}
}

func readScenarios(thorough bool) []scenario {
	a, b := []int{0, 3, 4}, []int{5, 1, 3}
	if thorough {
		a, b = []int{0, 1, 2, 3, 4, 5}, []int{5, 3, 1, 4, 2, 0}
	}
	var r []scenario
	for _, x := range []struct {
		n     string
		mode  int
		hist  bool
		write string
		rd    []reader
	}{
		{"one root reader", 0, false, "close", []reader{{"root", a, 2}}},
		{"one trunk reader, cached", 1, false, "close", []reader{{"trunk", b, 2}}},
		{"one dropped transaction, half cached", 2, false, "writeback", []reader{{"tx", a, 1}}},
		{"one raw reader, update", 2, false, "update", []reader{{"raw", b, 1}}},
		{"one height reader", 0, true, "close", []reader{{"height", a, 1}}},
		{"two readers, root and trunk", 2, false, "close", []reader{{"root", []int{0, 3}, 0}, {"trunk", []int{5, 1}, 1}}},
		{"two readers, root and transaction, update", 1, false, "update", []reader{{"root", []int{3, 4}, 0}, {"tx", []int{2, 5, 1}, 0}}},
	} {
		r = append(r, readScenario(x.n, x.mode, x.hist, x.write, x.rd))
	}
	if thorough {
		return append(r, ownScenario(1, 6), ownScenario(2, 6))
	}
	return append(r, ownScenario(1, 4), ownScenario(2, 2))
}

// sessions runs every sequence of n uses of the stores, one after the other, on a new
// database whose first block has the given height. After each use the lock must be
// free, the next user must get it, and a reader must see the last write.
var sessionKinds = []string{"root idle", "root", "height idle", "trunk idle", "trunk", "trunk, tx idle", "tx dropped", "tx read", "block dropped", "block", "empty block", "written back and closed", "update", "empty update"}

func sessions(c *hx.Ctx, n int, first int64, part, parts int) {
	ref := "same"
	idx := make([]int, n)
	k := 0
	for {
		k++
		if k%parts == part {
			var names []string
			for _, i := range idx {
				names = append(names, sessionKinds[i])
			}
			sc := scenario{name: fmt.Sprintf("sessions %q from height %d", names, first), cpus: 1,
				prep: func() *senv {
					db := dbx.Fresh(true)
					e := &senv{db: db, w: db.W}
					e.drop = append(e.drop, func() { db.W.Drop() })
					return e
				},
				body: func(e *senv) { e.sessions(names, first); e.out = "same" }}
			if sc.one(c, nil, &ref) == nil || c.TimeUp() {
				return
			}
			c.Eval("sessions", names, first)
		}
		i := n - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(sessionKinds) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func (e *senv) sessions(names []string, h int64) {
	root := store.NewRootStore(e.db.A, cacheable(2))
	last := ""
	key := []byte("session-key")
	expect := func(where, got string) {
		if got != last && e.bad == "" {
			e.bad = fmt.Sprintf("%s: %q was read, %q was written last", where, got, last)
		}
	}
	for n, name := range names {
		next := fmt.Sprint("v", n)
		root.SetHeight(h)
		trunk := func() *store.TrunkStore { return root.GetTrunkStore(4).(*store.TrunkStore) }
		set := func(t *store.TrunkStore) {
			tx := rabbit.NewRabbitStore(t)
			tx.Set(key, []byte(next))
			tx.Close()
			tx.WriteBack()
		}
		wrote := false
		switch name {
		case "root", "root idle":
			s := rabbit.NewReadOnlyRabbitStore(root)
			if name == "root" {
				expect(name, string(s.Get(key)))
			}
			s.Close()
		case "height idle":
			s := rabbit.NewReadOnlyRabbitStoreAtHeight(root, uint64(h))
			s.Close()
		case "trunk", "trunk idle", "trunk, tx idle":
			t := root.GetReadOnlyTrunkStore(4).(*store.TrunkStore)
			if name != "trunk idle" {
				s := rabbit.NewReadOnlyRabbitStore(t)
				if name == "trunk" {
					expect(name, string(s.Get(key)))
				}
				s.Close()
			}
			t.Close(false)
		case "tx dropped", "tx read":
			t := trunk()
			s := rabbit.NewRabbitStore(t)
			if name == "tx read" {
				expect(name, string(s.Get(key)))
			} else {
				s.Set(key, []byte("dropped"))
			}
			s.Close()
			t.Close(false)
		case "block dropped":
			t := trunk()
			set(t)
			t.Close(false)
		case "block", "empty block", "written back and closed":
			t := trunk()
			if name != "empty block" {
				set(t)
				last = next
			}
			if name == "written back and closed" {
				t.WriteBack()
				t.Close(false)
			} else {
				t.Close(true)
			}
			wrote = true
		case "update":
			t := trunk()
			set(t)
			m := t.GetCacheContent()
			t.Close(false)
			for k := range m {
				root.PrepareForUpdate([]byte(k))
			}
			root.Update(func(db types.SetDeleter) {
				for k, v := range m {
					db.Set([]byte(k), []byte(v))
				}
			})
			last, wrote = next, true
		case "empty update":
			root.Update(func(db types.SetDeleter) {})
			wrote = true
		}
		root.Lock()
		root.Unlock()
		s := rabbit.NewReadOnlyRabbitStore(root)
		expect("after "+name, string(s.Get(key)))
		s.Close()
		if wrote {
			h++
		}
	}
}

// readerDev takes the deviations that switch to the main task, a reader or the
// writer, which are the tasks up to last, not to one of the commit's own workers.
func readerDev(last int) devRule {
	return func(p vsched.Point, alt int, kinds []string) bool { return p.Ids[alt] <= last }
}

func c19Items(thorough bool) []hx.Item {
	var its []hx.Item
	two := map[string]bool{"one root reader": true, "own transactions 1": true}
	for _, sc := range readScenarios(thorough) {
		sc := sc
		bound, parts := 2, 16
		if !thorough && !two[sc.name] {
			bound, parts = 1, 2
		}
		for p := 0; p < parts; p++ {
			p := p
			its = append(its, hx.Item{Name: fmt.Sprintf("%s bound %d %d/%d", sc.name, bound, p, parts), Run: func(c *hx.Ctx) { sc.explore(c, bound, p, parts, readerDev(sc.last)) }})
		}
		if thorough {
			for p := 0; p < 64; p++ {
				p := p
				its = append(its, hx.Item{Name: fmt.Sprintf("%s bound 3 %d/64", sc.name, p), Run: func(c *hx.Ctx) { sc.explore(c, 3, p, 64, readerDev(sc.last)) }})
			}
		}
		its = append(its, hx.Item{Name: sc.name + " policies", Run: func(c *hx.Ctx) { sc.policies(c, 0, 1, sc.policyPick(thorough)) }})
	}
	for h := int64(0); h < 2; h++ {
		h := h
		n, parts := 3, 8
		if thorough {
			n, parts = 4, 64
		}
		for p := 0; p < parts; p++ {
			p := p
			its = append(its, hx.Item{Name: fmt.Sprintf("sessions %d from height %d %d/%d", n, h, p, parts), Run: func(c *hx.Ctx) { sessions(c, n, h, p, parts) }})
		}
	}
	for i, sc := range readScenarios(false) {
		if i%2 == 0 || thorough {
			its = append(its, raceItem("C19-race", i, sc.name))
		}
	}
	return its
}

func init() {
	hx.Register(&hx.Check{ID: "C19", Level: "model_checking",
		Rule: "Real code under a cooperative scheduler: one task writes a block back (TrunkStore.Close(true), TrunkStore.WriteBack or RootStore.Update), one or two tasks open a store (rabbit store on the root store, on a read-only trunk store, at a height, a writing transaction that is dropped, or the root's own read lock), read keys of several shards that the block overwrites, deletes, creates or leaves, and close it; also transactions of the block itself that are open when its write-back is called; and every sequence of 3 (thorough 4) uses of the stores out of 14 kinds, one after the other, from a first block of height 0 or 1. " +
			"Every schedule with at most 2 deviations from the default one (quick: 2 in two scenarios, 1 in the others; thorough: 3) in which control is given to a reader, the writer or the main task at a synchronisation point, and every schedule in which one task runs last, first, or one last and another first. " +
			"In each: no deadlock, no panic, every reader's values are all old or all new, no store with old values is open when the write-back returns, afterwards the locks are free, the new state is read and the root is the same. Under the race detector the default and the priority schedules have no data race.",
		Assumptions: []string{
			"scheduling points are the synchronisation operations; between them the absence of data races (race detector, same schedules) makes the code atomic",
			"commit workers are switched among each other only in the default order and by the priority schedules (C18 explores those)",
			"job channels of capacity 2 (constant substitution), one hashing worker"},
		Items: c19Items})
	hx.Register(&hx.Check{ID: "C19-race", Level: "model_checking", Rule: "race detector build", Items: func(thorough bool) []hx.Item {
		var its []hx.Item
		for _, sc := range readScenarios(false) {
			sc := sc
			its = append(its, hx.Item{Name: sc.name, Run: func(c *hx.Ctx) {
				sc.policies(c, 0, 1, func(kind string, nth int) (bool, bool) { return nth < 3, false })
			}})
		}
		return its
	}})
}
