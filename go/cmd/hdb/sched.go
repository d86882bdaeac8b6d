package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	moeingads "github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/types"
	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vruntime"
	"verif.local/w/vsched"
	"verif.local/w/vsync"
	"verif.local/w/vw"
)

// A scenario runs real concurrent code under the cooperative scheduler. prep
// builds a machine natively, body is what is scheduled; it returns what must
// not depend on the schedule.
type scenario struct {
	name string
	prep func() *senv
	body func(e *senv)
	// post runs natively after the schedule and returns the observable result.
	post func(e *senv) string
	cpus int
	last int // C19: the last task that is a reader or the writer
}

type senv struct {
	db    *dbx.DB
	w     *vw.World
	m     *dbx.Model
	out   string // set by the body: what the caller sees when the call returns
	dig   string // set by the body: the files at that moment
	bad   string // set by the body: a violated condition
	drop  []func()
	blk   dbx.Block
	root  *store.RootStore
	trunk *store.TrunkStore
}

func (e *senv) done() {
	for _, f := range e.drop {
		f()
	}
}

const schedMax = 4000000

// points at which a deviation is tried
type devRule func(p vsched.Point, alt int, kinds []string) bool

func anyDev(vsched.Point, int, []string) bool { return true }

// one runs the scenario along a choice prefix.
func (sc scenario) one(c *hx.Ctx, prefix []int, ref *string) *vsched.Run {
	return sc.run(c, prefix, nil, ref)
}

func (sc scenario) run(c *hx.Ctx, prefix []int, pol *vsched.Policy, ref *string) *vsched.Run {
	if sc.cpus > 0 {
		vruntime.CPUs = sc.cpus
		defer func() { vruntime.CPUs = 0 }()
	}
	e := sc.prep()
	defer e.done()
	desc := func(r *vsched.Run) string {
		s := sc.name + fmt.Sprintf(" choices %v", prefix)
		if pol != nil {
			s = sc.name + fmt.Sprintf(" policy: task %d always runs when it can, tasks %v only when nothing else can", pol.High, pol.Low)
		}
		if r != nil {
			for i, p := range r.Points {
				if p.Chosen != 0 && i < 2000 {
					s += fmt.Sprintf("\npoint %d (%s): task %d -> task %d", i, p.Kind, p.Running, p.Picked)
				}
			}
			s += "\ntasks: " + strings.Join(r.Kinds(), ", ")
		}
		return s
	}
	c.Trace(desc(nil))
	var r *vsched.Run
	if pol != nil {
		r = vsched.ExecPolicy(*pol, schedMax, func() { sc.body(e) })
	} else {
		r = vsched.Exec(prefix, schedMax, nil, func() { sc.body(e) })
	}
	switch {
	case r.Diverged != "":
		c.Note("a schedule did not replay: " + r.Diverged)
		c.Add("diverged", 1)
		return nil
	case r.TooLong:
		c.Note("a schedule was longer than the limit")
		c.Add("too_long", 1)
		return nil
	case r.Deadlock:
		c.Fail(desc(r)+"\n"+r.Stack, "%s: deadlock: %s", sc.name, r.Stack)
	case r.Panic != nil:
		c.Fail(desc(r)+"\n"+r.Stack, "%s: panic under a schedule: %v", sc.name, r.Panic)
	}
	if e.bad != "" {
		c.Fail(desc(r), "%s: %s", sc.name, e.bad)
	}
	out := e.out
	if sc.post != nil {
		out += sc.post(e)
	}
	if i := strings.Index(out, "MODEL "); i >= 0 {
		c.Fail(desc(r), "%s: %s", sc.name, strings.SplitN(out[i+6:], "\n", 2)[0])
	}
	if *ref == "" {
		*ref = out
	} else if out != *ref {
		c.Fail(desc(r), "%s: the result depends on the schedule: %s", sc.name, dbx.FirstDiff(*ref, out))
	}
	c.Add("schedules", 1)
	c.Add("transitions", int64(r.Steps))
	return r
}

func choices(r *vsched.Run, i, alt int) []int {
	p := make([]int, i+1)
	for k := 0; k < i; k++ {
		p[k] = r.Points[k].Chosen
	}
	p[i] = alt
	return p
}

// A polPick tells for the nth task of a kind whether it is made the last and the
// first to run, and whether it is made the first while another one is the last.
type polPick func(kind string, nth int) (alone, pairs bool)

// policies runs the scenario with each picked task as the last and as the first
// to run, with each two neighbours as the last, and with each picked pair of one
// last and one first task.
func (sc scenario) policies(c *hx.Ctx, part, parts int, pick polPick) {
	ref := ""
	r := sc.run(c, nil, &vsched.Policy{NoPoints: true}, &ref)
	if r == nil {
		return
	}
	var sel, pair []int
	nth := map[string]int{}
	for i, k := range r.Kinds() {
		a, p := pick(k, nth[k])
		nth[k]++
		if a {
			sel = append(sel, i)
		}
		if p {
			pair = append(pair, i)
		}
	}
	k := 0
	try := func(p vsched.Policy) {
		k++
		if k%parts != part || c.TimeUp() {
			return
		}
		p.NoPoints = true
		sc.run(c, nil, &p, &ref)
		c.Add("policies", 1)
	}
	for _, i := range sel {
		try(vsched.Policy{Low: []int{i}})
		if i > 0 {
			try(vsched.Policy{High: i})
		}
		try(vsched.Policy{Low: []int{i, i + 1}})
	}
	for _, i := range pair {
		for _, j := range pair {
			if i != j && j > 0 {
				try(vsched.Policy{Low: []int{i}, High: j})
			}
		}
	}
	c.Eval(sc.name, "policies", ref)
}

// policyPick: every task alone, and pairs of the first two of every kind (hashing
// workers come in dozens of like phases: quick takes the first four and every 16th).
func (sc scenario) policyPick(thorough bool) polPick {
	return func(kind string, nth int) (bool, bool) {
		if thorough {
			return true, nth < 4
		}
		return nth < 4 || nth%16 == 0 || !hashTask(kind) && sc.name != "reopen", nth < 2
	}
}

// explore runs every schedule with at most bound deviations from the default
// one; first-level deviations are dealt out to parts items.
func (sc scenario) explore(c *hx.Ctx, bound, part, parts int, rule devRule) {
	ref := ""
	n := 0
	var rec func(prefix []int, dev int)
	rec = func(prefix []int, dev int) {
		if c.TimeUp() {
			return
		}
		r := sc.one(c, prefix, &ref)
		if r == nil || dev == bound {
			return
		}
		kinds := r.Kinds()
		for i := len(prefix); i < len(r.Points); i++ {
			for alt := 1; alt < r.Points[i].N; alt++ {
				if !rule(r.Points[i], alt, kinds) {
					continue
				}
				if dev == 0 {
					n++
					if n%parts != part {
						continue
					}
				}
				rec(choices(r, i, alt), dev+1)
			}
		}
		if dev == 0 && part == 0 {
			c.Add("default_points", int64(len(r.Points)))
			c.Add("first_deviations", int64(n))
			c.Sample(fmt.Sprintf("%s: %d tasks, %d scheduling points with a choice, %d first deviations", sc.name, r.NTasks, len(r.Points), n))
		}
	}
	rec(nil, 0)
	c.Eval(sc.name, ref)
}

// unsynced returns the files whose last data event in the log was not followed
// by a sync, and writes to the key-value store that were not synchronous.
func unsynced(log []vw.Event) string {
	dirty := map[string]bool{}
	kv := false
	for _, ev := range log {
		switch ev.Kind {
		case vw.EvWrite:
			dirty[ev.Path] = true
		case vw.EvSync:
			delete(dirty, ev.Path)
		case vw.EvRemove:
			delete(dirty, ev.Path)
		case vw.EvKV:
			kv = !ev.Sync
		}
	}
	var s []string
	for p := range dirty {
		s = append(s, p)
	}
	sort.Strings(s)
	if kv {
		s = append(s, "key-value store")
	}
	return strings.Join(s, ", ")
}

func schedKeys() []string {
	return []string{
		kk(0x48, 0, 0, 0, 0, 0, 0, 0x01), kk(0x49, 0, 0, 0, 0, 0, 0, 0x02), kk(0x4a, 0, 0, 0, 0, 0, 0, 0x21),
		kk(0x4b, 0, 0, 0, 0, 0, 0, 0x03), kk(0x90, 0, 0, 0, 0, 0, 0, 0x41), kk(0x91, 0, 0, 0, 0, 0, 0, 0x22), kk(0xd0, 0, 0, 0, 0, 0, 0, 0xe1),
	}
}

// schedBase is a database with keys 0,2,4,6 live.
func schedBase() (*vw.World, *dbx.Model) {
	m := dbx.NewModel()
	b := dbx.Block{H: 1}
	ks := schedKeys()
	for i := 0; i < len(ks); i += 2 {
		b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: ks[i], Val: fmt.Sprintf("base%d", i)})
	}
	m.Apply(b)
	w := dbx.Image("schedbase", func() *vw.World {
		db := dbx.Fresh(false)
		db.Run(b)
		w := db.W.Clone()
		db.Done()
		return w
	})
	return w, m
}

func envOf(w *vw.World, m *dbx.Model) *senv {
	db := dbx.Open(w.Clone(), false)
	e := &senv{db: db, w: db.W, m: m}
	e.drop = append(e.drop, func() { db.W.Drop() })
	return e
}

func inPar(fs []func()) {
	var wg vsync.WaitGroup
	wg.Add(len(fs))
	for i := range fs {
		f := fs[i]
		vsched.Go0(func() { f(); wg.Done() })
	}
	wg.Wait()
}

func finishBlock(e *senv, b dbx.Block, uni []string) {
	e.w.StartLog()
	e.db.Write(b)
	log := e.w.StopLog()
	if u := unsynced(log); u != "" {
		e.bad = "not durable when EndWrite returns: " + u
	}
	e.dig = e.w.Digest()
	e.out = e.db.State(uni) // what the caller sees as soon as the call has returned
	e.m.Apply(b)
}

func blockPost(uni []string) func(e *senv) string {
	return func(e *senv) string {
		if d := e.w.Digest(); d != e.dig {
			return "MODEL the files changed after the call returned"
		}
		s := e.db.State(uni)
		if e.out != "" && s != e.out {
			return "MODEL the state changed after the call returned: " + dbx.FirstDiff(e.out, s)
		}
		s += "files " + e.dig
		if d := e.db.DiffMap(e.m, uni); d != "" {
			s += "\nMODEL " + d
		}
		if d := e.db.DiffChain(e.m); d != "" {
			s += "\nMODEL " + d
		}
		return s + e.db.Proofs(e.m.Live())
	}
}

func schedScenarios() []scenario {
	ks := schedKeys()
	blk := dbx.Block{H: 2, Ops: []dbx.Op{
		{Kind: dbx.Set, Key: ks[1], Val: "n1"}, {Kind: dbx.Del, Key: ks[2]}, {Kind: dbx.Set, Key: ks[3], Val: "n3"},
		{Kind: dbx.Set, Key: ks[4], Val: "n4"}, {Kind: dbx.Del, Key: ks[5]}, {Kind: dbx.Del, Key: ks[6]},
	}}
	base := func() *senv { w, m := schedBase(); return envOf(w, m.Clone()) }
	var r []scenario
	r = append(r, scenario{name: "prepare", cpus: 1, prep: base,
		body: func(e *senv) {
			var fs []func()
			for _, o := range blk.Ops {
				o := o
				fs = append(fs, func() { e.db.Prepare([]dbx.Op{o}) })
			}
			inPar(fs)
		},
		post: func(e *senv) string {
			e.db.Write(blk)
			e.m.Apply(blk)
			e.dig = e.w.Digest()
			return blockPost(ks)(e)
		}})
	r = append(r, scenario{name: "commit", cpus: 2,
		prep: func() *senv { e := base(); e.db.Prepare(blk.Ops); return e },
		body: func(e *senv) { finishBlock(e, blk, ks) },
		post: blockPost(ks)})
	r = append(r, scenario{name: "reopen", cpus: 2,
		prep: func() *senv {
			w, m := schedBase()
			n := w.Clone()
			return &senv{w: n, m: m.Clone(), drop: []func(){n.Drop}}
		},
		body: func(e *senv) {
			a, err := moeingads.NewMoeingADS(e.w.Root, false, dbx.Guards())
			if err != nil {
				panic(err)
			}
			e.db = &dbx.DB{W: e.w, A: a}
			e.dig = e.w.Digest()
			e.out = e.db.State(ks)
		},
		post: blockPost(ks)})
	return r
}

// bordering is a database with history in which three shards are two records before
// the end of a twig, with a block that crosses that border in each of them.
func bordering() func() *senv {
	shards := []int{1, 2, 4}
	const per = 16
	key := func(s, i int) string {
		return kk(byte(0x30+i*9+s), 0, 0, 0, 0, 0, byte(i), byte(s*32+i))
	}
	var img *vw.World
	var mod *dbx.Model
	find := func() {
		db, m := dbx.Fresh(true), dbx.NewModel()
		run := func(n map[int]int) {
			b := dbx.Block{H: m.H + 1}
			for _, s := range shards {
				for i := 0; i < n[s]; i++ {
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: key(s, i), Val: fmt.Sprint("b", b.H, s, i)})
				}
			}
			db.Run(b)
			m.Apply(b)
		}
		sn := func(s int) (r int64) {
			for i := 0; i < per; i++ {
				if e := db.A.GetEntry([]byte(key(s, i))); e != nil && e.SerialNum > r {
					r = e.SerialNum
				}
			}
			return
		}
		run(map[int]int{1: per, 2: per, 4: per})
		for k := 0; k < 400; k++ {
			n, more := map[int]int{}, false
			for _, s := range shards {
				if left := 4093 - sn(s); left > per {
					n[s], more = per, true
				} else if left > 0 {
					n[s], more = int(left), true
				}
			}
			if !more {
				break
			}
			run(n)
		}
		img, mod = db.W.Clone(), m
		db.Done()
	}
	return func() *senv {
		if img == nil {
			find()
		}
		db := dbx.Open(img.Clone(), true)
		e := &senv{db: db, w: db.W, m: mod.Clone()}
		e.drop = append(e.drop, func() { db.W.Drop() })
		e.blk.H = e.m.H + 1
		for _, s := range shards {
			e.blk.Ops = append(e.blk.Ops, dbx.Op{Kind: dbx.Del, Key: key(s, 3)})
			for i := 4; i < 8; i++ {
				e.blk.Ops = append(e.blk.Ops, dbx.Op{Kind: dbx.Set, Key: key(s, i), Val: "cross"})
			}
		}
		return e
	}
}

// compacting finds, from block from on, the first block of the fill in which
// at least min entries are moved, runs as much of that block as moves nothing, and
// returns that machine together with a small block that then moves them.
func compacting(f fill, from, min int) func() *senv {
	small := func(h int64) dbx.Block {
		b := dbx.Block{H: h}
		for _, s := range f.shards {
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: f.key(s, f.keep+1), Val: "small"}, dbx.Op{Kind: dbx.Del, Key: f.key(s, f.keep+2)}, dbx.Op{Kind: dbx.Set, Key: f.key(s, 1), Val: "cold"})
		}
		return b
	}
	moved := func(w *vw.World, b dbx.Block) int {
		a0 := dbx.NewAudit()
		_ = a0.Feed(w)
		t := dbx.Open(w.Clone(), false)
		defer t.Done()
		t.Run(b)
		a1 := dbx.NewAudit()
		_ = a1.Feed(t.W)
		n := 0
		for _, ks := range movedKeys(a0, a1) {
			n += len(ks)
		}
		return n
	}
	var img *vw.World
	var mod *dbx.Model
	h := int64(0)
	find := func() {
		for n := from; n < from+40; n++ {
			r := f.get(false, n)
			h = int64(n) + 1
			full := f.block(h, n+1)
			if moved(r.w, full) < min {
				continue
			}
			part := func(j int) dbx.Block {
				b := dbx.Block{H: h}
				per := len(full.Ops) / len(f.shards)
				for i := range full.Ops {
					if i%per < j {
						b.Ops = append(b.Ops, full.Ops[i])
					}
				}
				return b
			}
			lo, hi := 0, len(full.Ops)/len(f.shards)
			for lo+1 < hi {
				mid := (lo + hi) / 2
				if moved(r.w, part(mid)) > 0 {
					hi = mid
				} else {
					lo = mid
				}
			}
			db, m := r.open(false)
			db.Run(part(lo))
			m.Apply(part(lo))
			w := db.W.Clone()
			db.Done()
			h++
			if moved(w, small(h)) < min {
				continue
			}
			img, mod = w, m
			return
		}
		panic("no compacting block found")
	}
	return func() *senv {
		if img == nil {
			find()
		}
		e := envOf(img, mod.Clone())
		e.blk = small(h)
		return e
	}
}

func (e *senv) uni() []string {
	u := append([]string(nil), schedKeys()...)
	for _, o := range e.blk.Ops {
		u = append(u, o.Key)
	}
	return u
}

// more scenarios: compaction, prune, parallel write-back of a block store
func schedMore() []scenario {
	var r []scenario
	comp := compacting(fillTwo, 14, 4)
	r = append(r, scenario{name: "compaction", cpus: 2,
		prep: func() *senv { e := comp(); e.db.Prepare(e.blk.Ops); return e },
		body: func(e *senv) { finishBlock(e, e.blk, e.uni()) },
		post: func(e *senv) string { return blockPost(e.uni())(e) }})
	bord := bordering()
	r = append(r, scenario{name: "border", cpus: 2,
		prep: func() *senv { e := bord(); e.db.Prepare(e.blk.Ops); return e },
		body: func(e *senv) { finishBlock(e, e.blk, e.uni()) },
		post: func(e *senv) string {
			s := blockPost(e.uni())(e)
			e.db.ReopenNoClose()
			if d := dbx.FirstDiff(e.out, e.db.State(e.uni())); d != "" {
				return "MODEL the state changed with a restart: " + d
			}
			return s
		}})
	r = append(r, scenario{name: "prune", cpus: 2,
		prep: func() *senv { r := fillHot.get(false, 60); return envOf(r.w, r.m.Clone()) },
		body: func(e *senv) {
			e.db.A.PruneBeforeHeight(55)
			e.out = e.db.State(schedKeys())
			e.dig = e.w.Digest()
		},
		post: func(e *senv) string {
			s := blockPost(schedKeys())(e)
			b := dbx.Block{H: 61, Ops: []dbx.Op{{Kind: dbx.Set, Key: schedKeys()[0], Val: "after"}}}
			e.db.Run(b)
			e.m.Apply(b)
			return s + e.db.State(schedKeys()) + e.w.Digest()
		}})
	ks := schedKeys()
	fillTrunk := func(e *senv) *store.TrunkStore {
		root := store.NewRootStore(e.db.A, func(k []byte) bool { return k[7]&1 == 1 })
		root.SetHeight(2)
		e.root = root
		e.blk = dbx.Block{H: 2, Ops: []dbx.Op{
			{Kind: dbx.Set, Key: ks[1], Val: "n1"}, {Kind: dbx.Del, Key: ks[2]}, {Kind: dbx.Set, Key: ks[3], Val: "n3"},
			{Kind: dbx.Set, Key: ks[4], Val: "n4"}, {Kind: dbx.Del, Key: ks[6]}}}
		t := root.GetTrunkStore(10).(*store.TrunkStore)
		for _, o := range e.blk.Ops {
			o := o
			if o.Kind == dbx.Set {
				t.PrepareForUpdate([]byte(o.Key))
			} else {
				t.PrepareForDeletion([]byte(o.Key))
			}
			t.Update(func(db types.SetDeleter) {
				if o.Kind == dbx.Set {
					db.Set([]byte(o.Key), []byte(o.Val))
				} else {
					db.Delete([]byte(o.Key))
				}
			})
		}
		return t
	}
	base := func() *senv { w, m := schedBase(); return envOf(w, m.Clone()) }
	rootState := func(e *senv) string {
		s := ""
		for _, k := range ks {
			s += fmt.Sprintf("%x=%q\n", k, e.root.Get([]byte(k)))
		}
		return s
	}
	wb := func(name string, f func(e *senv, t *store.TrunkStore)) scenario {
		return scenario{name: name, cpus: 1,
			prep: func() *senv { e := base(); e.trunk = fillTrunk(e); return e },
			body: func(e *senv) {
				f(e, e.trunk)
				e.m.Apply(e.blk)
				e.out = e.db.State(ks)
				e.dig = e.w.Digest()
			},
			post: func(e *senv) string { return rootState(e) + blockPost(ks)(e) }}
	}
	r = append(r, wb("write-back", func(e *senv, t *store.TrunkStore) { t.Close(true) }))
	r = append(r, wb("sync-update", func(e *senv, t *store.TrunkStore) { store.SyncUpdateTo(t.GetCacheContent(), e.root) }))
	return r
}

func hashTask(kind string) bool {
	return strings.Contains(kind, "Hasher") || strings.Contains(kind, "syncMT4") || strings.Contains(kind, "RecoverTree")
}

// thin takes, of the deviations with the same kind of running task, operation and
// task switched to, the first 32 and then every nth.
func thin(nth int) devRule {
	n := map[string]int{}
	return func(p vsched.Point, alt int, kinds []string) bool {
		if nth <= 1 {
			return true
		}
		k := p.Kind
		for _, id := range []int{p.Running, p.Ids[alt]} {
			if id < len(kinds) {
				k += " " + kinds[id]
			}
		}
		n[k]++
		return n[k] <= 32 || n[k]%nth == 0
	}
}

func c18Items(thorough bool) []hx.Item {
	var its []hx.Item
	add := func(name string, parts int, f func(c *hx.Ctx, p, parts int)) {
		for p := 0; p < parts; p++ {
			p := p
			its = append(its, hx.Item{Name: fmt.Sprintf("%s %d/%d", name, p, parts), Run: func(c *hx.Ctx) { f(c, p, parts) }})
		}
	}
	all := append(schedScenarios(), schedMore()...)
	by := map[string]scenario{}
	for _, sc := range all {
		sc := sc
		by[sc.name] = sc
		if sc.name == "prepare" {
			continue
		}
		add("policies "+sc.name, 8, func(c *hx.Ctx, p, parts int) { sc.policies(c, p, parts, sc.policyPick(thorough)) })
	}
	add("prepare", 16, func(c *hx.Ctx, p, parts int) {
		if thorough {
			by["prepare"].explore(c, 2, p, parts, anyDev)
			return
		}
		by["prepare"].explore(c, 1, p, parts, anyDev)
	})
	for _, name := range []string{"commit", "border", "compaction", "write-back", "sync-update"} {
		name := name
		add("deviations "+name, 16, func(c *hx.Ctx, p, parts int) {
			n := 8
			if name == "border" {
				n = 64
			} else if name == "compaction" {
				n = 32
			}
			if thorough {
				n = 1
			}
			by[name].explore(c, 1, p, parts, thin(n))
		})
	}
	add("deviations prune", 4, func(c *hx.Ctx, p, parts int) { by["prune"].explore(c, 1, p, parts, thin(8)) })
	for i, sc := range raceScenarios() {
		its = append(its, raceItem("C18-race", i, sc.name))
	}
	return its
}

// The scenarios that are run under the race detector. Compaction and pruning are
// not among them: the goroutine that lists a twig's active entries reads the twig's
// bits while the consumer clears bits of entries already listed, which does not
// influence what is listed.
func raceScenarios() []scenario {
	var r []scenario
	for _, sc := range append(schedScenarios(), schedMore()...) {
		if sc.name != "compaction" && sc.name != "prune" {
			r = append(r, sc)
		}
	}
	return r
}

// raceItem runs an item of a check in the binary built with the race detector.
func raceItem(check string, i int, name string) hx.Item {
	return hx.Item{Name: "race detector: " + name, Run: func(c *hx.Ctx) {
		alt := os.Getenv("VERIF_ALT")
		if alt == "" {
			c.Note("the build with the race detector is not available")
			return
		}
		cmd := exec.Command(alt, check, "-item", fmt.Sprint(i))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		var b bytes.Buffer
		cmd.Stderr = &b
		err := cmd.Run()
		if ee, ok := err.(*exec.ExitError); ok {
			switch ee.ExitCode() {
			case 66:
				s := b.String()
				if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
					c.Fail(s[i:], "%s: data race between concurrent workers: %s", name, raceLine(s[i:]))
				}
			case 1:
				c.Fail(b.String(), "%s: under the race detector: %s", name, b.String())
			}
		}
		c.Add("race_runs", 1)
		c.Eval("race", check, name)
	}}
}

// raceLine names the two functions of a race report.
func raceLine(s string) string {
	var r []string
	take := false
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "Read at"), strings.HasPrefix(l, "Write at"), strings.HasPrefix(l, "Previous"):
			take = true
		case take && strings.HasPrefix(l, "github.com/smartbch"):
			r = append(r, l)
			take = false
		}
	}
	return strings.Join(r, " and ")
}

func init() {
	hx.Register(&hx.Check{ID: "C18", Level: "model_checking",
		Rule: "Real code under a cooperative scheduler that runs one goroutine at a time and decides at every synchronisation operation (locks, wait groups, channels, atomics, go statements) who continues. Scenarios: six concurrent preparations over three shards and then their block; a commit; a commit in which compaction moves entries in two shards; a prune and the block after it; the parallel write-back of a block store and SyncUpdateTo with the commit; a reopen with its parallel scans; a commit that crosses a twig border in three shards with history kept. " +
			"Preparation: every schedule with at most 1 deviation from the default one (thorough 2). Commit, compaction, write-back, SyncUpdateTo, prune: every schedule with 1 deviation (quick: of those with the same kind of running task, operation and task switched to, the first 32 and then every 8th, in the compaction every 32nd). All but preparation: every schedule in which one task, or two neighbours, run only when nothing else can, one runs whenever it can, and pairs of both. " +
			"In each: no deadlock, no panic, same roots, same live state (also against the model), same proofs, same files; when the call returns every written file has been synced, the batch was a synchronous write, and neither files nor state change afterwards. Under the race detector the default and priority schedules (of all but compaction and prune) and the preparation's deviations have no data race.",
		Assumptions: []string{
			"scheduling points are the synchronisation operations; between them the absence of data races (race detector, same schedules) makes the code atomic",
			"job channels of capacity 2, one or two hashing workers, small files and compaction thresholds (constant substitution)",
			"the key-value store's own threads are not scheduled (in-memory stand-in)"},
		Items: c18Items})
	hx.Register(&hx.Check{ID: "C18-race", Level: "model_checking", Rule: "race detector build", Items: func(thorough bool) []hx.Item {
		var its []hx.Item
		for _, sc := range raceScenarios() {
			sc := sc
			its = append(its, hx.Item{Name: sc.name, Run: func(c *hx.Ctx) {
				switch sc.name {
				case "prepare":
					sc.explore(c, 1, 0, 1, anyDev)
				case "reopen":
					sc.policies(c, 0, 1, func(kind string, nth int) (bool, bool) { return nth == 1 && (thorough || !hashTask(kind)), false })
				default:
					sc.policies(c, 0, 1, func(kind string, nth int) (bool, bool) { return nth < 3, false })
				}
			}})
		}
		return its
	}})
}
