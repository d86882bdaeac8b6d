package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	sha256 "github.com/minio/sha256-simd"

	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
	adstypes "github.com/smartbch/moeingads/types"
	"verif.local/v/dbx"
	"verif.local/v/hx"
)

// Long keys whose first three probes (with one-byte short keys) all lie among
// three slots, one key for every combination. Found by search.
var chainKeys = []struct{ shape, key string }{
	{"000", "00057bf7"},
	{"001", "00140592"},
	{"002", "00109f1d"},
	{"010", "001acb69"},
	{"011", "003583bf"},
	{"012", "0001d08a"},
	{"020", "0000ba22"},
	{"021", "0001aa2b"},
	{"022", "00226ffa"},
	{"100", "004da890"},
	{"101", "00252745"},
	{"102", "002f2662"},
	{"110", "004b8744"},
	{"111", "000601c1"},
	{"112", "001d79cb"},
	{"120", "00162122"},
	{"121", "001b4c34"},
	{"122", "001f48a9"},
	{"200", "002ba9fa"},
	{"201", "003a20f1"},
	{"202", "0002ad8c"},
	{"210", "00319cd2"},
	{"211", "0048881b"},
	{"212", "0051da71"},
	{"220", "0034f460"},
	{"221", "0016ab71"},
	{"222", "0015841a"},
}

func chain(k string, n int) string {
	h := sha256.Sum256([]byte(k))
	s := ""
	for i := 0; i < n; i++ {
		s += fmt.Sprintf("%02x ", adstypes.LimitRange(h[0]))
		h = sha256.Sum256(h[:])
	}
	return s
}

type sk = [rabbit.KeySize]byte

// parent is a map implementing the store a rabbit store sits on. It insists on
// the calling protocol: balanced locks, preparation before write.
type parent struct {
	m     map[string]string
	locks int
	prepU map[string]bool
	prepD map[string]bool
	bad   string
	upd   int
}

func newParent() *parent {
	return &parent{m: map[string]string{}, prepU: map[string]bool{}, prepD: map[string]bool{}}
}

func (p *parent) clone() *parent {
	n := newParent()
	for k, v := range p.m {
		n.m[k] = v
	}
	return n
}

func (p *parent) key() string {
	ks := make([]string, 0, len(p.m))
	for k, v := range p.m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

func (p *parent) RLock() { p.locks++ }
func (p *parent) RUnlock() {
	p.locks--
	if p.locks < 0 {
		p.bad = "more unlocks than locks"
	}
}
func (p *parent) Get(k []byte) []byte {
	if v, ok := p.m[string(k)]; ok {
		return []byte(v)
	}
	return nil
}
func (p *parent) GetAtHeight(k []byte, h uint64) []byte { panic("no history here") }
func (p *parent) PrepareForUpdate(k []byte)             { p.prepU[string(k)] = true }
func (p *parent) PrepareForDeletion(k []byte)           { p.prepD[string(k)] = true }
func (p *parent) ActiveCount() int                      { return len(p.m) }
func (p *parent) Update(f func(db types.SetDeleter)) {
	p.upd++
	f((*pw)(p))
}

type pw parent

func (p *pw) Set(k, v []byte) {
	if !p.prepU[string(k)] {
		p.bad = fmt.Sprintf("slot %x written without preparation", k)
	}
	p.m[string(k)] = string(v)
}

func (p *pw) Delete(k []byte) {
	if !p.prepD[string(k)] {
		p.bad = fmt.Sprintf("slot %x deleted without preparation", k)
	}
	delete(p.m, string(k))
}

type rop struct {
	del bool
	i   int
}

func (o rop) String() string {
	if o.del {
		return fmt.Sprintf("del %d", o.i)
	}
	return fmt.Sprintf("set %d", o.i)
}

// model: key index -> value; present only when live
type rmodel map[int]string

func (m rmodel) clone() rmodel {
	n := rmodel{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m rmodel) apply(o rop) string {
	if o.del {
		delete(m, o.i)
		return ""
	}
	v := "x" + string(rune('a'+o.i)) // absent or empty -> x?, x? -> empty
	if cur, ok := m[o.i]; ok && cur != "" {
		v = ""
	}
	m[o.i] = v
	return v
}

func doOp(r *rabbit.RabbitStore, keys []string, o rop, v string) {
	if o.del {
		r.Delete([]byte(keys[o.i]))
		return
	}
	k, b := []byte(keys[o.i]), []byte(v)
	r.Set(k, b)
	scribble(k)
	scribble(b)
}

// diffRabbit compares every key; par, when given, is the parent that must hold
// a live key at the end of its reported path.
func diffRabbit(r *rabbit.RabbitStore, keys []string, m rmodel, par func(k sk) []byte) string {
	for i, k := range keys {
		want, live := m[i]
		v := r.Get([]byte(k))
		has := r.Has([]byte(k))
		if has != live {
			return fmt.Sprintf("Has(key %d)=%v, expected %v", i, has, live)
		}
		if live && string(v) != want || !live && v != nil {
			return fmt.Sprintf("Get(key %d)=%q, expected %q live=%v", i, v, want, live)
		}
		path, ok := r.GetShortKeyPath([]byte(k))
		if ok != live {
			return fmt.Sprintf("GetShortKeyPath(key %d) ok=%v, expected %v", i, ok, live)
		}
		if live && par != nil {
			raw := par(path[len(path)-1])
			cv := rabbit.BytesToCachedValue(raw)
			if cv == nil || cv.IsEmpty() || string(cv.GetKey()) != k || string(cv.GetValue()) != want {
				return fmt.Sprintf("the slot %x that the path of key %d ends at does not hold it (%x)", path[len(path)-1], i, raw)
			}
		}
	}
	return ""
}

type rstate struct {
	p     *parent
	m     rmodel
	trace string
}

type rx struct {
	c      *hx.Ctx
	keys   []string
	shapes string
	seen   map[string]string // parent content -> the map it stands for
	queue  []rstate
}

func (x *rx) fail(s rstate, ops []rop, f string, a ...interface{}) {
	x.c.Fail(fmt.Sprintf("keys %q (slot chains %s)\nhistory: %s\ntransaction: %v", x.keys, x.shapes, s.trace, ops), f, a...)
}

// tx runs one transaction of ops from state s; it returns the state after write-back.
func (x *rx) tx(s rstate, ops []rop) rstate {
	p := s.p.clone()
	m := s.m.clone()
	r := rabbit.NewRabbitStore(p)
	for _, o := range ops {
		v := m.apply(o)
		doOp(&r, x.keys, o, v)
	}
	if d := diffRabbit(&r, x.keys, m, nil); d != "" {
		x.fail(s, ops, "within the transaction: %s", d)
	}
	if p.locks != 1 {
		x.fail(s, ops, "%d read locks held by one open store", p.locks)
	}
	r.Close()
	if p.upd != 0 || p.locks != 0 {
		x.fail(s, ops, "before write-back: %d parent updates, %d read locks", p.upd, p.locks)
	}
	r.WriteBack()
	if p.bad != "" {
		x.fail(s, ops, "%s", p.bad)
	}
	n := rstate{p: p, m: m}
	p.prepU, p.prepD, p.upd = map[string]bool{}, map[string]bool{}, 0
	x.c.Add("transitions", 1)
	return n
}

func (x *rx) enqueue(s rstate, ops []rop, n rstate) {
	k := n.p.key()
	ms := fmt.Sprintf("%q", n.m) // maps print in key order
	if old, ok := x.seen[k]; ok {
		if old != ms {
			x.fail(s, ops, "the underlying store after write-back is the one that held %s; expected the content %s", old, ms)
		}
		return
	}
	x.seen[k] = ms
	n.trace = s.trace + fmt.Sprint(ops)
	ro := rabbit.NewReadOnlyRabbitStore(n.p)
	if d := diffRabbit(&ro, x.keys, n.m, func(k sk) []byte { return n.p.Get(k[:]) }); d != "" {
		x.fail(s, ops, "after write-back: %s", d)
	}
	for _, ck := range chainKeys {
		member := false
		for _, k := range x.keys {
			member = member || k == ck.key
		}
		if !member && (ro.Has([]byte(ck.key)) || ro.Get([]byte(ck.key)) != nil) {
			x.fail(s, ops, "key %q was never set but is present", ck.key)
		}
	}
	ro.Close()
	if len(n.m) == 0 && len(n.p.m) != 0 {
		x.fail(s, ops, "all keys are deleted but %d slots remain: %x", len(n.p.m), n.p.m)
	}
	x.queue = append(x.queue, n)
}

// explore reaches every parent state by transactions of up to L operations.
func (x *rx) explore(L int) {
	var ops []rop
	for i := range x.keys {
		ops = append(ops, rop{false, i}, rop{true, i})
	}
	x.seen = map[string]string{"": fmt.Sprintf("%q", rmodel{})}
	x.queue = []rstate{{p: newParent(), m: rmodel{}}}
	for len(x.queue) > 0 {
		if x.c.TimeUp() {
			return
		}
		s := x.queue[0]
		x.queue = x.queue[1:]
		x.c.Add("states", 1)
		var cur []rop
		var rec func()
		rec = func() {
			if len(cur) > 0 {
				x.enqueue(s, append([]rop(nil), cur...), x.tx(s, cur))
			}
			if len(cur) == L {
				return
			}
			for _, o := range ops {
				cur = append(cur, o)
				rec()
				cur = cur[:len(cur)-1]
			}
		}
		rec()
		x.readOnly(s, ops)
		x.pairs(s, ops)
	}
	x.c.Outcome(x.shapes, len(x.seen))
}

// readOnly: a read-only store overlays its own writes and leaves the parent alone.
func (x *rx) readOnly(s rstate, ops []rop) {
	for _, o := range ops {
		p := s.p.clone()
		m := s.m.clone()
		r := rabbit.NewReadOnlyRabbitStore(p)
		doOp(&r, x.keys, o, m.apply(o))
		if d := diffRabbit(&r, x.keys, m, nil); d != "" {
			x.fail(s, []rop{o}, "read-only store: %s", d)
		}
		r.Close()
		r.Close()
		ok := func() (ok bool) {
			defer func() { ok = recover() != nil }()
			r.WriteBack()
			return
		}()
		if !ok || p.upd != 0 || p.key() != s.p.key() || len(p.prepU)+len(p.prepD) != 0 || p.locks != 0 {
			x.fail(s, []rop{o}, "a read-only store changed its parent (updates %d, preparations %d, locks %d, write-back refused %v)", p.upd, len(p.prepU)+len(p.prepD), p.locks, ok)
		}
	}
}

// pairs: two transactions of one operation each, open at the same time, whose
// reported short keys do not conflict, equal one of the sequential orders.
func (x *rx) pairs(s rstate, ops []rop) {
	run := func(p *parent, o rop) (rabbit.RabbitStore, map[sk]bool, string) {
		r := rabbit.NewRabbitStore(p)
		v := s.m.clone().apply(o)
		doOp(&r, x.keys, o, v)
		t := map[sk]bool{}
		r.ScanAllShortKeys(func(k sk, dirty bool) bool { t[k] = dirty; return false })
		r.Close()
		return r, t, v
	}
	for _, a := range ops {
		for _, b := range ops {
			p := s.p.clone()
			ra, ta, va := run(p, a)
			rb, tb, vb := run(p, b)
			conflict := false
			for k, d := range ta {
				if d2, ok := tb[k]; ok && (d || d2) {
					conflict = true
				}
			}
			if conflict {
				continue
			}
			ra.WriteBack()
			rb.WriteBack()
			set := func(m rmodel, o rop, v string) {
				if o.del {
					delete(m, o.i)
				} else {
					m[o.i] = v
				}
			}
			m1, m2 := s.m.clone(), s.m.clone()
			set(m1, a, va)
			set(m1, b, vb)
			set(m2, b, vb)
			set(m2, a, va)
			ro := rabbit.NewReadOnlyRabbitStore(p)
			d1 := diffRabbit(&ro, x.keys, m1, nil)
			if d1 != "" && diffRabbit(&ro, x.keys, m2, nil) != "" {
				x.fail(s, []rop{a, b}, "two transactions without a reported conflict give neither sequential result: %s", d1)
			}
			x.c.Add("nonconflicting_pairs", 1)
		}
	}
}

// keySets: all sets of n chain keys, one per symmetry class of the three slots.
func shapeSets(n int, all bool) [][]int {
	var r [][]int
	seen := map[string]bool{}
	perms := []string{"012", "021", "102", "120", "201", "210"}
	var cur []int
	var rec func(from int)
	rec = func(from int) {
		if len(cur) == n {
			best := ""
			for _, p := range perms {
				var ss []string
				for _, i := range cur {
					s := []byte(chainKeys[i].shape)
					for j := range s {
						s[j] = p[s[j]-'0']
					}
					ss = append(ss, string(s))
				}
				sort.Strings(ss)
				if c := strings.Join(ss, " "); best == "" || c < best {
					best = c
				}
			}
			if !seen[best] || all {
				seen[best] = true
				r = append(r, append([]int(nil), cur...))
			}
			return
		}
		for i := from; i < len(chainKeys); i++ {
			cur = append(cur, i)
			rec(i + 1)
			cur = cur[:len(cur)-1]
		}
	}
	rec(0)
	return r
}

// ---- on the real database ----

// padStore lets a rabbit store with short short-keys sit on a real block store.
type padStore struct{ t *store.TrunkStore }

func pad(k []byte) []byte {
	if len(k) >= 8 {
		return k
	}
	r := make([]byte, 8)
	copy(r, k)
	r[7] = k[0] * 37 // spread over the shards
	return r
}

func (p padStore) RLock()                                { p.t.RLock() }
func (p padStore) RUnlock()                              { p.t.RUnlock() }
func (p padStore) Get(k []byte) []byte                   { return p.t.Get(pad(k)) }
func (p padStore) GetAtHeight(k []byte, h uint64) []byte { return p.t.GetAtHeight(pad(k), h) }
func (p padStore) PrepareForUpdate(k []byte)             { p.t.PrepareForUpdate(pad(k)) }
func (p padStore) PrepareForDeletion(k []byte)           { p.t.PrepareForDeletion(pad(k)) }
func (p padStore) ActiveCount() int                      { return p.t.ActiveCount() }
func (p padStore) Update(f func(db types.SetDeleter)) {
	p.t.Update(func(db types.SetDeleter) { f(padW{db}) })
}

type padW struct{ db types.SetDeleter }

func (p padW) Set(k, v []byte) { p.db.Set(pad(k), v) }
func (p padW) Delete(k []byte) { p.db.Delete(pad(k)) }

type rdb struct {
	c    *hx.Ctx
	db   *dbx.DB
	root *store.RootStore
	t    *store.TrunkStore
	keys []string
	m    rmodel
	com  rmodel
	h    int64
	hist map[int64]rmodel
	tr   []string
}

func (r *rdb) openRoot() {
	r.root = store.NewRootStore(r.db.A, func([]byte) bool { return true })
	r.root.SetHeight(r.h)
	r.t = r.root.GetTrunkStore(10).(*store.TrunkStore)
}

func (r *rdb) fail(f string, a ...interface{}) {
	r.c.Fail(fmt.Sprintf("keys %q\n%s", r.keys, strings.Join(r.tr, "; ")), f, a...)
}

func (r *rdb) check(when string) {
	ro := rabbit.NewReadOnlyRabbitStore(padStore{r.t})
	if d := diffRabbit(&ro, r.keys, r.m, func(k sk) []byte { return padStore{r.t}.Get(k[:]) }); d != "" {
		r.fail("%s: %s", when, d)
	}
	ro.Close()
}

func (r *rdb) tx(ops []rop) {
	r.tr = append(r.tr, fmt.Sprint(ops))
	rb := rabbit.NewRabbitStore(padStore{r.t})
	for _, o := range ops {
		doOp(&rb, r.keys, o, r.m.apply(o))
	}
	rb.CloseAndWriteBack(true)
	r.check("after a transaction")
	r.c.Add("transitions", 1)
}

// abandoned runs a transaction that is never written back.
func (r *rdb) abandoned(ops []rop) {
	m := r.m.clone()
	rb := rabbit.NewRabbitStore(padStore{r.t})
	for _, o := range ops {
		doOp(&rb, r.keys, o, m.apply(o))
	}
	rb.CloseAndWriteBack(false)
	r.check("after an abandoned transaction")
}

func (r *rdb) commit() {
	r.tr = append(r.tr, "commit")
	r.root.SetHeight(r.h)
	r.t.Close(true)
	r.com = r.m.clone()
	r.hist[r.h] = r.com
	r.h++
	r.t = r.root.GetTrunkStore(10).(*store.TrunkStore)
	r.check("after a block")
	if len(r.m) == 0 && r.root.ActiveCount() != 2 {
		r.fail("all keys are deleted but %d entries remain", r.root.ActiveCount()-2)
	}
	for h := r.h - 3; r.db.Hist && h < r.h; h++ {
		m, ok := r.hist[h]
		if !ok {
			continue
		}
		at := rabbit.NewReadOnlyRabbitStoreAtHeight(padStore{r.t}, uint64(h))
		if d := diffRabbit(&at, r.keys, m, nil); d != "" {
			r.fail("at height %d: %s", h, d)
		}
		at.Close()
	}
}

func (r *rdb) restart() {
	r.tr = append(r.tr, "restart")
	r.db.Reopen()
	r.m = r.com.clone()
	r.openRoot()
	r.check("after a restart")
}

func newRdb(c *hx.Ctx, hist bool, keys []string) *rdb {
	r := &rdb{c: c, keys: keys, m: rmodel{}, com: rmodel{}, hist: map[int64]rmodel{}}
	r.db = dbx.Fresh(hist)
	r.openRoot()
	return r
}

func (r *rdb) clear() {
	var ops []rop
	for i := range r.keys {
		if _, ok := r.m[i]; ok {
			ops = append(ops, rop{true, i})
		}
	}
	r.tr = nil
	if len(ops) > 0 {
		r.tx(ops)
	}
	r.commit()
	r.tr = nil
}

// realHist runs every sequence of n operations; after operation j a block is
// committed when bit j of split is set, a restart follows when bit j of rst is.
func realHist(c *hx.Ctx, keys []string, n, split, rst int, hist bool) {
	r := newRdb(c, hist, keys)
	defer func() { r.db.Done() }()
	var ops []rop
	for i := range keys {
		ops = append(ops, rop{false, i}, rop{true, i})
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(ops)
	}
	for code := 0; code < total; code++ {
		if c.TimeUp() {
			return
		}
		if rst != 0 && code%7 != 0 && !c.Thorough {
			continue
		}
		r.clear()
		x := code
		for j := 0; j < n; j++ {
			o := ops[x%len(ops)]
			x /= len(ops)
			r.abandoned([]rop{ops[(x+j)%len(ops)], o})
			r.tx([]rop{o})
			if split>>uint(j)&1 == 1 {
				r.commit()
			}
			if rst>>uint(j)&1 == 1 {
				r.restart()
			}
		}
		r.commit()
		c.Add("states", 1)
	}
	r.restart()
	c.Eval(strings.Join(keys, ","), n, split, rst)
}

func rabbitItems(thorough bool) []hx.Item {
	var its []hx.Item
	if rabbit.KeySize == 8 {
		for s := 0; s < 8; s++ {
			s := s
			its = append(its, hx.Item{Name: fmt.Sprintf("production key size split=%03b", s), Run: func(c *hx.Ctx) {
				realHist(c, []string{"a", "a longer key of an account", strings.Repeat("storage slot ", 20)}, 3, s, s&1, true)
			}})
		}
		return its
	}
	sets := shapeSets(3, thorough)
	per := 12
	L := 3
	for lo := 0; lo < len(sets); lo += per {
		hi := lo + per
		if hi > len(sets) {
			hi = len(sets)
		}
		part := sets[lo:hi]
		its = append(its, hx.Item{Name: fmt.Sprintf("shapes %d..%d", lo, hi-1), Run: func(c *hx.Ctx) { runSets(c, part, L) }})
	}
	if thorough {
		sets := shapeSets(4, false)
		for lo := 0; lo < len(sets); lo += per {
			hi := lo + per
			if hi > len(sets) {
				hi = len(sets)
			}
			part := sets[lo:hi]
			its = append(its, hx.Item{Name: fmt.Sprintf("4 keys %d..%d", lo, hi-1), Run: func(c *hx.Ctx) { runSets(c, part, 2) }})
		}
	}
	// the real database below
	for si, shapes := range [][]string{{"000", "001", "010"}, {"012", "021", "120"}, {"010", "100", "101"}, {"012", "120", "201"}, {"011", "110", "022"}, {"001", "002", "012"}} {
		for split := 0; split < 8; split++ {
			for _, rst := range []int{0, 1 << uint(si%3)} {
				shapes, split, rst := shapes, split, rst
				if rst != 0 && !thorough && split != 7 {
					continue
				}
				its = append(its, hx.Item{Name: fmt.Sprintf("database %v split=%03b restart=%03b", shapes, split, rst), Run: func(c *hx.Ctx) {
					var keys []string
					for _, s := range shapes {
						keys = append(keys, keyOf(s))
					}
					realHist(c, keys, 3, split, rst, split&1 == 1)
				}})
			}
		}
	}
	its = append(its, hx.Item{Name: "production key size", Run: func(c *hx.Ctx) {
		alt := os.Getenv("VERIF_ALT")
		if alt == "" {
			c.Note("the build with production key size is not available")
			return
		}
		for i := 0; i < 8; i++ {
			cmd := exec.Command(alt, "C17", "-item", fmt.Sprint(i))
			var b bytes.Buffer
			cmd.Stderr = &b
			err := cmd.Run()
			if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 1 || ee.ExitCode() == 2) {
				c.Fail(b.String(), "with production key size: %s", b.String())
			}
			c.Eval("production", i)
		}
	}})
	return its
}

func keyOf(shape string) string {
	for _, c := range chainKeys {
		if c.shape == shape {
			return c.key
		}
	}
	panic(shape)
}

func runSets(c *hx.Ctx, sets [][]int, L int) {
	for _, s := range sets {
		if c.TimeUp() {
			return
		}
		x := &rx{c: c}
		for _, i := range s {
			x.keys = append(x.keys, chainKeys[i].key)
			x.shapes += "[" + chain(chainKeys[i].key, 4) + "]"
		}
		c.Trace("keys " + strings.Join(x.keys, " ") + " " + x.shapes)
		x.explore(L)
		c.Eval(x.shapes)
		c.Sample(fmt.Sprintf("keys %q chains %s: %d parent states", x.keys, x.shapes, len(x.seen)))
	}
}

func init() {
	hx.Register(&hx.Check{
		ID:    "C17",
		Level: "model_checking",
		Rule: "Short keys of one byte; 27 long keys realise every combination of first three probes over three slots. For every set of three such keys (up to renaming of slots; thorough: every set, and sets of four) the graph of underlying-store states is explored to its fixpoint: from every reachable state every transaction of up to 3 set/delete operations, so all histories of any length over such transactions. " +
			"Within each transaction and after each write-back Get, Has and GetShortKeyPath of all keys are compared with a map, slots left over after the last deletion, lock balance, preparation before write, read-only stores and pairs of concurrent transactions without reported conflicts are checked. On the real database: all 3-operation sequences, all splits into blocks, restarts, height reads; with production 8-byte short keys as well.",
		Assumptions: []string{"KeySize reduced from 8 to 1 by constant substitution (the repository itself does so for its fuzzer)", "values alternate between a non-empty one and the empty one"},
		Items:       rabbitItems,
	})
}
