package main

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"strings"

	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vmap"
	"verif.local/w/vruntime"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C06", Level: "model_checking",
		Rule:        "pairs of databases in lockstep. (a) every (live subset of 4 keys, per key untouched/set/deleted, order of the operations) for 5 key placements: sorted order against the permuted one (preparations permuted too); (b) every (live subset, choices) against nine variants: reversed order, duplicate preparations, extra preparations of untouched keys for update or deletion, reads between the operations, descending and rotated map iteration, 1/2/3 CPUs, history enabled, restarts; (c) fills with compaction, roll-over and prunes against the same variants; (d) all of these histories in a second build with other segment, buffer and read-ahead sizes. Root and proofs compared after every block; a case is one compared block",
		Assumptions: dbAssumptions,
		Items:       c06Items,
		Finish:      validated,
	})
}

// variant says how a block is presented to the database.
type variant struct {
	name   string
	hist   bool
	cpus   int
	mode   int32 // map iteration
	order  func(n int, ops []dbx.Op) []dbx.Op
	pre    func(n int, ops []dbx.Op, uni []string) []dbx.Op // preparations
	reads  bool
	reopen func(n int) int // 0 no, 1 close, 2 no close
}

func keepOrder(_ int, ops []dbx.Op) []dbx.Op { return ops }

// groups keeps the operations on one key together and in order.
func groups(ops []dbx.Op) [][]dbx.Op {
	var g [][]dbx.Op
	at := map[string]int{}
	for _, o := range ops {
		i, ok := at[o.Key]
		if !ok {
			i = len(g)
			at[o.Key] = i
			g = append(g, nil)
		}
		g[i] = append(g[i], o)
	}
	return g
}

func reversed(_ int, ops []dbx.Op) []dbx.Op {
	g := groups(ops)
	var r []dbx.Op
	for i := len(g) - 1; i >= 0; i-- {
		r = append(r, g[i]...)
	}
	return r
}

func rotated(n int, ops []dbx.Op) []dbx.Op {
	g := groups(ops)
	var r []dbx.Op
	for i := range g {
		r = append(r, g[(i+n)%len(g)]...)
	}
	return r
}

func prep(o dbx.Op) dbx.Op {
	if o.Kind == dbx.Set {
		o.Kind = dbx.PrepU
	} else if o.Kind == dbx.Del {
		o.Kind = dbx.PrepD
	}
	return o
}

func samePre(_ int, ops []dbx.Op, _ []string) []dbx.Op {
	var r []dbx.Op
	for _, o := range ops {
		r = append(r, prep(o))
	}
	return r
}

func extraPre(kind dbx.OpKind, before bool) func(int, []dbx.Op, []string) []dbx.Op {
	return func(n int, ops []dbx.Op, uni []string) []dbx.Op {
		var x []dbx.Op
		for i, k := range uni {
			if len(uni) < 10 || (i+n)%7 == 0 {
				x = append(x, dbx.Op{Kind: kind, Key: k})
			}
		}
		if before {
			return append(x, samePre(n, ops, uni)...)
		}
		return append(samePre(n, ops, uni), x...)
	}
}

func dupPre(n int, ops []dbx.Op, uni []string) []dbx.Op {
	var r []dbx.Op
	for _, o := range ops {
		r = append(r, prep(o), dbx.Op{Kind: dbx.PrepU, Key: o.Key}, dbx.Op{Kind: dbx.PrepD, Key: o.Key}, prep(o))
	}
	return append(r, reversed(0, r)...)
}

func never(int) int { return 0 }

var canon = variant{name: "canonical", order: keepOrder, pre: samePre, reopen: never}

var variants = []variant{
	{name: "reversed operations, one CPU", cpus: 1, mode: 1, order: reversed, pre: samePre, reopen: never},
	{name: "duplicate preparations", cpus: 2, mode: 2, order: rotated, pre: dupPre, reopen: never},
	{name: "extra preparations for update", mode: 3, order: keepOrder, pre: extraPre(dbx.PrepU, true), reopen: never},
	{name: "extra preparations for update afterwards", mode: 1, order: rotated, pre: extraPre(dbx.PrepU, false), reopen: never},
	{name: "extra preparations for deletion", mode: 0, order: keepOrder, pre: extraPre(dbx.PrepD, true), reopen: never},
	{name: "extra preparations for deletion afterwards", mode: 1, order: reversed, pre: extraPre(dbx.PrepD, false), reopen: never},
	{name: "reads between operations, three CPUs", cpus: 3, mode: 0, order: keepOrder, pre: samePre, reads: true, reopen: never},
	{name: "history enabled, map order descending", hist: true, mode: 1, order: keepOrder, pre: samePre, reads: true, reopen: never},
	{name: "restarts", hist: true, mode: 2, order: reversed, pre: samePre, reopen: func(n int) int { return n % 3 }},
}

func (v variant) run(db *dbx.DB, b dbx.Block, n int, uni []string) {
	vmap.Mode = v.mode
	vruntime.CPUs = v.cpus
	defer func() { vmap.Mode = 0; vruntime.CPUs = 0 }()
	inside := false
	read := func(i int) {
		if !v.reads || len(uni) == 0 {
			return
		}
		for j := 0; j < 2; j++ {
			k := []byte(uni[(n*5+i*3+j)%len(uni)])
			if !inside { // the latest state may not be read while a block is written
				db.A.GetEntry(k)
			}
			if db.Hist {
				db.A.GetEntryAtHeight(k, uint64(b.H-1))
			}
		}
		if i == 0 && !inside {
			db.A.ScanAll(func(k, v []byte) {})
		}
	}
	ops := v.order(n, b.Ops)
	for i, o := range v.pre(n, ops, uni) {
		db.Prepare([]dbx.Op{o})
		read(i)
	}
	db.A.BeginWrite(b.H)
	inside = true
	for i, o := range ops {
		switch o.Kind {
		case dbx.Set:
			db.A.Set([]byte(o.Key), []byte(o.Val))
		case dbx.Del:
			db.A.Delete([]byte(o.Key))
		}
		read(i + 1)
	}
	db.A.EndWrite()
	inside = false
	read(0)
	switch v.reopen(n) {
	case 1:
		db.Reopen()
	case 2:
		db.ReopenNoClose()
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

// noSetDel drops the set+deleted choices of mkBlock.
func plainBlock(h int64, keys []string, code, n int) dbx.Block {
	b := dbx.Block{H: h}
	for i, k := range keys {
		switch code % 3 {
		case 1:
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: val(n*len(keys) + i)})
		case 2:
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k})
		}
		code /= 3
	}
	return b
}

func c06Items(th bool) []hx.Item {
	var its []hx.Item
	nk := 4
	parts := 3
	if th {
		parts = 8
	}
	for _, ks := range keySets {
		for p := 0; p < parts; p++ {
			ks, p := ks, p
			its = append(its, hx.Item{Name: fmt.Sprintf("orders-%s-%d", ks.name, p), Run: func(c *hx.Ctx) { c06Orders(c, ks, nk, p, parts) }})
		}
		vk := 3
		if th {
			vk = 4
		}
		for vi := range variants {
			ks, vi := ks, vi
			its = append(its, hx.Item{Name: fmt.Sprintf("variant%d-%s", vi, ks.name), Run: func(c *hx.Ctx) { c06Variant(c, ks, vk, variants[vi]) }})
		}
	}
	for _, h := range histories(th) {
		if strings.HasPrefix(h.name, "trans") {
			continue
		}
		for vi := range variants {
			h, vi := h, vi
			its = append(its, hx.Item{Name: fmt.Sprintf("variant%d-%s", vi, h.name), Run: func(c *hx.Ctx) { c06Hist(c, h, variants[vi]) }})
		}
	}
	for i, h := range c06AltHist(th) {
		h, i := h, i
		its = append(its, hx.Item{Name: "otherbuild-" + h.name, Run: func(c *hx.Ctx) { c06Alt(c, th, i, h) }})
	}
	return its
}

// c06Orders: canonical order against every other order of the operations.
func c06Orders(c *hx.Ctx, ks keySet, nk, part, parts int) {
	keys := ks.keys[:nk]
	type todoT struct {
		code int
		perm []int
	}
	todo := make([][]todoT, 1<<uint(nk))
	total := 0
	n := 0
	for s := range todo {
		for code := 0; code < pow(3, nk); code++ {
			k := len(plainBlock(0, keys, code, 0).Ops)
			for _, p := range permutations(k) {
				if n%parts == part {
					todo[s] = append(todo[s], todoT{code, p})
					total++
				}
				n++
			}
		}
	}
	a, b := dbx.Fresh(false), dbx.Fresh(false)
	defer func() { a.Done(); b.Done() }()
	m := dbx.NewModel()
	var last []dbx.Block
	h := int64(0)
	n = 0
	step := func(bl dbx.Block, perm []int) {
		ops := bl.Ops
		var po []dbx.Op
		for _, i := range perm {
			po = append(po, ops[i])
		}
		last = append(last, dbx.Block{H: bl.H, Ops: po})
		if len(last) > 6 {
			last = last[1:]
		}
		was := maskOf(m, keys)
		canon.run(a, bl, n, keys)
		v := canon
		v.order = func(int, []dbx.Op) []dbx.Op { return po }
		if n%2 == 1 {
			v.pre = func(n int, o []dbx.Op, u []string) []dbx.Op { return samePre(n, reversed(0, o), u) }
		}
		v.mode = int32(n % 5)
		v.run(b, bl, n, keys)
		m.Apply(bl)
		n++
		c.Add("transitions", 2)
		if a.Root() != b.Root() {
			c.Fail(dbx.Trace(last), "live mask before the last block %b of %x: root %x with the operations in key order, %x in the order shown", was, keys, a.Root(), b.Root())
		}
		if n%3 == 0 {
			lk := liveOf(m, keys)
			if x := dbx.FirstDiff(a.Proofs(lk), b.Proofs(lk)); x != "" {
				c.Fail(dbx.Trace(last), "proofs: %s", x)
			}
		}
	}
	ident := func(b dbx.Block) []int {
		var r []int
		for i := range b.Ops {
			r = append(r, i)
		}
		return r
	}
	for total > 0 {
		if c.TimeUp() {
			return
		}
		s := maskOf(m, keys)
		h += int64(1 + n%2)
		if len(todo[s]) == 0 {
			t := 0
			for t = range todo {
				if len(todo[t]) > 0 {
					break
				}
			}
			b := moveTo(h, m, keys, t, n)
			step(b, ident(b))
			continue
		}
		w := todo[s][len(todo[s])-1]
		todo[s] = todo[s][:len(todo[s])-1]
		total--
		step(plainBlock(h, keys, w.code, n), w.perm)
		c.Eval(s, w.code, fmt.Sprint(w.perm), ks.name)
	}
	c.Add("states", 1<<uint(nk))
	c.Sample(dbx.Trace(last))
}

func lockstep(c *hx.Ctx, name string, steps []step, uni, pk []string, hist bool, v variant, every int) {
	if hist {
		v.hist = true
	}
	a, b := dbx.Fresh(false), dbx.Fresh(v.hist)
	defer func() { a.Done(); b.Done() }()
	m := dbx.NewModel()
	hh := history{name: name, hist: v.hist, steps: steps}
	for i, s := range steps {
		if c.TimeUp() {
			return
		}
		if s.prune > 0 {
			s.do(a, nil)
			s.do(b, nil)
		} else {
			canon.run(a, s.blk, i, uni)
			v.run(b, s.blk, i, uni)
			m.Apply(s.blk)
		}
		c.Add("transitions", 2)
		if a.Root() != b.Root() {
			c.Fail(hh.trace(i), "variant %q: root %x, canonical %x", v.name, b.Root(), a.Root())
		}
		if i%every == 0 {
			lk := liveOf(m, pk)
			if x := dbx.FirstDiff(a.Proofs(lk), b.Proofs(lk)); x != "" {
				c.Fail(hh.trace(i), "variant %q, proofs: %s", v.name, x)
			}
		}
		c.Eval(v.name, b.Root())
	}
	c.Add("states", int64(len(steps)))
}

func c06Variant(c *hx.Ctx, ks keySet, nk int, v variant) {
	keys := ks.keys[:nk]
	m := dbx.NewModel()
	todo := make([][]int, 1<<uint(nk))
	for s := range todo {
		for code := 0; code < pow(3, nk); code++ {
			todo[s] = append(todo[s], code)
		}
	}
	var steps []step
	h := int64(0)
	for n := 0; ; n++ {
		s := maskOf(m, keys)
		h += int64(1 + n%2)
		var b dbx.Block
		if len(todo[s]) > 0 {
			b = plainBlock(h, keys, todo[s][0], n)
			todo[s] = todo[s][1:]
		} else {
			t := -1
			for i := range todo {
				if len(todo[i]) > 0 {
					t = i
					break
				}
			}
			if t < 0 {
				break
			}
			b = moveTo(h, m, keys, t, n)
		}
		m.Apply(b)
		steps = append(steps, step{blk: b})
	}
	lockstep(c, "transitions of "+ks.name, steps, ks.keys, ks.keys, false, v, 1)
}

func c06Hist(c *hx.Ctx, h history, v variant) {
	pk := h.proofKeys()
	if len(pk) > 24 {
		pk = pk[:24]
	}
	lockstep(c, h.name, h.steps, h.uni, pk, h.hist, v, 6)
}

// ---- the other build ----

func c06AltHist(th bool) []history {
	hs := histories(th)
	for i := range hs {
		hs[i].hist = i%2 == 0
	}
	return hs
}

// rootLines runs history i and gives one line per step: root and a digest of proofs.
func rootLines(h history, each func(i int, line string) bool) {
	db := dbx.Fresh(h.hist)
	defer db.Done()
	m := dbx.NewModel()
	pk := h.proofKeys()
	for i, s := range h.steps {
		s.do(db, m)
		d := fnv.New64a()
		if i%3 == 0 {
			fmt.Fprint(d, db.Proofs(liveOf(m, pk)))
		}
		if !each(i, fmt.Sprintf("%x %x", db.Root(), d.Sum64())) {
			return
		}
	}
}

func c06Alt(c *hx.Ctx, th bool, i int, h history) {
	alt := os.Getenv("VERIF_ALT")
	if alt == "" {
		c.Note("the second build is missing")
		return
	}
	cmd := exec.Command(alt, "-roots", fmt.Sprint(th), fmt.Sprint(i))
	out, err := cmd.StdoutPipe()
	if err != nil {
		c.Note(err.Error())
		return
	}
	var errb strings.Builder
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		c.Note(err.Error())
		return
	}
	defer func() { _ = cmd.Process.Kill(); _ = cmd.Wait() }()
	sc := bufio.NewScanner(out)
	rootLines(h, func(j int, line string) bool {
		ok := sc.Scan()
		for ok && !strings.HasPrefix(sc.Text(), "ROOT ") { // the code under test prints too
			ok = sc.Scan()
		}
		if !ok {
			c.Fail(h.trace(j), "the build with other segment and buffer sizes stops at step %d: %.3000s", j, errb.String())
		}
		if got := strings.TrimPrefix(sc.Text(), "ROOT "); got != line {
			c.Fail(h.trace(j), "root and proofs digest %s, in the build with other segment and buffer sizes %s", line, got)
		}
		c.Add("transitions", 2)
		c.Eval("alt", line)
		return !c.TimeUp()
	})
	c.Add("states", int64(len(h.steps)))
}

func printRoots(args []string) {
	var i int
	fmt.Sscan(args[1], &i)
	h := c06AltHist(args[0] == "true")[i]
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	rootLines(h, func(_ int, line string) bool {
		fmt.Fprintln(w, "ROOT "+line)
		return true
	})
}
