package main

import (
	"fmt"

	"verif.local/v/dbx"
	"verif.local/v/hx"
)

// ---- C22: the library's stand-in for a database ----

func init() {
	hx.Register(&hx.Check{
		ID: "C22", Level: "model_checking",
		Rule:        "the in-memory stand-in of a database (NewMoeingADS4Mock): every transition (subset of the keys live) x (per key: untouched, set, deleted, set+deleted, deleted+set) of 4 (thorough 5) keys, and with the further choices prepared for update only and prepared for deletion only of 3 (thorough 4) keys, for 5 key placements, and filling histories over many twigs with compaction and deletions: values, scan order, counts, heights, successor chain, last heights compared with the model after every block; a case is one executed block, distinct by (live set before, block, live set after)",
		Assumptions: dbAssumptions,
		Items:       c22Items,
		Finish:      validated,
	})
}

func mockDiff(un []string) func(db *dbx.DB, m *dbx.Model, b dbx.Block) string {
	return func(db *dbx.DB, m *dbx.Model, b dbx.Block) string {
		u := un
		for _, o := range b.Ops {
			u = append(u, o.Key)
		}
		if s := db.DiffMap(m, u); s != "" {
			return s
		}
		if s := db.DiffChain(m); s != "" {
			return s
		}
		if s := guard(db.A.CheckConsistency); s != "" {
			return "CheckConsistency rejects a consistent state: " + s
		}
		return ""
	}
}

func c22Items(th bool) []hx.Item {
	var its []hx.Item
	var un []string
	for _, ks := range keySets {
		un = append(un, ks.keys...)
	}
	type sz struct{ nk, nch, parts int }
	szs := []sz{{4, cPrepU, 4}, {3, nChoice, 1}}
	if th {
		szs = []sz{{5, cPrepU, 40}, {4, nChoice, 16}}
	}
	for _, z := range szs {
		for p := 0; p < z.parts; p++ {
			for _, ks := range keySets {
				z, p, ks := z, p, ks
				its = append(its, hx.Item{Name: fmt.Sprintf("mock-%s-%dx%d-%d/%d", ks.name, z.nk, z.nch, p, z.parts), Run: func(c *hx.Ctx) {
					db := dbx.Mock()
					defer db.Done()
					walkOn(c, db, ks, z.nk, z.nch, p, z.parts, mockDiff(un))
				}})
			}
		}
	}
	for _, h := range histories(th)[len(keySets):] {
		h := h
		if h.hist && h.name != "bits" {
			continue
		}
		its = append(its, hx.Item{Name: "mock-" + h.name, Run: func(c *hx.Ctx) {
			db := dbx.Mock()
			defer db.Done()
			m := dbx.NewModel()
			diff := mockDiff(h.uni)
			for i, s := range h.steps {
				if c.TimeUp() {
					return
				}
				s.do(db, m) // a prune, too: the stand-in ignores it
				c.Add("transitions", 1)
				if x := diff(db, m, s.blk); x != "" {
					c.Fail(h.trace(i), "after %s: %s", s.blk, x)
				}
				c.Eval(h.name, i)
			}
			c.Add("states", int64(len(h.steps)))
		}})
	}
	return its
}
