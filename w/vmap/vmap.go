// Package vmap gives map iteration an order the harness decides.
package vmap

import (
	"fmt"
	"sort"
	"sync/atomic"
)

// Mode: 0 ascending, 1 descending, k>=2: ascending rotated by k-1.
var Mode int32

// Multi counts iterations over maps with at least two elements.
var Multi int64

type Pair[K comparable, V any] struct {
	K K
	m map[K]V
}

func (p Pair[K, V]) OK() bool { _, ok := p.m[p.K]; return ok }
func (p Pair[K, V]) V() V     { return p.m[p.K] }

func Pairs[K comparable, V any, M ~map[K]V](m M) []Pair[K, V] {
	r := make([]Pair[K, V], 0, len(m))
	for k := range m {
		r = append(r, Pair[K, V]{k, m})
	}
	if len(r) > 1 {
		atomic.AddInt64(&Multi, 1)
	}
	var less func(i, j int) bool
	switch x := any(r).(type) {
	case []Pair[string, V]:
		less = func(i, j int) bool { return x[i].K < x[j].K }
	case []Pair[int64, V]:
		less = func(i, j int) bool { return x[i].K < x[j].K }
	case []Pair[int, V]:
		less = func(i, j int) bool { return x[i].K < x[j].K }
	case []Pair[uint64, V]:
		less = func(i, j int) bool { return x[i].K < x[j].K }
	case []Pair[[1]byte, V]:
		less = func(i, j int) bool { return x[i].K[0] < x[j].K[0] }
	case []Pair[[8]byte, V]:
		less = func(i, j int) bool { return string(x[i].K[:]) < string(x[j].K[:]) }
	default:
		s := make([]string, len(r))
		idx := make([]int, len(r))
		for i := range r {
			s[i] = fmt.Sprintf("%020v", r[i].K)
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return s[idx[i]] < s[idx[j]] })
		q := make([]Pair[K, V], len(r))
		for i, j := range idx {
			q[i] = r[j]
		}
		r = q
	}
	if less != nil {
		sort.Slice(r, less)
	}
	n := len(r)
	switch md := int(atomic.LoadInt32(&Mode)); {
	case md == 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	case md > 1 && n > 0:
		k := (md - 1) % n
		r = append(append([]Pair[K, V](nil), r[k:]...), r[:k]...)
	}
	return r
}
