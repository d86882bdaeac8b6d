package dbx

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/w/vw"
)

// CrashPlan is the set of crash images of an event log: for every crash point
// (prefix of the log) each file keeps some prefix of its events since its last
// sync (the last kept write may be torn), removals included; key-value batches
// are atomic, ordered, and durable once synced.
type CrashPlan struct {
	base  *vw.World
	log   []vw.Event
	files []string
	evs   map[string][]int // indices into log
	kvs   []int
}

func NewCrashPlan(base *vw.World, log []vw.Event) *CrashPlan {
	p := &CrashPlan{base: base, log: log, evs: map[string][]int{}}
	for i, e := range log {
		switch e.Kind {
		case vw.EvCreate, vw.EvWrite, vw.EvTrunc, vw.EvSync, vw.EvRemove:
			if p.evs[e.Path] == nil {
				p.files = append(p.files, e.Path)
			}
			p.evs[e.Path] = append(p.evs[e.Path], i)
		case vw.EvRename, vw.EvMkdir:
			p.evs[e.Path] = append(p.evs[e.Path], i)
			if len(p.evs[e.Path]) == 1 {
				p.files = append(p.files, e.Path)
			}
		case vw.EvKV:
			p.kvs = append(p.kvs, i)
		}
	}
	sort.Strings(p.files)
	return p
}

// Img names one crash image: how many events of every file and of the
// key-value store are kept, and whether the last kept write of file torn is cut.
type Img struct {
	At    int
	Keep  []int
	KV    int
	Torn  int // index of the file whose last kept write is cut to TornN bytes, -1: none
	TornN int
	Dev   int  // how many files differ from the nearer of all-kept and none-kept
	Final bool // the whole log was issued before the crash
}

func (p *CrashPlan) key(im Img) string {
	var b strings.Builder
	for i, f := range p.files {
		// sync events do not change the content
		n := 0
		for j := 0; j < im.Keep[i]; j++ {
			if p.log[p.evs[f][j]].Kind != vw.EvSync {
				n++
			}
		}
		fmt.Fprintf(&b, "%d,", n)
	}
	fmt.Fprintf(&b, "|%d|%d|%d|%v", im.KV, im.Torn, im.TornN, im.Final)
	return b.String()
}

// Images enumerates the images whose per-file choices differ from "everything
// issued is kept" or from "only synced data is kept" in at most dev files.
// torn: 0 no torn writes, 1 one cut per write, 3 three cuts.
func (p *CrashPlan) Images(dev, torn int) []Img {
	var out []Img
	seen := map[string]bool{}
	add := func(im Img) {
		k := p.key(im)
		if !seen[k] {
			seen[k] = true
			im.Keep = append([]int{}, im.Keep...)
			out = append(out, im)
		}
	}
	for at := 0; at <= len(p.log); at++ {
		if at > 0 && p.log[at-1].Kind == vw.EvMark {
			continue
		}
		lo := make([]int, len(p.files))
		hi := make([]int, len(p.files))
		for i, f := range p.files {
			for j, ix := range p.evs[f] {
				if ix >= at {
					break
				}
				hi[i] = j + 1
				if k := p.log[ix].Kind; k == vw.EvSync || k == vw.EvMkdir {
					lo[i] = j + 1
				}
			}
		}
		kvHi, kvLo := 0, 0
		for j, ix := range p.kvs {
			if ix >= at {
				break
			}
			kvHi = j + 1
			if p.log[ix].Sync {
				kvLo = j + 1
			}
		}
		fin := at == len(p.log)
		for kv := kvLo; kv <= kvHi; kv++ {
			for _, base := range [][]int{hi, lo} {
				var rec func(from, left int, cur []int)
				rec = func(from, left int, cur []int) {
					add(Img{At: at, Keep: cur, KV: kv, Torn: -1, Dev: dev - left, Final: fin})
					if torn > 0 {
						for i, f := range p.files {
							// a write just beyond the kept ones may be partly there
							if cur[i] < hi[i] {
								e := p.log[p.evs[f][cur[i]]]
								if e.Kind == vw.EvWrite && len(e.Data) > 1 {
									for t, n := range []int{1, len(e.Data) / 2, len(e.Data) - 1} {
										if torn == 1 && t != (cur[i]+i)%3 {
											continue
										}
										add(Img{At: at, Keep: cur, KV: kv, Torn: i, TornN: n, Dev: dev - left, Final: fin})
									}
								}
							}
						}
					}
					if left == 0 {
						return
					}
					for i := from; i < len(p.files); i++ {
						was := cur[i]
						for k := lo[i]; k <= hi[i]; k++ {
							if k != was {
								cur[i] = k
								rec(i+1, left-1, cur)
							}
						}
						cur[i] = was
					}
				}
				rec(0, dev, append([]int{}, base...))
			}
		}
	}
	return out
}

// Build makes the world of an image.
func (p *CrashPlan) Build(im Img) *vw.World {
	w := p.base.Clone()
	for i, f := range p.files {
		for j := 0; j < im.Keep[i]; j++ {
			w.Apply(p.log[p.evs[f][j]], -1)
		}
		if im.Torn == i {
			w.Apply(p.log[p.evs[f][im.Keep[i]]], im.TornN)
		}
	}
	for j := 0; j < im.KV; j++ {
		w.Apply(p.log[p.kvs[j]], -1)
	}
	return w
}

func (p *CrashPlan) Describe(im Img) string {
	var b strings.Builder
	fmt.Fprintf(&b, "crash after event %d of %d", im.At, len(p.log))
	if im.At > 0 {
		fmt.Fprintf(&b, " (%s)", p.log[im.At-1])
	}
	fmt.Fprintf(&b, "; key-value batches kept: %d;", im.KV)
	for i, f := range p.files {
		issued := 0
		for _, ix := range p.evs[f] {
			if ix < im.At {
				issued++
			}
		}
		if im.Keep[i] != issued || im.Torn == i {
			fmt.Fprintf(&b, " %s keeps %d of %d events", f, im.Keep[i], issued)
			if im.Torn == i {
				fmt.Fprintf(&b, " plus %d bytes of the next write", im.TornN)
			}
			b.WriteString(";")
		}
	}
	return b.String()
}

// KVTotal is the number of key-value batches in the log.
func (p *CrashPlan) KVTotal() int { return len(p.kvs) }
