// Package hx is the explorer frame shared by all checks: a supervisor hands the
// items of a finite, deterministic enumeration to worker processes, collects
// what they covered, confirms violations by re-running the item in fresh
// processes and writes the evidence file.
package hx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is one property's decision procedure.
type Check struct {
	ID          string
	Level       string // exploration, fault_enumeration, model_checking
	Rule        string
	Assumptions []string
	// Items enumerates the finite space for a tier, in a deterministic order.
	Items func(thorough bool) []Item
	// Known lists findings (by key) that are reported as KNOWN-FINDING instead of VIOLATION.
	// Finish may add derived coverage.
	Finish func(cov map[string]interface{}, counts map[string]int64)
}

type Item struct {
	Name string
	Run  func(c *Ctx)
}

// Ctx is handed to an item; it collects coverage and the first violation.
type Ctx struct {
	Thorough bool
	Seed     int64
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	viol     string
	replay   string
	known    map[string]string
	deadline time.Time
	capped   bool
	notes    []string
	lastBeat time.Time
	beat     func()
	trace    string
	prop     string
}

type violation struct{ msg, replay string }

// Fail reports a violation and stops the item. trace describes how to reach it.
func (c *Ctx) Fail(trace string, format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...), trace})
}

// Add adds to a coverage counter.
func (c *Ctx) Add(name string, n int64) {
	c.counts[name] += n
	if c.beat != nil && time.Since(c.lastBeat) > time.Second {
		c.lastBeat = time.Now()
		c.beat()
	}
}

// Eval counts one evaluated case and its outcome.
func (c *Ctx) Eval(parts ...interface{}) {
	c.Add("evaluations", 1)
	c.Outcome(parts...)
}

// Outcome records an observed outcome (counted distinct).
func (c *Ctx) Outcome(parts ...interface{}) {
	if len(parts) == 0 {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0})
	}
	c.distinct[h.Sum64()] = struct{}{}
}

// Sample keeps an example (a few per item).
func (c *Ctx) Sample(s string) {
	if len(c.samples) < 2 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Known reports that a listed known finding was observed; a key the committed
// list does not hold for this property is a violation like any other.
func (c *Ctx) Known(key, trace, msg string) {
	if !listed(c.prop, key) {
		c.Fail(trace, "%s", msg)
	}
	if c.known[key] == "" {
		c.known[key] = msg
	}
}

var knownList map[string]bool

// listed reads known_findings.txt: lines "known: property=<id> <key> <text>".
func listed(prop, key string) bool {
	if knownList == nil {
		knownList = map[string]bool{}
		b, _ := os.ReadFile(filepath.Join(Root(), "known_findings.txt"))
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) >= 3 && f[0] == "known:" {
				knownList[f[1]+" "+f[2]] = true
			}
		}
	}
	return knownList["property="+prop+" "+key]
}

// Trace sets the description used when the item ends by a panic (or the process
// dies) instead of Fail.
func (c *Ctx) Trace(s string) {
	c.trace = s
	if f := os.Getenv("VERIF_TRACEFILE"); f != "" {
		_ = os.WriteFile(f, []byte(s), 0644)
	}
}

// Note puts a remark into the evidence.
func (c *Ctx) Note(s string) { c.notes = append(c.notes, s) }

// TimeUp tells a long item that the run's time budget is spent; an item that
// stops early because of it makes the run non-exhaustive.
func (c *Ctx) TimeUp() bool {
	if time.Now().After(c.deadline) {
		c.capped = true
		return true
	}
	return false
}

// Left returns the remaining budget.
func (c *Ctx) Left() time.Duration { return time.Until(c.deadline) }

type result struct {
	Kind     string            `json:"k"` // "done", "beat", "ready"
	Idx      int               `json:"i"`
	Counts   map[string]int64  `json:"c,omitempty"`
	Distinct []uint64          `json:"d,omitempty"`
	Samples  []string          `json:"s,omitempty"`
	Viol     string            `json:"v,omitempty"`
	Replay   string            `json:"r,omitempty"`
	Known    map[string]string `json:"n,omitempty"`
	Capped   bool              `json:"cap,omitempty"`
	Notes    []string          `json:"notes,omitempty"`
}

var checks = map[string]*Check{}

func Register(c *Check) { checks[c.ID] = c }

func runItem(ck *Check, it Item, c *Ctx) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				c.viol, c.replay = v.msg, v.replay
				return
			}
			c.viol = fmt.Sprintf("panic: %v", r)
			c.replay = c.trace + "\n" + string(debug.Stack())
		}
	}()
	it.Run(c)
}

func newCtx(thorough bool, seed int64, deadline time.Time) *Ctx {
	return &Ctx{Thorough: thorough, Seed: seed, counts: map[string]int64{}, distinct: map[uint64]struct{}{}, known: map[string]string{}, deadline: deadline}
}

func worker(ck *Check, thorough bool, seed int64, deadline time.Time) {
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	items := ck.Items(thorough)
	var mu sync.Mutex
	send := func(r result) {
		mu.Lock()
		_ = enc.Encode(r)
		mu.Unlock()
	}
	send(result{Kind: "ready", Idx: len(items)})
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		i, err := strconv.Atoi(strings.TrimSpace(in.Text()))
		if err != nil || i < 0 || i >= len(items) {
			return
		}
		c := newCtx(thorough, seed, deadline)
		c.prop = ck.ID
		c.beat = func() { send(result{Kind: "beat", Idx: i}) }
		runItem(ck, items[i], c)
		d := make([]uint64, 0, len(c.distinct))
		for h := range c.distinct {
			d = append(d, h)
		}
		send(result{Kind: "done", Idx: i, Counts: c.counts, Distinct: d, Samples: c.samples, Viol: c.viol, Replay: c.replay, Known: c.known, Capped: c.capped, Notes: c.notes})
		if c.viol != "" {
			// the process may hold broken state: start over with a fresh one
			os.Exit(0)
		}
	}
}

type proc struct {
	tf   string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	outF *os.File
	errb *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 24000 {
		// keep the head (first panic lines) and the tail
		t.b = append(append([]byte{}, t.b[:12000]...), t.b[len(t.b)-8000:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func start(id string, thorough bool, seed int64, deadline time.Time) (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	cmd := exec.Command(exe, "-worker", id, tier, strconv.FormatInt(seed, 10), strconv.FormatInt(deadline.Unix(), 10))
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	cmd.Stderr = t
	cmd.Stdout = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	tf := ""
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		if f, err := os.CreateTemp(d, "trace"); err == nil {
			tf = f.Name()
			f.Close()
		}
	}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "VERIF_TRACEFILE="+tf)
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &proc{tf, cmd, in, bufio.NewReaderSize(r, 1<<20), r, t}, nil
}

func (p *proc) lastTrace() string {
	if p.tf == "" {
		return ""
	}
	b, _ := os.ReadFile(p.tf)
	if len(b) == 0 {
		return ""
	}
	return string(b) + "\n"
}

func (p *proc) kill() {
	if p == nil {
		return
	}
	if p.tf != "" {
		_ = os.Remove(p.tf)
	}
	_ = p.cmd.Process.Kill()
	p.in.Close()
	_ = p.cmd.Wait()
	p.outF.Close()
}

// one runs item i on p, waiting at most idle without any sign of life.
func (p *proc) one(i int, idle time.Duration) (res *result, died string, hung bool) {
	if i >= 0 {
		fmt.Fprintf(p.in, "%d\n", i)
	}
	type lineT struct {
		r   *result
		err error
	}
	ch := make(chan lineT, 4)
	done := make(chan struct{})
	defer close(done)
	go func() {
		for {
			b, err := p.out.ReadBytes('\n')
			var r *result
			if err == nil {
				r = &result{}
				if e := json.Unmarshal(b, r); e != nil {
					err = e
				}
			}
			select {
			case ch <- lineT{r, err}:
			case <-done:
				return
			}
			if err != nil || r.Kind != "beat" {
				return
			}
		}
	}()
	for {
		select {
		case l := <-ch:
			if l.err != nil {
				_ = p.cmd.Wait()
				st := p.cmd.ProcessState
				if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					return nil, "killed", false
				}
				return nil, "process ended: " + st.String() + "\n" + p.lastTrace() + p.errb.String(), false
			}
			if l.r.Kind == "beat" {
				continue
			}
			return l.r, "", false
		case <-time.After(idle):
			_ = p.cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(500 * time.Millisecond)
			_ = p.cmd.Process.Kill()
			return nil, "no progress for " + idle.String() + "\n" + p.lastTrace() + p.errb.String(), true
		}
	}
}

func idleLimit() time.Duration { return 150 * time.Second }

// Main is the entry point of every harness binary.
func Main() {
	args := os.Args[1:]
	if len(args) >= 5 && args[0] == "-worker" {
		debug.SetGCPercent(200)
		ck := checks[args[1]]
		seed, _ := strconv.ParseInt(args[3], 10, 64)
		dl, _ := strconv.ParseInt(args[4], 10, 64)
		worker(ck, args[2] == "thorough", seed, time.Unix(dl, 0))
		return
	}
	if len(args) == 0 {
		fmt.Println("usage: h ID [-list|-item NAME]")
		os.Exit(2)
	}
	ck := checks[args[0]]
	if ck == nil {
		fmt.Println("unknown check", args[0])
		os.Exit(2)
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if len(args) >= 2 && args[1] == "-list" {
		for i, it := range ck.Items(thorough) {
			fmt.Println(i, it.Name)
		}
		return
	}
	if len(args) >= 3 && args[1] == "-item" {
		for i, it := range ck.Items(thorough) {
			if it.Name == args[2] || strconv.Itoa(i) == args[2] {
				c := newCtx(thorough, seed, time.Now().Add(time.Hour))
				c.prop = ck.ID
				if f := os.Getenv("VERIF_PROF"); f != "" {
					if w, err := os.Create(f); err == nil {
						_ = pprof.StartCPUProfile(w)
						defer pprof.StopCPUProfile()
					}
				}
				t0 := time.Now()
				runItem(ck, it, c)
				fmt.Fprintf(os.Stderr, "item %s: counts=%v distinct=%d viol=%s\n%s\nknown=%v wall=%v\n", it.Name, c.counts, len(c.distinct), c.viol, c.replay, c.known, time.Since(t0))
				if c.viol != "" {
					os.Exit(1)
				}
				return
			}
		}
		os.Exit(2)
	}
	os.Exit(supervise(ck, thorough, seed))
}

func supervise(ck *Check, thorough bool, seed int64) int {
	t0 := time.Now()
	budget := 450 * time.Second
	if thorough {
		budget = 720 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	deadline := t0.Add(budget)
	items := ck.Items(thorough)
	n := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		if k, err := strconv.Atoi(s); err == nil && k > 0 {
			n = k
		}
	}
	if n > len(items) {
		n = len(items)
	}
	if n < 1 {
		n = 1
	}
	var (
		mu       sync.Mutex
		next     int
		doneN    int
		counts   = map[string]int64{}
		distinct = map[uint64]struct{}{}
		samples  []string
		notes    []string
		known    = map[string]string{}
		capped   bool
		vItem    = -1
		vMsg     string
		vReplay  string
		unconf   []string
		slow     []string
	)
	confirm := func(i int, msg, replay string, hung bool) bool {
		tries, need := 5, 1
		idle := idleLimit()
		if hung {
			tries = 1
			idle = idleLimit() + 30*time.Second
		}
		hit := 0
		for k := 0; k < tries; k++ {
			p, err := start(ck.ID, thorough, seed, time.Now().Add(10*time.Minute))
			if err != nil {
				continue
			}
			r, died, hg := p.one(-1, idle)
			if r == nil && died != "" && died != "killed" {
				hit++
				p.kill()
				if hit >= need {
					return true
				}
				continue
			}
			r, died, hg = p.one(i, idle)
			p.kill()
			if (r != nil && r.Viol != "") || (r == nil && died != "killed" && !hung) || (hung && hg) {
				hit++
				if hit >= need {
					return true
				}
			}
		}
		return false
	}
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() { p.kill() }()
			fails := 0
			for {
				mu.Lock()
				if vItem >= 0 || next >= len(items) || fails > 20 {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					capped = true
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				var r *result
				var died string
				var hung bool
				for attempt := 0; attempt < 3; attempt++ {
					if p == nil {
						var err error
						p, err = start(ck.ID, thorough, seed, deadline)
						if err != nil {
							fails++
							time.Sleep(100 * time.Millisecond)
							continue
						}
						if r0, d0, _ := p.one(-1, 10*time.Minute); r0 == nil {
							// the enumeration itself failed
							p.kill()
							p = nil
							died = d0
							if d0 == "killed" {
								time.Sleep(time.Second)
								continue
							}
							break
						}
					}
					ti := time.Now()
					r, died, hung = p.one(i, idleLimit())
					if d := time.Since(ti); d > 15*time.Second {
						mu.Lock()
						slow = append(slow, fmt.Sprintf("%s %.0fs", items[i].Name, d.Seconds()))
						mu.Unlock()
					}
					if r != nil {
						break
					}
					p.kill()
					p = nil
					if died != "killed" {
						break
					}
					time.Sleep(time.Second)
				}
				if r == nil && (died == "killed" || died == "") {
					mu.Lock()
					capped = true
					notes = append(notes, "item not finished (worker killed): "+items[i].Name)
					mu.Unlock()
					continue
				}
				if r != nil && r.Viol != "" {
					p.kill()
					p = nil
				}
				if r == nil || r.Viol != "" {
					msg, rep := died, died
					if r != nil {
						msg, rep = r.Viol, r.Replay
					}
					ok := confirm(i, msg, rep, hung)
					mu.Lock()
					if ok && vItem < 0 {
						vItem, vMsg, vReplay = i, msg, rep
					} else if !ok {
						unconf = append(unconf, items[i].Name+": "+first(msg, 300))
						capped = true
					}
					mu.Unlock()
					continue
				}
				mu.Lock()
				doneN++
				for k, v := range r.Counts {
					counts[k] += v
				}
				for _, h := range r.Distinct {
					distinct[h] = struct{}{}
				}
				for _, s := range r.Samples {
					if len(samples) < 6 {
						samples = append(samples, items[i].Name+": "+s)
					}
				}
				for k, v := range r.Known {
					known[k] = v
				}
				for _, s := range r.Notes {
					if len(notes) < 40 {
						notes = append(notes, s)
					}
				}
				if r.Capped {
					capped = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(samples) == 0 && len(items) > 0 {
		samples = append(samples, "item "+items[0].Name)
	}
	cov := map[string]interface{}{
		"rule":              ck.Rule,
		"samples":           samples,
		"exhaustive":        !capped && doneN == len(items) && vItem < 0,
		"items_total":       len(items),
		"items_done":        doneN,
		"distinct_outcomes": len(distinct),
	}
	for k, v := range counts {
		cov[k] = v
	}
	if ck.Level == "exploration" || ck.Level == "fault_enumeration" {
		cov["distinct_nontrivial"] = len(distinct)
		delete(cov, "distinct_outcomes")
		if _, ok := cov["evaluations"]; !ok {
			cov["evaluations"] = counts["transitions"]
		}
	}
	if ck.Finish != nil {
		ck.Finish(cov, counts)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(unconf) > 0 {
		cov["unreproduced"] = unconf
	}
	if len(slow) > 0 {
		cov["slow_items"] = slow
	}
	nviol := 0
	rc := 0
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.ID, k, known[k])
	}
	if len(ks) > 0 {
		cov["known_findings_seen"] = ks
	}
	if vItem >= 0 {
		nviol = 1
		rc = 1
		dir := filepath.Join(Root(), "evidence", "replay")
		_ = os.MkdirAll(dir, 0755)
		rp := filepath.Join(dir, ck.ID+".txt")
		tier := "quick"
		if thorough {
			tier = "thorough"
		}
		body := fmt.Sprintf("property %s\nitem %d %s\nreplay: VERIF_TIER=%s bash /verif/run.sh %s -item %d\n\n%s\n\n%s\n", ck.ID, vItem, items[vItem].Name, tier, ck.ID, vItem, vMsg, vReplay)
		_ = os.WriteFile(rp, []byte(body), 0644)
		fmt.Printf("%s: %s\n", items[vItem].Name, first(vMsg, 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, rp)
	}
	WriteEvidence(ck, thorough, seed, cov, time.Since(t0), nviol)
	if rc == 0 {
		_ = os.Remove(filepath.Join(Root(), "evidence", "replay", ck.ID+".txt"))
		fmt.Printf("%s: held on everything explored: items %d/%d, %v, distinct %d, %.1fs\n", ck.ID, doneN, len(items), counts, len(distinct), time.Since(t0).Seconds())
		for _, u := range unconf {
			fmt.Println("note: not reproduced:", u)
		}
	}
	return rc
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Root is the verification tree.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func WriteEvidence(ck *Check, thorough bool, seed int64, cov map[string]interface{}, wall time.Duration, nviol int) {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assumptions, "wall_s": wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(Root(), "evidence"), 0755)
	_ = os.WriteFile(filepath.Join(Root(), "evidence", ck.ID+".json"), append(b, '\n'), 0644)
}
