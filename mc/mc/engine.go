package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/xeipuuv/gojsonschema/verifshim"
)

// Case is one replayable unit of exploration: a bounded behaviour of the real library
// together with the judgement of the reference model. Cases serialise to JSON.
type Case interface {
	Kind() string
	Run(st *Stat) *Fail
}

// Fail says how a case broke the property. Min, if set, is a smaller case that should fail too.
type Fail struct {
	Msg string
	Min Case
}

func failf(format string, a ...interface{}) *Fail { return &Fail{Msg: fmt.Sprintf(format, a...)} }

var kinds = map[string]func() Case{}

// Stat counts what one worker covered.
type Stat struct {
	States      int64 // distinct programs/histories/states enumerated
	Transitions int64 // model steps
	Traces      int64 // executions of the implementation compared with the model
	Outcomes    map[string]int64
}

func newStat() *Stat { return &Stat{Outcomes: map[string]int64{}} }

func (s *Stat) outcome(o string) { s.Outcomes[o]++ }

func (s *Stat) add(o *Stat) {
	s.States += o.States
	s.Transitions += o.Transitions
	s.Traces += o.Traces
	for k, n := range o.Outcomes {
		s.Outcomes[k] += n
	}
}

// SectionReport is the coverage of one part of the enumeration.
type SectionReport struct {
	Name     string `json:"name"`
	Bound    string `json:"bound,omitempty"`
	Orders   string `json:"map_orders,omitempty"`
	Cases    int64  `json:"cases"`
	Traces   int64  `json:"executions"`
	Complete bool   `json:"complete"`
	Seconds  string `json:"seconds"`
}

// Ctx is one run of one check.
type Ctx struct {
	ID       string
	Tier     string
	Deadline time.Time
	Workers  int
	Level    string
	Assume   []string
	Rule     string

	total    *Stat
	sections []*SectionReport
	samples  []interface{}
	notes    []string
	complete bool
	extra    map[string]interface{}
	mapCase  func(Case) Case // applied to every case that is emitted
	skip     func(section string) bool
	once     []int // run sections in these map orders only

	shard, shards int // this process runs the cases with number shard modulo shards

	viol    atomic.Pointer[violation]
	flaky   int64
	slots   []byte
	started time.Time
	cur     [64]atomic.Int64 // start time of the case in each worker
}

type violation struct {
	msg    string
	replay string
}

// Thorough tells whether the thorough tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick chooses a bound by tier.
func (c *Ctx) Pick(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) stop() bool { return c.viol.Load() != nil || time.Now().After(c.Deadline) }

// Section enumerates the cases that gen emits and runs all of them, once per map order.
func (c *Ctx) Section(name, bound string, orders []int, gen func(emit func(Case))) {
	if f := os.Getenv("MC_ONLY"); f != "" && !strings.Contains(name, f) {
		return
	}
	if c.skip != nil && c.skip(name) {
		return
	}
	if c.mapCase != nil {
		inner := gen
		gen = func(emit func(Case)) { inner(func(cs Case) { emit(c.mapCase(cs)) }) }
	}
	t0 := time.Now()
	rep := &SectionReport{Name: name, Bound: bound, Complete: true}
	c.sections = append(c.sections, rep)
	if c.once != nil {
		orders = c.once
	}
	var on []string
	for _, o := range orders {
		on = append(on, orderName(o))
		if !c.explore(rep, name, o, gen) {
			rep.Complete = false
			c.complete = false
		}
	}
	rep.Orders = strings.Join(on, ",")
	rep.Seconds = fmt.Sprintf("%.1f", time.Since(t0).Seconds())
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%s %-40s cases=%d exec=%d %s s\n", c.ID, name, rep.Cases, rep.Traces, rep.Seconds)
	}
}

func orderName(o int) string {
	switch o {
	case verifshim.Ascending:
		return "ascending"
	case verifshim.Descending:
		return "descending"
	}
	return "chosen"
}

var (
	asc  = []int{verifshim.Ascending}
	both = []int{verifshim.Ascending, verifshim.Descending}
)

type stopGen struct{}

func (c *Ctx) explore(rep *SectionReport, name string, order int, gen func(emit func(Case))) (done bool) {
	if c.stop() {
		return false
	}
	verifshim.Order = order
	ch := make(chan []Case, 64)
	var wg sync.WaitGroup
	stats := make([]*Stat, c.Workers)
	var cases int64
	for i := 0; i < c.Workers; i++ {
		stats[i] = newStat()
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for chunk := range ch {
				for _, cs := range chunk {
					if c.stop() {
						break
					}
					c.runOne(w, order, cs, stats[w])
				}
			}
		}(i)
	}
	done = true
	var buf []Case
	chunk := 16
	if c.Workers == 1 {
		chunk = 1
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopGen); !ok {
					panic(r)
				}
				done = false
			}
		}()
		seen := -1
		gen(func(cs Case) {
			if seen++; c.shards > 0 && seen%c.shards != c.shard {
				return
			}
			cases++
			if len(c.samples) < 12 && cases%997 == 1 {
				c.sample(name, cs)
			}
			buf = append(buf, cs)
			if len(buf) >= chunk {
				if c.stop() {
					panic(stopGen{})
				}
				ch <- buf
				buf = nil
			}
		})
	}()
	if len(buf) > 0 {
		ch <- buf
	}
	close(ch)
	wg.Wait()
	if c.stop() {
		done = false
	}
	for _, s := range stats {
		rep.Traces += s.Traces
		c.total.add(s)
	}
	rep.Cases += cases
	return done
}

func (c *Ctx) sample(section string, cs Case) {
	b, _ := json.Marshal(cs)
	var x interface{}
	json.Unmarshal(b, &x)
	if len(b) > 1500 {
		x = string(b[:1500]) + "..."
	}
	c.samples = append(c.samples, map[string]interface{}{"section": section, "kind": cs.Kind(), "case": x})
}

// Replay is the artefact of a violation.
type Replay struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"`
	Order    int             `json:"map_order"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	HowTo    string          `json:"how_to_replay"`
}

func (c *Ctx) encode(cs Case, order int, msg string) []byte {
	b, err := json.Marshal(cs)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprintf("%+v", cs))
	}
	r, _ := json.MarshalIndent(Replay{c.ID, cs.Kind(), order, msg, b, "cd /verif && ./check replay THIS_FILE"}, "", " ")
	return r
}

const slotSize = 1 << 18

func (c *Ctx) runOne(w, order int, cs Case, st *Stat) {
	if c.slots != nil {
		w := w + c.shard
		slot := c.slots[w*slotSize : (w+1)*slotSize]
		b, _ := json.Marshal(Replay{Property: c.ID, Kind: cs.Kind(), Order: order, Case: mustJSON(cs)})
		if len(b) < slotSize-1 {
			copy(slot, b)
			slot[len(b)] = 0
		}
	}
	c.cur[w].Store(time.Now().UnixNano())
	f := safeRun(cs, st)
	c.cur[w].Store(0)
	if f == nil || c.viol.Load() != nil {
		return
	}
	c.confirm(order, cs, f)
}

func mustJSON(cs Case) json.RawMessage {
	b, err := json.Marshal(cs)
	if err != nil {
		b, _ = json.Marshal(err.Error())
	}
	return b
}

func safeRun(cs Case, st *Stat) (f *Fail) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if i := strings.Index(stack, "panic("); i >= 0 {
				stack = stack[i:]
			}
			if len(stack) > 3000 {
				stack = stack[:3000]
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") || ok && strings.HasPrefix(s, "model:") {
				fmt.Fprintln(os.Stderr, "INTERNAL", s, stack)
				b, _ := json.Marshal(cs)
				fmt.Fprintln(os.Stderr, string(b))
				os.Exit(2)
			}
			f = failf("panic: %v\n%s", r, stack)
		}
	}()
	return cs.Run(st)
}

// roundTrip rebuilds a case from its serialised form, so that what is confirmed is what is replayed.
func roundTrip(cs Case) Case {
	mk := kinds[cs.Kind()]
	if mk == nil {
		return cs
	}
	n := mk()
	if err := json.Unmarshal(mustJSON(cs), n); err != nil {
		return cs
	}
	return n
}

var confirmMu sync.Mutex

func (c *Ctx) confirm(order int, cs Case, f *Fail) {
	confirmMu.Lock()
	defer confirmMu.Unlock()
	if c.viol.Load() != nil {
		return
	}
	cands := []Case{cs}
	if f.Min != nil {
		cands = []Case{f.Min, cs}
	}
	for _, cand := range cands {
		for i := 0; i < 5; i++ {
			if g := safeRun(roundTrip(cand), newStat()); g != nil {
				c.report(order, cand, g.Msg)
				return
			}
		}
	}
	if atomic.AddInt64(&c.flaky, 1) >= 3 {
		// the harness is deterministic: the library answers differently for the same input
		c.report(order, cs, "three cases failed and then did not fail when repeated on their own: the outcome depends on something other than the input. Last one: "+f.Msg)
		return
	}
	if len(c.notes) < 20 {
		c.notes = append(c.notes, "not reproduced on 5 re-runs, not counted: "+f.Msg)
	}
}

func (c *Ctx) report(order int, cs Case, msg string) {
	b := c.encode(cs, order, msg)
	if k := knownFinding(c.ID, string(mustJSON(cs))); k != "" {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
		return
	}
	p := writeReplay(c.ID, b)
	c.viol.CompareAndSwap(nil, &violation{msg, p})
}

func writeReplay(id string, b []byte) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, id+".json")
	os.WriteFile(p, b, 0o644)
	return p
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// knownFinding looks a failing case up in the committed list of known findings.
func knownFinding(id, key string) string {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C01 case=<json> :: description
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" case=")
		if !ok {
			continue
		}
		if cs, desc, ok := strings.Cut(rest, " :: "); ok && cs == key {
			return desc
		}
	}
	return ""
}

func heapBytes() uint64 {
	l := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(l)
	return l[0].Value.Uint64()
}

// watchMemory ends a process that runs one case when it uses far more memory than any case needs.
func watchMemory() {
	for {
		time.Sleep(100 * time.Millisecond)
		if heapBytes() > 3<<30 {
			fmt.Println("it uses more than 3 GB of memory (all cases together normally use less)")
			os.Exit(6)
		}
	}
}

func (c *Ctx) watchdog(limit time.Duration) {
	share := uint64(14 << 30)
	if c.shards > 0 {
		share = 4 << 30
	}
	for {
		time.Sleep(200 * time.Millisecond)
		if heapBytes() > share {
			fmt.Fprintln(os.Stderr, "MEMORY")
			os.WriteFile(os.Getenv("MC_SLOTS")+".hang", []byte("memory"), 0o644)
			os.Exit(3)
		}
		for w := range c.cur {
			if t := c.cur[w].Load(); t != 0 && time.Since(time.Unix(0, t)) > limit {
				fmt.Fprintf(os.Stderr, "HANG worker=%d\n", w+c.shard)
				os.WriteFile(os.Getenv("MC_SLOTS")+".hang", []byte(fmt.Sprint(w)), 0o644)
				os.Exit(3)
			}
		}
	}
}

// runCheck runs one check in this process and returns the exit code.
func runCheck(id, tier string) int {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	chk := checks[id]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	limit := 420 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
		if s := os.Getenv("MC_THOROUGH_SECONDS"); s != "" {
			if d, err := time.ParseDuration(s + "s"); err == nil {
				limit = d
			}
		}
	}
	c := &Ctx{ID: id, Tier: tier, Deadline: time.Now().Add(limit), Workers: runtime.NumCPU(),
		Level: "model_checking", total: newStat(), complete: true, started: time.Now(), extra: map[string]interface{}{}}
	if c.Workers > 16 {
		c.Workers = 16
	}
	if sharded[id] {
		if os.Getenv("MC_SHARD") == "" {
			return runShards(c)
		}
		fmt.Sscanf(os.Getenv("MC_SHARD"), "%d/%d", &c.shard, &c.shards)
		c.Workers = 1
	}
	if p := os.Getenv("MC_SLOTS"); p != "" {
		if f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o644); err == nil {
			f.Truncate(16 * slotSize)
			if m, err := syscall.Mmap(int(f.Fd()), 0, 16*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				c.slots = m
			}
			f.Close()
		}
	}
	go c.watchdog(120 * time.Second)
	if p := os.Getenv("MC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	chk(c)
	n := 0
	if c.viol.Load() != nil {
		n = 1
	}
	if c.shards > 0 {
		return c.shardResult()
	}
	return c.finish(n)
}

// finish writes the evidence and prints the verdict.
func (c *Ctx) finish(n int) int {
	c.evidence(n)
	id, tier := c.ID, c.Tier
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d outcomes=%d complete=%v wall=%.1fs\n", id, tier,
		c.total.States, c.total.Transitions, c.total.Traces, len(c.total.Outcomes), c.complete, time.Since(c.started).Seconds())
	if v := c.viol.Load(); v != nil {
		fmt.Println(firstLines(v.msg, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.replay)
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (c *Ctx) evidence(violations int) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	type kv struct {
		k string
		n int64
	}
	var out []kv
	for k, n := range c.total.Outcomes {
		out = append(out, kv{k, n})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].k < out[j].k })
	outcomes := map[string]int64{}
	for i, o := range out {
		if i < 200 {
			outcomes[o.k] = o.n
		}
	}
	cov := map[string]interface{}{
		"states":                        c.total.States,
		"transitions":                   c.total.Transitions,
		"traces_validated_against_impl": c.total.Traces,
		"distinct_outcomes":             len(c.total.Outcomes),
		"outcomes":                      outcomes,
		"sections":                      c.sections,
		"samples":                       c.samples,
		"exhaustive":                    c.complete && violations == 0,
		"map_order_controlled":          verifshim.Instrumented,
		"not_reproduced":                c.flaky,
		"rule":                          c.Rule,
	}
	if c.Level == "fault_enumeration" || c.Level == "exploration" {
		cov["evaluations"] = c.total.Traces
		cov["distinct_nontrivial"] = c.total.States
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(c.started).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
}
