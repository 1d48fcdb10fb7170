package verifshim

import (
	"sync"
	"time"
)

// The controlled scheduler. The goroutines of one run execute one at a time; a goroutine gives
// up control only at a point (before it acquires a lock, before an atomic operation, where the
// harness asks for it). Which goroutine goes on at a point is read from a script, so that the
// explorer can enumerate all schedules. Handing over control is invisible to the race detector,
// so that accesses which only the schedule orders still count as races.
//
// Nothing in this file may use maps, append or closures in functions marked norace: those are
// instrumented all the same.

// Op is what a goroutine wants to do next.
type Op int32

// Operations at points.
const (
	OpNone     Op = iota
	OpRLock       // enabled unless a writer waits or holds the lock
	OpAnnounce    // become the waiting writer: enabled unless there is one
	OpAcquire     // the waiting writer gets the lock: enabled when the readers are gone
	OpMutex       // enabled unless held
	OpOnce        // enabled unless somebody is inside
	OpFlag        // enabled when N is set
)

// Object is the scheduler's view of a synchronisation object.
type Object struct {
	Readers int32
	Ann     bool
	Act     bool
	N       int32
	run     uint32
}

// Resetter forgets everything about a synchronisation object.
type Resetter interface{ VerifReset() }

const (
	maxWorkers = 8
	maxChoices = 1 << 14
	maxObjects = 1 << 10
)

type worker struct {
	ch     chan struct{}
	g      uint64
	done   bool
	native bool // blocked in an operation that the scheduler does not control
	op     Op
	obj    *Object
}

// Choice is one decision: who could go on, who was running, who went on.
type Choice struct {
	Mask   uint8
	Cur    int8
	Chosen uint8
}

var s struct {
	mu       sync.Mutex
	active   bool
	ws       [maxWorkers]worker
	n        int
	cur      int // the worker in control, -1: none
	run      uint32
	abort    bool
	deadlock bool
	stuck    bool
	diverged bool
	progress int64
	streak   int
	objs     [maxObjects]Resetter
	nobjs    int
	choices  [maxChoices]Choice
	nchoice  int
	script   [maxChoices]uint8
	nscript  int
	clock    int64
	stamp    [maxWorkers]*int64 // set to the time of the next point the worker passes
}

// Goid identifies the running goroutine; set by the explorer.
var Goid func() uint64

// Aborted is the panic value that unwinds a goroutine after a deadlock.
type Aborted struct{}

// Active tells whether a controlled run is going on.
//
//go:norace
func Active() bool { return s.active }

// Self is the index of the calling worker, or -1.
//
//go:norace
func Self() int {
	if !s.active {
		return -1
	}
	g := Goid()
	for i := 0; i < s.n; i++ {
		if s.ws[i].g == g && !s.ws[i].done {
			return i
		}
	}
	return -1
}

// Register remembers an object, so that it can be reset when the run is over.
//
//go:norace
func Register(o *Object, r Resetter) {
	raceOff()
	s.mu.Lock()
	if o.run != s.run {
		o.run = s.run
		o.Readers, o.Ann, o.Act = 0, false, false
		if o.N == 1 {
			o.N = 0
		}
		if s.nobjs < maxObjects {
			s.objs[s.nobjs] = r
			s.nobjs++
		}
	}
	s.mu.Unlock()
	raceOn()
}

//go:norace
func enabled(w *worker) bool {
	if w.done || w.native {
		return false
	}
	o := w.obj
	switch w.op {
	case OpRLock:
		return !o.Ann && !o.Act
	case OpAnnounce:
		return !o.Ann && !o.Act
	case OpAcquire:
		return o.Readers == 0
	case OpMutex:
		return !o.Act
	case OpOnce:
		return o.N != 1
	case OpFlag:
		return o.N != 0
	}
	return true
}

//go:norace
func apply(w *worker) {
	o := w.obj
	switch w.op {
	case OpRLock:
		o.Readers++
	case OpAnnounce:
		o.Ann = true
		if o.Readers == 0 {
			o.Ann, o.Act = false, true
		}
	case OpAcquire:
		o.Ann, o.Act = false, true
	case OpMutex:
		o.Act = true
	case OpOnce:
		if o.N == 0 {
			o.N = 1
		}
	}
	w.op, w.obj = OpNone, nil
	for i := 0; i < s.n; i++ {
		if &s.ws[i] == w && s.stamp[i] != nil {
			s.clock++
			*s.stamp[i] = s.clock
			s.stamp[i] = nil
		}
	}
}

// Stamp has the time at which worker w passes its next point stored at p.
//
//go:norace
func Stamp(w int, p *int64) { s.stamp[w] = p }

// pick decides who goes on; cur is the worker that was in control, or -1.
//
//go:norace
func pick(cur int) int {
	var mask uint8
	count, first := 0, -1
	for i := 0; i < s.n; i++ {
		if enabled(&s.ws[i]) {
			mask |= 1 << uint(i)
			count++
			if first < 0 {
				first = i
			}
		}
	}
	if count == 0 {
		return -1
	}
	if count == 1 {
		if first == cur {
			s.streak++
		} else {
			s.streak = 0
		}
		return first
	}
	s.streak++
	def := first
	c := int8(-1)
	if cur >= 0 && mask&(1<<uint(cur)) != 0 && s.streak < 2000 {
		def = cur
		c = int8(cur)
	} else if cur >= 0 && s.streak >= 2000 { // it spins: let another one go on
		mask &^= 1 << uint(cur)
		for i := 1; i <= s.n; i++ {
			if j := (cur + i) % s.n; mask&(1<<uint(j)) != 0 {
				def = j
				break
			}
		}
	}
	chosen := def
	if s.nchoice < s.nscript {
		chosen = int(s.script[s.nchoice])
		if chosen >= s.n || mask&(1<<uint(chosen)) == 0 {
			s.diverged = true
			chosen = def
		}
	}
	if s.nchoice < maxChoices {
		s.choices[s.nchoice] = Choice{mask, c, uint8(chosen)}
		s.nchoice++
	}
	if chosen != cur {
		s.streak = 0
	}
	return chosen
}

// anyNative tells whether a worker is blocked outside the scheduler's control.
//
//go:norace
func anyNative() bool {
	for i := 0; i < s.n; i++ {
		if s.ws[i].native && !s.ws[i].done {
			return true
		}
	}
	return false
}

//go:norace
func allDone() bool {
	for i := 0; i < s.n; i++ {
		if !s.ws[i].done {
			return false
		}
	}
	return true
}

// stop unwinds every worker (mu is held).
//
//go:norace
func stop() {
	s.abort = true
	for i := 0; i < s.n; i++ {
		if !s.ws[i].done {
			select {
			case s.ws[i].ch <- struct{}{}:
			default:
			}
		}
	}
}

//go:norace
func pass(next int) {
	s.cur = next
	s.ws[next].ch <- struct{}{}
}

// Point is a scheduling point of worker w.
//
//go:norace
func Point(w int, op Op, o *Object) {
	raceOff()
	s.mu.Lock()
	s.progress++
	if s.abort {
		s.mu.Unlock()
		raceOn()
		panic(Aborted{})
	}
	me := &s.ws[w]
	me.op, me.obj = op, o
	if me.native { // it was written off as blocked: wait for its turn
		me.native = false
		if s.cur < 0 {
			if next := pick(-1); next >= 0 {
				pass(next)
			}
		}
		wait(w)
		return
	}
	next := pick(w)
	if next == w {
		apply(me)
		s.mu.Unlock()
		raceOn()
		return
	}
	if next >= 0 {
		pass(next)
	} else {
		s.cur = -1
		if !anyNative() {
			s.deadlock = true
			stop()
			s.mu.Unlock()
			raceOn()
			panic(Aborted{})
		}
	}
	wait(w)
}

// wait parks worker w until it is in control (mu is held).
//
//go:norace
func wait(w int) {
	me := &s.ws[w]
	s.mu.Unlock()
	<-me.ch
	s.mu.Lock()
	s.progress++
	if s.abort {
		s.mu.Unlock()
		raceOn()
		panic(Aborted{})
	}
	apply(me)
	s.mu.Unlock()
	raceOn()
}

// NativeBegin is called before worker w does something that may block and that the scheduler
// does not control; NativeEnd is called afterwards.
//
//go:norace
func NativeBegin(w int) {
	raceOff()
	s.mu.Lock()
	s.progress++
	s.ws[w].native = true
	if s.cur == w {
		s.cur = -1
		if next := pick(-1); next >= 0 {
			pass(next)
		}
	}
	s.mu.Unlock()
	raceOn()
}

// NativeEnd waits for control.
func NativeEnd(w int) { Point(w, OpNone, nil) }

// Release gives up a lock.
//
//go:norace
func Release(o *Object, op Op) {
	raceOff()
	s.mu.Lock()
	switch op {
	case OpRLock:
		if o.Readers > 0 {
			o.Readers--
		}
	case OpAcquire, OpMutex:
		o.Act = false
	case OpOnce:
		o.N = 2
	case OpFlag:
		o.N = 1
	}
	s.progress++
	s.mu.Unlock()
	raceOn()
}

// Try takes a lock if it is free.
//
//go:norace
func Try(o *Object, op Op) bool {
	raceOff()
	s.mu.Lock()
	w := worker{op: op, obj: o}
	ok := enabled(&w)
	if op == OpAnnounce {
		ok = ok && o.Readers == 0
	}
	if ok {
		apply(&w)
	}
	s.mu.Unlock()
	raceOn()
	return ok
}

// Waiting tells whether the lock still waits for its readers.
//
//go:norace
func Waiting(o *Object) bool { return o.Ann && !o.Act }

// Yield is a point without an operation; it does nothing outside a controlled run.
func Yield() {
	if w := Self(); w >= 0 {
		Point(w, OpNone, nil)
	}
}

// Now is a clock that advances with every call.
//
//go:norace
func Now() int64 {
	s.clock++
	return s.clock
}

//go:norace
func start(i int) {
	s.ws[i].g = Goid()
}

//go:norace
func begin(i int) bool {
	raceOff()
	<-s.ws[i].ch
	ok := !s.abort
	raceOn()
	return ok
}

//go:norace
func finish(i int) {
	raceOff()
	s.mu.Lock()
	s.progress++
	me := &s.ws[i]
	me.done = true
	if !s.abort && (s.cur == i || s.cur < 0) {
		if next := pick(-1); next >= 0 {
			pass(next)
		} else {
			s.cur = -1
			if !allDone() && !anyNative() {
				s.deadlock = true
				stop()
			}
		}
	}
	s.mu.Unlock()
	raceOn()
}

func body(i int, f func(), started, ended *sync.WaitGroup, panics *[maxWorkers]interface{}) {
	defer ended.Done()
	start(i)
	started.Done()
	if !begin(i) {
		finish(i)
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Aborted); !ok {
					panics[i] = r
				}
			}
		}()
		f()
	}()
	finish(i)
}

// Outcome of a controlled run.
type Outcome struct {
	Choices  []Choice
	Deadlock bool
	Stuck    bool // goroutines are blocked outside the scheduler's control
	Diverged bool
	Panics   [maxWorkers]interface{}
	Waiting  []int // the workers that had not finished at a deadlock
}

//go:norace
func prepare(n int, script []uint8) {
	s.n = n
	s.run++
	s.cur = -1
	s.abort, s.deadlock, s.stuck, s.diverged = false, false, false, false
	s.nobjs, s.nchoice, s.nscript, s.streak, s.clock = 0, 0, len(script), 0, 0
	for i := 0; i < len(script); i++ {
		s.script[i] = script[i]
	}
	for i := 0; i < n; i++ {
		s.ws[i] = worker{ch: make(chan struct{}, 1)}
		s.stamp[i] = nil
	}
	s.active = true
}

//go:norace
func launch() {
	raceOff()
	s.mu.Lock()
	if next := pick(-1); next >= 0 {
		pass(next)
	}
	s.mu.Unlock()
	raceOn()
}

//go:norace
func readProgress() int64 {
	raceOff()
	s.mu.Lock()
	p := s.progress
	s.mu.Unlock()
	raceOn()
	return p
}

// unblock treats the worker in control as blocked and lets another one go on.
//
//go:norace
func unblock() {
	raceOff()
	s.mu.Lock()
	if s.cur >= 0 && !s.ws[s.cur].done {
		s.ws[s.cur].native = true
		s.cur = -1
	}
	if s.cur < 0 {
		if next := pick(-1); next >= 0 {
			pass(next)
		}
	}
	s.mu.Unlock()
	raceOn()
}

//go:norace
func giveUp() {
	raceOff()
	s.mu.Lock()
	s.stuck = true
	stop()
	s.mu.Unlock()
	raceOn()
}

//go:norace
func conclude(o *Outcome, reset bool) {
	s.active = false
	o.Deadlock, o.Stuck, o.Diverged = s.deadlock, s.stuck, s.diverged
	if reset {
		for i := 0; i < s.nobjs; i++ {
			s.objs[i].VerifReset()
		}
	}
}

// Run executes the functions under the schedule of the script, extended by the default
// schedule (go on with the same goroutine as long as possible).
func Run(fs []func(), script []uint8) *Outcome {
	o := &Outcome{}
	prepare(len(fs), script)
	var started, ended sync.WaitGroup
	started.Add(len(fs))
	ended.Add(len(fs))
	panics := &[maxWorkers]interface{}{}
	for i := range fs {
		go body(i, fs[i], &started, &ended, panics)
	}
	started.Wait()
	launch()
	done := make(chan struct{})
	go func() { ended.Wait(); close(done) }()
	last, idle := int64(-1), 0
	t := time.NewTimer(2 * time.Second)
loop:
	for {
		select {
		case <-done:
			break loop
		case <-t.C:
			p := readProgress()
			if p == last {
				idle++
			} else {
				idle = 0
			}
			last = p
			if idle >= 2 {
				unblock()
			}
			if idle >= 15 {
				giveUp()
				select {
				case <-done:
				case <-time.After(2 * time.Second):
				}
				break loop
			}
			t.Reset(2 * time.Second)
		}
	}
	t.Stop()
	bad := false
	if !isStuck() {
		o.Panics = *panics
		for _, p := range o.Panics {
			bad = bad || p != nil
		}
	}
	conclude(o, bad || isAborted())
	o.Choices = make([]Choice, countChoices())
	for i := range o.Choices {
		o.Choices[i] = choiceAt(i)
	}
	return o
}

//go:norace
func isStuck() bool { return s.stuck }

//go:norace
func isAborted() bool { return s.abort }

//go:norace
func countChoices() int { return s.nchoice }

//go:norace
func choiceAt(i int) Choice { return s.choices[i] }

// Hidden hides synchronisation from the race detector until it is called with false.
func Hidden(on bool) {
	if on {
		raceOff()
	} else {
		raceOn()
	}
}
