// Package simrt is the simulator runtime: it decides every interleaving,
// random draw, clock reading, map order and fault of a run.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Task is a simulated thread (a caller, or a goroutine the library started).
type Task struct {
	ID      int
	Name    string
	wake    chan struct{}
	ready   func() bool
	what    string
	done    bool
	opSteps int64
	OpLimit int64
	KillAt  int64 // crash the operation at this step
	OpName  string
	Lib     bool // started by the library
	Daemon  bool
	held    bool // until Go
	Root    int  // the caller task on whose behalf it runs
	wakeAt  int64
	site    uint32
}

// Fatal describes why a run was cut short.
type Fatal struct {
	Kind string // "deadlock", "no-progress", "crash"
	Msg  string
}

// Config is the per-run scheduling profile (drawn by the harness).
type Config struct {
	MeanQuantum int // 0: run to completion (no preemption)
	Policy      int // 0 uniform, 1 prefer one task (starve others), 2 round robin
	MaxSteps    int64
}

// Sim is one run.
type Sim struct {
	C        *Choices
	Cfg      Config
	tasks    []*Task
	cur      *Task
	quantum  int64
	turn     bool // when the quantum ends, another task runs
	passed   bool // the quantum ended because the task polls
	steps    int64
	Switches int64
	Preempts int64
	hash     uint64
	schedH   uint64
	finish   chan struct{}
	started  bool
	ended    bool
	Fatal    *Fatal
	favored  int
	nowNS    int64
	ClockFn  func(s *Sim) int64 // extra nanoseconds to add on a clock reading
	Faults   Counters
	Probes   Counters
	Pairs    Set64
	lastSite uint32
	trace    []string
	Tracing  bool
	RandFn   func(s *Sim) uint64
	main     *Task // sets up and judges the run; not one of tasks
	libSteps int64 // steps of the library's goroutines since a caller took one
	roots    int   // callers ever started
	live     int
	callers  int            // live tasks that are not the library's
	join     sync.WaitGroup // callers
	mainJoin sync.WaitGroup
}

var active *Sim

// New prepares a run. Only one run is active in a process at a time.
func New(c *Choices) *Sim {
	s := &Sim{C: c, finish: make(chan struct{}, 1), hash: 14695981039346656037, schedH: 14695981039346656037}
	s.Cfg.MaxSteps = 1 << 40
	chanStates = nil
	active = s
	return s
}

// Active returns the run in progress, or nil.
//
//go:noinline
func Active() *Sim { return active }

// Progress changes while a run goes on; a watchdog may call it at any time.
func Progress() int64 {
	if s := active; s != nil {
		return s.steps
	}
	return 0
}

// Running returns the run in progress if its tasks are being scheduled.
func running() *Sim {
	s := active
	if s == nil || !s.started || s.ended {
		return nil
	}
	return s
}

// Close detaches the run.
func (s *Sim) Close() { active = nil }

func mix(h uint64, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	return h
}

// Note adds an observation to the run's event log hash, and to the trace.
//
//go:noinline
func (s *Sim) Note(format string, args ...interface{}) {
	hideOn()
	defer hideOff()
	m := fmt.Sprintf(format, args...)
	for i := 0; i < len(m); i++ {
		s.hash ^= uint64(m[i])
		s.hash *= 1099511628211
	}
	if s.Tracing {
		id := -1
		if s.cur != nil {
			id = s.cur.ID
		}
		s.trace = append(s.trace, fmt.Sprintf("[step %d task %d] %s", s.steps, id, m))
	}
}

func (s *Sim) Trace() []string   { return s.trace }
func (s *Sim) Hash() uint64      { return s.hash }
func (s *Sim) SchedHash() uint64 { return s.schedH }
func (s *Sim) Steps() int64      { return s.steps }
func (s *Sim) NowNS() int64      { return s.nowNS }

// Fault counts an injected fault that actually fired.
//
//go:noinline
func (s *Sim) Fault(kind string) {
	s.Faults.Add(kind, 1)
	s.Note("FAULT %s", kind)
}

// Probe counts reaching an interesting condition.
//
//go:noinline
func (s *Sim) Probe(name string) { s.Probes.Add(name, 1) }

// RaceErrors is the number of unsynchronised access pairs reported so far.
//
//go:noinline
func RaceErrors() int { return raceErrors() }

// Spawn registers a caller task before the run starts.
//
//go:noinline
func (s *Sim) Spawn(name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Root: s.roots, Name: name, held: true, wake: make(chan struct{}, 1)}
	s.roots++
	s.tasks = append(s.tasks, t)
	s.live++
	s.callers++
	s.join.Add(1)
	go func() {
		// A visible edge from each caller's end to the end of the run, so
		// that the harness may read the callers' results.
		defer s.join.Done()
		s.body(t, fn)
	}()
	return t
}

type abortRun struct{}

func (s *Sim) body(t *Task, fn func()) {
	wait(t)
	defer func() {
		r := recover()
		if r != nil {
			if _, ok := r.(abortRun); !ok {
				s.fatal("crash", fmt.Sprintf("unrecovered panic in task %q: %v\n%s", t.Name, r, trimStack(debug.Stack())))
				return
			}
		}
		s.exit(t)
	}()
	fn()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func wait(t *Task) {
	hideOn()
	<-t.wake
	hideOff()
}

func wakeUp(t *Task) {
	hideOn()
	t.wake <- struct{}{}
	hideOff()
}

// Main runs fn, which sets up the run, starts callers and judges what they
// did, until it, the callers and the goroutines of the library are done or the
// run is cut short.
//
//go:noinline
func (s *Sim) Main(fn func()) {
	t := &Task{ID: -1, Root: -1, Name: "setup", OpName: "setup", OpLimit: 2_000_000_000, wake: make(chan struct{}, 1)}
	s.main, s.cur = t, t
	s.live++
	s.callers++
	s.mainJoin.Add(1)
	s.started = true
	go func() {
		defer s.mainJoin.Done()
		s.body(t, fn)
	}()
	wakeUp(t)
	hideOn()
	<-s.finish
	hideOff()
	s.ended = true
	if s.Fatal == nil {
		s.mainJoin.Wait()
	}
}

// Go lets the callers start, and returns when they are done.
//
//go:noinline
func (s *Sim) Go() {
	for _, t := range s.tasks {
		t.held = false
	}
	s.turn, s.quantum = false, 0
	Block("the callers", func() bool { return s.callers == 1 })
	s.join.Wait()
}

func (s *Sim) signalEnd() {
	if s.ended {
		return
	}
	s.ended = true
	hideOn()
	s.finish <- struct{}{}
	hideOff()
}

// HideOn makes what the calling goroutine does until HideOff invisible as
// synchronisation to the happens-before detector: the harness's own work
// between two library calls must not order the callers.
//
//go:noinline
func HideOn() { hideOn() }

//go:noinline
func HideOff() { hideOff() }

// Violation ends the run with a property violation; the calling task never
// continues.
func (s *Sim) Violation(msg string) {
	if !s.started || s.ended {
		if s.Fatal == nil {
			s.Fatal = &Fatal{Kind: "violation", Msg: msg}
		}
		panic(abortRun{})
	}
	s.fatal("violation", msg)
}

// IsAbort reports whether a recovered value is the runtime's own.
func IsAbort(v interface{}) bool { _, ok := v.(abortRun); return ok }

// CurTask is the running task.
//
//go:noinline
func (s *Sim) CurTask() *Task { return s.cur }

// Crash is the panic that models the death of the simulated process in the
// middle of an operation; everything that process held in memory is discarded.
type Crash struct{}

// fatal ends the run at once; the calling goroutine never continues.
func (s *Sim) fatal(kind, msg string) {
	if s.Fatal == nil {
		s.Fatal = &Fatal{Kind: kind, Msg: msg}
	}
	s.signalEnd()
	runtime.Goexit()
}

func (s *Sim) exit(t *Task) {
	if t.done || s.ended {
		return
	}
	t.done = true
	s.live--
	if !t.Lib {
		s.callers--
	}
	if s.live == 0 {
		s.signalEnd()
		return
	}
	n := s.pick(t)
	if n == nil {
		s.deadlock()
		return
	}
	s.cur = n
	wakeUp(n)
}

// maxIdle is how many goroutines of the library may wait for work when all
// callers have finished. More look like one left behind by each call.
const maxIdle = 32

// idle reports whether a goroutine of the library waits for something to do
// or for a point in time, and does not prevent the end of the run.
func (t *Task) idle() bool {
	return t.Daemon || t.wakeAt > 0 || t.what == "channel receive" || t.what == "select"
}

// deadlock ends a run in which no task can go on.
func (s *Sim) deadlock() {
	if s.callers == 0 {
		n, stuck := 0, false
		for _, t := range s.tasks {
			if !t.done {
				stuck = stuck || !t.idle()
				if !t.Daemon {
					n++
				}
			}
		}
		if !stuck && n <= maxIdle {
			s.Probes.Add("idle-library-goroutines", int64(n))
			s.signalEnd()
			return
		}
	}
	if s.Fatal == nil {
		s.Fatal = &Fatal{Kind: "deadlock", Msg: s.waiting()}
	}
	s.signalEnd()
}

// maxLibSteps bounds how long goroutines of the library keep each other busy.
const maxLibSteps = 50_000_000

// waiting describes the tasks that cannot go on.
func (s *Sim) waiting() string {
	var b []string
	l := s.tasks
	if s.main != nil && s.main.what != "the callers" {
		l = append([]*Task{s.main}, l...)
	}
	for _, t := range l {
		if !t.done && t.ready != nil && len(b) < 40 {
			b = append(b, fmt.Sprintf("task %d (%s) in %s waits for %s", t.ID, t.Name, t.OpName, t.what))
		}
	}
	return strings.Join(b, "; ")
}

func (t *Task) isReady() bool {
	if t.done || t.held {
		return false
	}
	if t.ready != nil {
		return t.ready()
	}
	return true
}

// longQuantum is how long a task that is never preempted runs before the
// others get a turn after all: it may be waiting for them in a loop.
const longQuantum = 20_000

// pick chooses the next task. from is listed first when it can go on, so that
// a replayed zero means "no preemption".
func (s *Sim) pick(from *Task) *Task {
	var buf [16]*Task
	cands := buf[:0]
	if from != nil && from.isReady() {
		cands = append(cands, from)
	}
	base := 0
	if from != nil {
		base = from.ID + 1
	}
	for i := range s.tasks {
		t := s.tasks[(base+i)%len(s.tasks)]
		if t != from && t.isReady() {
			cands = append(cands, t)
		}
	}
	if m := s.main; m != nil && m != from && m.isReady() {
		cands = append(cands, m)
	}
	if len(cands) == 0 {
		// Nothing can run: jump to the next timer, if any.
		min := int64(0)
		if s.callers == 0 {
			return nil // what is left belongs to the library
		}
		for _, t := range s.tasks {
			if !t.done && t.wakeAt > s.nowNS && (min == 0 || t.wakeAt < min) {
				min = t.wakeAt
			}
		}
		if min == 0 {
			return nil
		}
		s.nowNS = min
		return s.pick(from)
	}
	var n *Task
	turn, passed := s.turn || s.passed, s.passed
	s.turn, s.passed = false, false
	switch {
	case len(cands) == 1:
		n = cands[0]
	case turn && from != nil && cands[0] == from:
		// The task polls, or has run for long: the others get their turn.
		n = cands[1+s.C.N(SSched, len(cands)-1)]
	case s.Cfg.Policy == 1 && s.favored < len(s.tasks) && s.tasks[s.favored].isReady() && s.C.N(SSched, 16) != 15:
		n = s.tasks[s.favored]
	case s.Cfg.Policy == 2 && len(cands) > 1:
		n = cands[1%len(cands)]
		if s.C.N(SSched, 8) == 0 {
			n = cands[0]
		}
	default:
		n = cands[s.C.N(SSched, len(cands))]
	}
	if s.Cfg.MeanQuantum <= 0 || turn && !passed {
		s.quantum, s.turn = longQuantum, true
	} else {
		// roughly geometric around the mean; zero means "long"
		v := s.C.N(SSched, 64)
		switch {
		case v == 0:
			s.quantum, s.turn = longQuantum, true
		case v < 40:
			s.quantum = int64(1 + v*s.Cfg.MeanQuantum/40)
		case v < 60:
			s.quantum = int64(s.Cfg.MeanQuantum + (v-40)*s.Cfg.MeanQuantum/8)
		default:
			s.quantum = int64(v-59) * int64(s.Cfg.MeanQuantum) * 8
		}
	}
	if s.Tracing && n != from {
		fid := -1
		if from != nil {
			fid = from.ID
		}
		s.trace = append(s.trace, fmt.Sprintf("[step %d task %d] switch to task %d before site %d", s.steps, fid, n.ID, s.lastSite))
	}
	s.schedH = mix(s.schedH, uint64(n.ID)<<32|uint64(s.lastSite))
	s.hash = mix(s.hash, uint64(n.ID)<<40|uint64(s.lastSite))
	return n
}

// SetFavored selects the task favoured by policy 1.
func (s *Sim) SetFavored(i int) { s.favored = i }

// Y is the preemption point inserted before every statement of the code under
// test.
//
//go:noinline
func Y(site uint32) {
	s := active
	if site < uint32(len(covered)) {
		covered[site] = true
	}
	if s == nil || !s.started || s.ended {
		if s != nil && s.ended && s.Fatal != nil {
			runtime.Goexit()
		}
		return
	}
	s.steps++
	t := s.cur
	if !t.Lib {
		s.libSteps = 0
	} else if s.libSteps++; s.libSteps > maxLibSteps {
		s.fatal("no-progress", fmt.Sprintf("goroutines of the library are busy for %d steps while no caller is served; %s", maxLibSteps, s.waiting()))
	}
	t.opSteps++
	s.nowNS += 100
	if t.OpLimit > 0 && t.opSteps > t.OpLimit {
		s.fatal("no-progress", fmt.Sprintf("task %d: %s did not return within %d library steps", t.ID, t.OpName, t.OpLimit))
	}
	if t.KillAt > 0 && t.opSteps >= t.KillAt {
		t.KillAt = 0
		s.Fault("process-crash")
		panic(Crash{})
	}
	if s.quantum > 0 {
		s.quantum--
		return
	}
	s.lastSite = site
	s.yield(t, site)
}

// Pass is called when the current task found that it must wait and goes on by
// itself: it gives the others a turn, and the wait does not count as its work.
//
//go:noinline
func Pass() {
	s := running()
	if s == nil || s.cur == nil {
		return
	}
	s.passed = true
	s.cur.opSteps -= 20
	if s.cur.opSteps < 0 {
		s.cur.opSteps = 0
	}
	s.quantum = 0
	s.yield(s.cur, 0)
}

// Gosched is runtime.Gosched.
func Gosched(native func()) {
	if running() == nil {
		native()
		return
	}
	Y(0)
	Pass()
}

// CAS passes on the outcome of an atomic compare-and-swap.
func CAS(swapped bool) bool {
	if !swapped {
		Pass()
	}
	return swapped
}

func (s *Sim) yield(t *Task, site uint32) {
	n := s.pick(t)
	if n == t {
		return
	}
	if n == nil {
		s.deadlock()
		runtime.Goexit()
	}
	s.Switches++
	t.site = site
	if t.ready == nil {
		s.Preempts++
		s.Pairs.Add(uint64(site)<<32 | uint64(n.site))
	}
	s.cur = n
	wakeUp(n)
	wait(t)
	if s.ended && s.Fatal != nil {
		runtime.Goexit()
	}
}

// Block parks the current task until ready reports true.
//
//go:noinline
func Block(what string, ready func() bool) {
	s := running()
	if s == nil {
		if !ready() {
			panic("simrt: block outside a run: " + what)
		}
		return
	}
	t := s.cur
	for !ready() {
		t.ready = ready
		t.what = what
		s.yield(t, 0)
		t.ready = nil
		if t.Lib {
			t.opSteps = 0 // it may serve many calls
		}
	}
}

// InRun reports whether tasks are being scheduled.
//
//go:noinline
func InRun() bool { return running() != nil }

// BeginOp starts the step budget of one operation of the current task.
//
//go:noinline
func (s *Sim) BeginOp(name string, limit int64) {
	t := s.cur
	if t == nil {
		return
	}
	t.OpName, t.OpLimit, t.opSteps = name, limit, 0
}

// EndOp returns the number of library steps the operation took.
//
//go:noinline
func (s *Sim) EndOp() int64 {
	t := s.cur
	if t == nil {
		return 0
	}
	n := t.opSteps
	t.OpLimit = 0
	return n
}

// Cur returns the id of the caller on whose behalf the running task works, or
// -1 outside a run.
//
//go:noinline
func (s *Sim) Cur() int {
	if s.cur == nil {
		return -1
	}
	return s.cur.Root
}

// Sleep parks the current task until the simulated clock has advanced by ns.
//
//go:noinline
func Sleep(ns int64) {
	s := running()
	if s == nil || ns <= 0 {
		return
	}
	t := s.cur
	at := s.nowNS + ns
	t.wakeAt = at
	Block("sleep", func() bool { return s.nowNS >= at })
	t.wakeAt = 0
}

// Go replaces the go statement in the code under test.
//
//go:noinline
func Go(fn func()) { spawn(fn, false) }

// Daemon starts a task that nobody waits for, such as a timer.
//
//go:noinline
func Daemon(fn func()) { spawn(fn, true) }

func spawn(fn func(), daemon bool) {
	s := running()
	if s == nil {
		go fn()
		return
	}
	t := &Task{ID: len(s.tasks), Name: fmt.Sprintf("lib-goroutine-%d", len(s.tasks)), wake: make(chan struct{}, 1), Lib: true, Daemon: daemon}
	t.Root = s.cur.Root
	t.OpName = s.cur.OpName
	t.OpLimit = s.cur.OpLimit
	s.tasks = append(s.tasks, t)
	s.live++
	if !daemon {
		s.Probes.Add("library-goroutine", 1)
	}
	go s.body(t, fn)
	Y(0)
}

// SortKeys puts map keys into a canonical order before the run permutes them.
func permute(n int, swap func(i, j int)) {
	s := active
	if s == nil {
		return
	}
	for i := n - 1; i > 0; i-- {
		j := i - s.C.N(SMap, i+1)
		if i != j {
			swap(i, j)
		}
	}
}

// MapKeys returns the keys of m in an order decided by the run.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	strs := make([]string, len(keys))
	for i, k := range keys {
		strs[i] = keyString(k)
	}
	sort.Sort(&keySorter{strs, func(i, j int) { keys[i], keys[j] = keys[j], keys[i] }})
	permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

//go:noinline
func keyString(k interface{}) string { return fmt.Sprintf("%T:%v", k, k) }

type keySorter struct {
	s    []string
	swap func(i, j int)
}

func (k *keySorter) Len() int           { return len(k.s) }
func (k *keySorter) Less(i, j int) bool { return k.s[i] < k.s[j] }
func (k *keySorter) Swap(i, j int)      { k.s[i], k.s[j] = k.s[j], k.s[i]; k.swap(i, j) }

// Rand64 is the source behind every random draw the library makes.
//
//go:noinline
func Rand64() uint64 {
	s := active
	if s == nil {
		return 0x9e3779b97f4a7c15
	}
	s.Probes.Add("random-draw", 1)
	if s.RandFn != nil {
		return s.RandFn(s)
	}
	return Spread(s.C.U64(SRand))
}

// Spread turns 62 drawn bits into 64.
func Spread(v uint64) uint64 { return v<<2 | v>>31&3 }

// ClockNS is the simulated clock: it advances with executed steps, and by
// whatever the run's clock profile adds at each reading.
//
//go:noinline
func ClockNS() int64 {
	s := active
	if s == nil {
		return 0
	}
	s.nowNS += 50
	s.Probes.Add("clock-reading", 1)
	if s.ClockFn != nil {
		s.nowNS += s.ClockFn(s)
	}
	return s.nowNS
}

// AdvanceTo moves the clock forward (sleeping tasks).
func (s *Sim) AdvanceTo(ns int64) {
	if ns > s.nowNS {
		s.nowNS = ns
	}
}

// Entry is one map entry visited by a rewritten range statement.
type Entry[K comparable, V any] struct {
	Key K
	m   map[K]V
}

// Live reports whether the entry is still in the map.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.Key]; return ok }

// Value is the entry's current value.
func (e Entry[K, V]) Value() V { return e.m[e.Key] }

// MapEntries is MapKeys for a map expression that must be evaluated once.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	keys := MapKeys(m)
	out := make([]Entry[K, V], len(keys))
	for i, k := range keys {
		out[i] = Entry[K, V]{k, m}
	}
	return out
}
