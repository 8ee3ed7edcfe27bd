package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"regexp"
	"runtime/debug"
	"strings"
	"time"

	"github.com/nlpodyssey/gotokenizers/normalizers"

	"verif.local/simrt"
	"verif.local/simrt/disk"
)

// Run is one simulated execution of one property's profile.
type Run struct {
	S       *simrt.Sim
	C       *simrt.Choices
	D       *disk.Disk
	Prop    string
	Checked int64 // results compared with the reference
	Ops     int64
	stalls  int64 // clock stalls that fired
	Sample  string
	gen     int
	stdReal [len(stdRes)]*regexp.Regexp
	kind    string

	res       []*reSpec                         // the expressions handed to the library
	started   bool                              // callers run
	oneNorm   bool                              // equal normalizers are one instance
	norms     map[string]normalizers.Normalizer // the instances, then
	defs      [3]time.Duration                  // the defaults in use: 1 without a limit
	scribbles int                               // lists overwritten by the caller so far
}

// InjErr is an error that supplied code returns on purpose.
type InjErr struct {
	Task, N int
	Where   string
}

func (e *InjErr) Error() string {
	if e == nil {
		return "injected error: a nil pointer in an error"
	}
	return fmt.Sprintf("injected error %d.%d at %s", e.Task, e.N, e.Where)
}

// InjPanic is a panic value that supplied code raises on purpose.
type InjPanic struct {
	Task, N int
	Where   string
}

// Other errors that supplied code may return. The library must hand on each
// of them, whatever it looks like.
type (
	errList []int    // not comparable
	errWrap struct { // wraps a well-known error, and agrees with any target
		n     int
		inner error
	}
	errTemp struct{ n int } // a temporary time-out
)

func (e errList) Error() string    { return fmt.Sprintf("injected errors %v", []int(e)) }
func (e *errWrap) Error() string   { return fmt.Sprintf("injected error %d: %v", e.n, e.inner) }
func (e *errWrap) Unwrap() error   { return e.inner }
func (e *errWrap) Is(error) bool   { return true }
func (e *errTemp) Error() string   { return "match timeout after 1s on input" }
func (e *errTemp) Timeout() bool   { return true }
func (e *errTemp) Temporary() bool { return true }
func runtimeError(i int) (v interface{}) {
	defer func() { v = recover() }()
	var l []int
	return l[i]
}

// injErr draws the error that supplied code returns.
func (r *Run) injErr(task, n int, where string) error {
	if r.fp(3, 5) {
		return &InjErr{task, n, where}
	}
	switch r.fn(9) {
	case 0:
		return io.EOF
	case 1:
		return &errWrap{n, io.EOF}
	case 2:
		return (*InjErr)(nil)
	case 3:
		return errList{task, n}
	case 4:
		return context.Canceled
	case 5:
		return os.ErrNotExist
	case 6:
		return &errTemp{n}
	case 7:
		return errors.New("")
	}
	return fmt.Errorf("injected: %w", &InjErr{task, n, where})
}

// injPanic draws the value that supplied code panics with.
func (r *Run) injPanic(task, n int, where string) interface{} {
	if r.fp(3, 5) {
		return &InjPanic{task, n, where}
	}
	switch r.fn(6) {
	case 0:
		return &InjErr{task, n, where}
	case 1:
		return io.EOF
	case 2:
		return runtimeError(n)
	case 3:
		return fmt.Sprintf("injected panic %d.%d", task, n)
	case 4:
		return n
	}
	return errList{task, n}
}

// same reports whether two error or panic values are the same one.
func same(a, b interface{}) bool {
	la, ok1 := a.(errList)
	lb, ok2 := b.(errList)
	if ok1 || ok2 {
		return ok1 && ok2 && &la[0] == &lb[0]
	}
	if a != nil && b != nil && !(reflect.TypeOf(a).Comparable() && reflect.TypeOf(b).Comparable()) {
		return false
	}
	return a == b
}

// --- drawing the workload ---

func (r *Run) n(n int) int          { return r.C.N(simrt.SGen, n) }
func (r *Run) p(num, den int) bool  { return r.C.P(simrt.SGen, num, den) }
func (r *Run) rng(lo, hi int) int   { return lo + r.n(hi-lo+1) }
func (r *Run) fn(n int) int         { return r.C.N(simrt.SFault, n) }
func (r *Run) fp(num, den int) bool { return r.C.P(simrt.SFault, num, den) }

// perm draws an order of n things.
func (r *Run) perm(n int) []int {
	l := make([]int, n)
	for i := range l {
		j := r.n(i + 1)
		l[i], l[j] = l[j], i
	}
	return l
}

func pick[T any](r *Run, xs []T) T { return xs[r.n(len(xs))] }

// --- verdicts ---

// Fail reports a violation of the property under check and ends the run.
func (r *Run) Fail(format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	r.S.Note("VIOLATION %s", m)
	r.S.Violation(m)
}

// outcome of one library operation.
type outcome struct {
	panicked bool
	pv       interface{}
	stack    string
	steps    int64
}

// budget is the number of library steps an operation on n bytes may take. It
// is far above what any reasonable implementation needs and far below forever.
func budget(n int) int64 {
	m := int64(n)
	return 250_000 + 4_000*m + 20*m*m
}

// op runs one library operation: only this part is visible to the
// happens-before detector.
func (r *Run) op(name string, size int, fn func()) (o outcome) {
	r.Ops++
	s := r.S
	t := s.CurTask()
	id := -1
	if t != nil {
		id = t.ID
	}
	if s.Tracing {
		s.Note("call %s", name)
	}
	s.BeginOp(name, budget(size))
	on, off := simrt.HideOn, simrt.HideOff
	if id < 0 { // setting up: nothing is hidden
		on, off = func() {}, func() {}
	}
	func() {
		finished := false
		defer func() {
			if finished {
				on()
				return
			}
			v := recover()
			on()
			if v == nil {
				return // the task is being taken down
			}
			if simrt.IsAbort(v) {
				panic(v)
			}
			o.panicked = true
			o.pv = v
			o.stack = string(debug.Stack())
		}()
		off()
		fn()
		finished = true
	}()
	o.steps = s.EndOp()
	if simrt.RaceEnabled {
		if m := newRace(); m != "" {
			r.Fail("unsynchronised concurrent access to shared memory (data race) seen during %s by task %d: %s", name, id, m)
		}
	}
	return o
}

// cb wraps the part of supplied code that belongs to the harness.
func (r *Run) cb(fn func()) {
	simrt.HideOn()
	defer simrt.HideOff()
	fn()
}

// mustNotPanic turns an unexpected panic into a violation.
func (r *Run) mustNotPanic(name string, o outcome) {
	if o.panicked {
		r.Fail("%s panicked: %v\n%s", name, o.pv, appFrames(o.stack))
	}
}

func appFrames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "gotokenizers") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Spawn starts a caller.
func (r *Run) Spawn(name string, fn func()) *simrt.Task {
	return r.S.Spawn(name, func() {
		simrt.HideOn()
		defer simrt.HideOff()
		fn()
		for i, c := range callers {
			// What the callers kept is as it was, including those that are done.
			// (Looking at another caller's document would itself be an
			// unsynchronised access, so not when those are looked for.)
			if c != nil && (i == r.S.Cur() || c.done && !simrt.RaceEnabled) {
				c.recheck()
				c.done = true
			}
		}
	})
}

// Go runs the spawned callers to the end.
func (r *Run) Go() bool {
	r.started = true
	r.S.Go()
	return r.S.Fatal == nil
}

// schedule draws the scheduling profile.
func (r *Run) schedule(tasks int) {
	c := &r.S.Cfg
	if tasks > 1 {
		switch r.C.N(simrt.SSched, 6) {
		case 0:
			c.MeanQuantum = 2
		case 1:
			c.MeanQuantum = 5
		case 2:
			c.MeanQuantum = 15
		case 3:
			c.MeanQuantum = 60
		case 4:
			c.MeanQuantum = 300
		default:
			c.MeanQuantum = 1
		}
		c.Policy = []int{0, 0, 1, 2}[r.C.N(simrt.SSched, 4)]
		r.S.SetFavored(r.C.N(simrt.SSched, tasks))
		if c.Policy == 1 {
			r.S.Faults.Add("schedule-starvation", 1)
		}
	}
}

func (r *Run) note(format string, args ...interface{}) { r.S.Note(format, args...) }

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + fmt.Sprintf("…(%d bytes)", len(s))
	}
	return s
}

func quote(s string) string { return fmt.Sprintf("%q", s) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
