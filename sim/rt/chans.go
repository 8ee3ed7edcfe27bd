package simrt

import (
	"reflect"
	"sync"
)

// Channel operations of the code under test are replaced by these helpers,
// which park the simulated task instead of the real goroutine.

type offer struct {
	mu    sync.Mutex
	v     interface{}
	taken bool
}

type chanState struct {
	ch     interface{} // keeps the channel, and so its address, from being reused
	closed bool
	offers []*offer
	recvs  []*waiter // receivers waiting on an unbuffered channel
}

// waiter is one receiving case of a task that waits.
type waiter struct {
	sel *selState
	idx int
}

// selState is a waiting receive or select; a sender completes it at most once.
type selState struct {
	done bool
	idx  int
	o    *offer
}

// receiver returns a receiver that still waits.
func (st *chanState) receiver() *waiter {
	for _, w := range st.recvs {
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (st *chanState) forget(sel *selState) {
	var keep []*waiter
	for _, w := range st.recvs {
		if w.sel != sel {
			keep = append(keep, w)
		}
	}
	st.recvs = keep
}

func newOffer(v interface{}) *offer {
	o := &offer{}
	o.mu.Lock()
	o.v = v
	o.mu.Unlock()
	return o
}

func (o *offer) take() interface{} {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.taken = true
	return o.v
}

var chanStates map[uintptr]*chanState

//go:noinline
func chanOf(ch interface{}) (*chanState, bool) {
	p := reflect.ValueOf(ch).Pointer()
	if p == 0 {
		return nil, false
	}
	if chanStates == nil {
		chanStates = map[uintptr]*chanState{}
	}
	st := chanStates[p]
	if st == nil {
		st = &chanState{ch: ch}
		chanStates[p] = st
	}
	return st, true
}

//go:noinline
func sendPrep(ch interface{}, length func() int, capacity int, v interface{}) (native bool) {
	Y(0)
	st, ok := chanOf(ch)
	if !ok {
		Block("send on nil channel", func() bool { return false })
	}
	if capacity > 0 {
		Block("channel send", func() bool { return st.closed || length() < capacity })
		return true
	}
	if st.closed {
		return true
	}
	o := newOffer(v)
	st.offers = append(st.offers, o)
	Block("channel send", func() bool { return o.taken || st.closed })
	if !o.taken {
		return true // closed while sending: let the native send panic
	}
	o.mu.Lock()
	o.mu.Unlock()
	return false
}

// SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if !InRun() {
			ch <- v
			return
		}
		if sendPrep(ch, func() int { return len(ch) }, cap(ch), v) {
			ch <- v
		}
	}
}

//go:noinline
func recvPrep(ch interface{}, length func() int, capacity int) (v interface{}, native bool) {
	Y(0)
	st, ok := chanOf(ch)
	if !ok {
		Block("receive from nil channel", func() bool { return false })
	}
	sel := &selState{}
	if capacity == 0 {
		st.recvs = append(st.recvs, &waiter{sel, 0})
	}
	Block("channel receive", func() bool { return sel.done || st.closed || length() > 0 || len(st.offers) > 0 })
	st.forget(sel)
	if sel.done {
		return sel.o.take(), false
	}
	if len(st.offers) > 0 && length() == 0 {
		o := st.offers[0]
		st.offers = st.offers[1:]
		return o.take(), false
	}
	return nil, true
}

// Case is one communication of a select statement.
type Case interface {
	state() (*chanState, bool)
	ready(st *chanState) bool
	do(st *chanState)
	got(v interface{})
	recvs() bool // receives from an unbuffered channel
	native() reflect.SelectCase
	nativeGot(v reflect.Value, ok bool)
}

// RCase is case V, OK = <-ch.
type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// SCase is case ch <- v.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }
func SendCase[T any](ch chan<- T) func(v T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}

func (c *RCase[T]) state() (*chanState, bool) { return chanOf(c.ch) }
func (c *RCase[T]) recvs() bool               { return cap(c.ch) == 0 }
func (c *RCase[T]) ready(st *chanState) bool {
	return st.closed || len(c.ch) > 0 || len(st.offers) > 0
}
func (c *RCase[T]) do(st *chanState) {
	if len(st.offers) > 0 && len(c.ch) == 0 {
		o := st.offers[0]
		st.offers = st.offers[1:]
		c.got(o.take())
		return
	}
	c.V, c.OK = <-c.ch
}
func (c *RCase[T]) got(v interface{}) {
	c.OK = true
	if v != nil {
		c.V = v.(T)
	}
}
func (c *RCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RCase[T]) nativeGot(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		c.V, _ = v.Interface().(T)
	}
}

func (c *SCase[T]) state() (*chanState, bool) { return chanOf(c.ch) }
func (c *SCase[T]) recvs() bool               { return false }
func (c *SCase[T]) ready(st *chanState) bool {
	return st.closed || len(c.ch) < cap(c.ch) || cap(c.ch) == 0 && st.receiver() != nil
}
func (c *SCase[T]) do(st *chanState) {
	if cap(c.ch) == 0 && !st.closed {
		w := st.receiver()
		w.sel.done, w.sel.idx, w.sel.o = true, w.idx, newOffer(c.v)
		return
	}
	c.ch <- c.v
}
func (c *SCase[T]) got(interface{}) {}
func (c *SCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SCase[T]) nativeGot(reflect.Value, bool) {}

// Select performs one of the communications and returns its index, or -1 for
// the default case.
//
//go:noinline
func Select(def bool, cases ...Case) int {
	if !InRun() {
		var cs []reflect.SelectCase
		for _, c := range cases {
			cs = append(cs, c.native())
		}
		if def {
			cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(cs)
		if i == len(cases) {
			return -1
		}
		cases[i].nativeGot(v, ok)
		return i
	}
	Y(0)
	sts := make([]*chanState, len(cases))
	for i, c := range cases {
		sts[i], _ = c.state()
	}
	ready := func() (l []int) {
		for i, c := range cases {
			if sts[i] != nil && c.ready(sts[i]) {
				l = append(l, i)
			}
		}
		return
	}
	l := ready()
	if len(l) == 0 {
		if def {
			Pass()
			return -1
		}
		sel := &selState{}
		for i, c := range cases {
			if sts[i] != nil && c.recvs() {
				sts[i].recvs = append(sts[i].recvs, &waiter{sel, i})
			}
		}
		Block("select", func() bool { return sel.done || len(ready()) > 0 })
		for _, st := range sts {
			if st != nil {
				st.forget(sel)
			}
		}
		if sel.done {
			cases[sel.idx].got(sel.o.take())
			return sel.idx
		}
		l = ready()
	}
	i := l[0]
	if len(l) > 1 {
		i = l[active.C.N(SSched, len(l))]
	}
	cases[i].do(sts[i])
	return i
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !InRun() {
		v, ok := <-ch
		return v, ok
	}
	v, native := recvPrep(ch, func() int { return len(ch) }, cap(ch))
	if native {
		v, ok := <-ch
		return v, ok
	}
	if v == nil {
		var zero T
		return zero, true
	}
	return v.(T), true
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:noinline
func closePrep(ch interface{}) {
	if st, ok := chanOf(ch); ok {
		st.closed = true
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if InRun() {
		closePrep(ch)
	}
	close(ch)
}
