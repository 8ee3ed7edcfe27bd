// Package simtime stands in for package time in the code under test; every
// clock reading and sleep goes to the simulated clock.
package simtime

import (
	real "time"

	"verif.local/simrt"
)

var epoch = real.Date(2001, 1, 1, 0, 0, 0, 0, real.UTC)

func Now() real.Time                  { return epoch.Add(real.Duration(simrt.ClockNS())) }
func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration)           { simrt.Sleep(int64(d)) }
func After(d real.Duration) <-chan real.Time {
	return NewTimer(d).C
}

// Timer is a time.Timer on the simulated clock.
type Timer struct {
	C   <-chan real.Time
	c   chan real.Time
	f   func()
	gen int // of the running wait; earlier ones have been stopped
	on  bool
}

func (t *Timer) start(d real.Duration, again bool) {
	t.gen++
	t.on = true
	gen := t.gen
	simrt.Daemon(func() {
		for {
			if d <= 0 {
				d = 1
			}
			Sleep(d)
			if t.gen != gen || !t.on {
				return
			}
			t.on = again
			if t.f != nil {
				t.f()
			} else {
				select {
				case t.c <- Now():
				default:
				}
			}
			if !again {
				return
			}
		}
	})
}

func (t *Timer) stop() bool {
	was := t.on
	t.on = false
	t.gen++
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return was
}

func (t *Timer) Stop() bool { return t.stop() }

func (t *Timer) Reset(d real.Duration) bool {
	was := t.stop()
	t.start(d, false)
	return was
}

func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d, false)
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d, false)
	return t
}

// Ticker is a time.Ticker on the simulated clock.
type Ticker struct {
	C <-chan real.Time
	t *Timer
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d, true)
	return &Ticker{c, t}
}

func (t *Ticker) Stop() { t.t.stop() }

func (t *Ticker) Reset(d real.Duration) {
	t.t.stop()
	t.t.start(d, true)
}

func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
