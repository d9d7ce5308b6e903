// Package time stands in for the standard time package under simulation.
package time

import (
	"time"

	"verif.local/sim/vsim"
)

func Now() Time {
	if s := vsim.Active(); s != nil {
		vsim.Y()
		s.Count("clock.read")
		return s.NowMono()
	}
	return time.Now()
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if s := vsim.Active(); s != nil {
		if d <= 0 {
			vsim.Gosched()
			return
		}
		s.Sleep(d)
		return
	}
	time.Sleep(d)
}

// Timer is time.Timer.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *vsim.Timer
	n *vsim.Node
}

func (t *Timer) start(d Duration) {
	s := vsim.Active()
	if s == nil {
		return
	}
	t.n = s.Cur().Node
	t.t = s.After(d, func() {
		if t.f != nil {
			s.SpawnLib(t.n, "AfterFunc", t.f)
			return
		}
		vsim.TrySend(t.c, s.NowMono())
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) drain() {
	if t.c != nil && vsim.Active() != nil {
		vsim.TryRecv((<-chan Time)(t.c))
	}
}

func (t *Timer) Stop() bool {
	vsim.Y()
	ok := t.t.Stop()
	t.drain()
	return ok
}

func (t *Timer) Reset(d Duration) bool {
	ok := t.Stop()
	t.start(d)
	return ok
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	t *vsim.Timer
	d Duration
}

func (t *Ticker) start() {
	s := vsim.Active()
	if s == nil {
		return
	}
	t.t = s.After(t.d, func() {
		if vsim.TrySend(t.c, s.NowMono()) {
			s.Count("timer.tick")
		} else {
			s.Count("timer.tick_dropped")
		}
		t.start()
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.start()
	return t
}

func (t *Ticker) Stop() { vsim.Y(); t.t.Stop() }

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.d = d
	t.start()
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
