package vsim

import "time"

// WaitQ is a list of tasks waiting for something to change.
type WaitQ struct{ q []*Task }

// Wait parks the current task; the caller re-checks its condition afterwards.
func (w *WaitQ) Wait(what string) {
	s := active
	w.q = append(w.q, s.cur)
	s.Block(what)
}

// WaitUntil is Wait with a deadline (monotonic simulated time; 0: none).
func (w *WaitQ) WaitUntil(what string, at time.Duration) {
	s := active
	if at <= 0 {
		w.Wait(what)
		return
	}
	me := s.cur
	t := s.After(at-s.now, func() { s.Ready(me) })
	w.Wait(what)
	t.Stop()
}

// WakeAll makes every waiting task runnable; callable from timers.
func (w *WaitQ) WakeAll() {
	q := w.q
	w.q = nil
	for _, t := range q {
		active.Ready(t)
	}
}

// SpawnLib starts a task on behalf of the code under test; callable from timers.
func (s *Sim) SpawnLib(n *Node, name string, f func()) {
	if n.Dead {
		return
	}
	s.spawn(name, n, true, f)
}
