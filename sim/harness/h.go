// Package harness holds the simulated scenarios and their oracles, one per
// property.
package harness

import (
	"fmt"
	"strings"
	"time"

	"verif.local/sim/vsim"
)

// H is one simulated run.
type H struct {
	S    *vsim.Sim
	G    *vsim.Stream // workload and configuration
	F    *vsim.Stream // faults
	Desc []string
	Work int // messages or operations handled
	// Calm: no clock advance under load, so that time bounds are exact
	Calm bool
}

// Scenario decides one property.
type Scenario struct {
	ID    string
	Run   func(h *H)
	Calm  bool // time bounds are part of the oracle
	Quick int  // runs in the quick tier
	Deep  int  // runs in the thorough tier
	Steps int  // limit of yields
	Real  []string
	Stub  []string
	Rule  string
	Asm   []string
	Need  string // a run counts as non-trivial only if a statistic with this prefix is there
}

// Scenarios lists all of them.
var Scenarios = map[string]*Scenario{}

func register(s *Scenario) {
	if s.Steps == 0 {
		s.Steps = 2000000
	}
	Scenarios[s.ID] = s
}

// Configure draws the scheduling configuration of a run (swarm style).
func Configure(s *vsim.Sim, sc *Scenario) {
	g := s.Gen
	s.Cfg.MaxYields = sc.Steps
	gaps := []int{1000000, 4, 9, 20, 50, 150, 600}
	s.Cfg.Gap = gaps[g.N(len(gaps))]
	if g.P(1, 5) {
		s.Cfg.PCT = 1
	}
	if !sc.Calm {
		s.Cfg.StallNum = []int{0, 0, 0, 8, 40, 200}[g.N(6)]
	}
}

// Exec performs one run.
func Exec(sc *Scenario, gen, fault, sched *vsim.Stream, keepTrace bool) (*H, *vsim.Sim) {
	time.Local = time.UTC
	s := vsim.New(vsim.Config{KeepTrace: keepTrace}, gen, fault, sched)
	Configure(s, sc)
	h := &H{S: s, G: gen, F: fault, Calm: sc.Calm}
	h.Say("gap=%d pct=%d stall=%d", s.Cfg.Gap, s.Cfg.PCT, s.Cfg.StallNum)
	s.Run(func(*vsim.Sim) { sc.Run(h) })
	if s.Viol == nil && s.Deadlock {
		s.Viol = &vsim.Violation{Class: "deadlock", Msg: "nothing can make progress any more: " + strings.Join(s.Stuck, "; ")}
	}
	return h, s
}

// Nontrivial: something was handled, tasks took turns, and what the scenario is
// about happened.
func (h *H) Nontrivial(sc *Scenario) bool {
	if h.Work == 0 || h.S.Switches == 0 {
		return false
	}
	if sc.Need == "" {
		return true
	}
	for k := range h.S.Stats {
		if strings.HasPrefix(k, sc.Need) {
			return true
		}
	}
	return false
}

func (h *H) Say(f string, a ...any) { h.Desc = append(h.Desc, fmt.Sprintf(f, a...)) }

func (h *H) Fail(class, f string, a ...any) { h.S.Fail(class, f, a...) }

func (h *H) Go(name string, f func()) *vsim.Task { return h.S.Go(name, f) }

// Wait polls until cond holds; it reports whether that happened within d of
// simulated time.  The clock may run ahead of busy tasks only in the first half.
func (h *H) Wait(d time.Duration, cond func() bool) bool {
	if h.S.Cfg.StallNum > 0 {
		old := h.S.Cfg.StallNum
		if h.wait(d/2, cond) {
			return true
		}
		h.S.Cfg.StallNum = 0
		defer func() { h.S.Cfg.StallNum = old }()
	}
	return h.wait(d, cond)
}

// Settle lets everything that can happen within d happen: from here on the
// clock no longer runs ahead of busy tasks.
func (h *H) Settle(d time.Duration) {
	h.S.Cfg.StallNum = 0
	h.S.Sleep(d)
}

func (h *H) wait(d time.Duration, cond func() bool) bool {
	end := h.S.Elapsed() + d
	step := 200 * time.Microsecond
	for !cond() {
		if h.S.Elapsed() >= end {
			return false
		}
		h.S.Sleep(step)
		if step < d/64 {
			step += step / 2
		}
	}
	return true
}

// Join waits for tasks to end; if they do not within d the run fails.
func (h *H) Join(d time.Duration, class string, ts ...*vsim.Task) {
	ok := h.Wait(d, func() bool {
		for _, t := range ts {
			if !t.Done() {
				return false
			}
		}
		return true
	})
	if !ok {
		var l []string
		for _, t := range h.S.Tasks() {
			if !t.Done() {
				l = append(l, t.Desc())
			}
		}
		h.Fail(class, "still waiting after %v of simulated time: %s", d, strings.Join(l, "; "))
	}
}

// Pause sleeps a generated while (often not at all).
func (h *H) Pause(max time.Duration) {
	switch h.G.N(4) {
	case 0:
	case 1:
		h.S.Sleep(time.Duration(h.G.N(int(max/time.Microsecond/20)+1)) * time.Microsecond)
	default:
		h.S.Sleep(time.Duration(h.G.N(int(max/time.Microsecond)+1)) * time.Microsecond)
	}
}

// errText is the text of an error read from an error channel. One that is nil
// would crash an application that asks for its text.
func (h *H) errText(e error) string {
	if e == nil {
		h.Fail("nil error", "nil was delivered on an error channel that is not closed")
	}
	return e.Error()
}
