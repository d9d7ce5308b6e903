// Package vsim is the simulator core: a scheduler that runs exactly one
// goroutine ("task") at a time, a virtual clock, and channel operations.
//
// Every choice comes from three tapes: Gen (workload and configuration), Fault
// and Sched.  Nothing here reads a real clock or a global PRNG.
package vsim

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

const (
	stRunnable = iota
	stRunning
	stBlocked
	stDone
)

// Node is a simulated process: tasks belong to one, and it can be crashed.
type Node struct {
	Name string
	Dead bool
}

type Task struct {
	ID     int
	Name   string
	Node   *Node
	wake   chan struct{}
	st     uint8
	killed bool
	exitTo chan struct{} // where a killed task reports its end
	what   string
	Lib    bool // started by the library under test
	prio   int
}

// Config of the scheduler for one run.
type Config struct {
	Gap       int // mean number of yield points between preemptions
	PCT       int // >0: priority scheduling with that many change points
	StallNum  int // chance (per 1000) that a preemption advances the clock although tasks are runnable
	MaxYields int
	KeepTrace bool
	Epoch     time.Time
}

type Violation struct {
	Class string `json:"class"` // stable: what kind of violation, without run-specific values
	Msg   string `json:"msg"`
}

type Sim struct {
	onKill []func()
	Cfg    Config
	Gen    *Stream
	Fault  *Stream
	Sched  *Stream
	now    time.Duration // monotonic
	wall   time.Duration // extra offset of the wall clock
	timers timerHeap
	seq    uint64
	runq   []*Task
	tasks  []*Task
	cur    *Task
	main   *Task

	countdown int
	Yields    int
	Switches  int
	spinMark  int
	root      chan struct{}
	over      bool
	Viol      *Violation
	Deadlock  bool
	Stuck     []string
	internal  string

	chans   map[unsafe.Pointer]*hchan
	writing map[unsafe.Pointer]*Task

	EvHash    uint64
	SchedHash uint64
	EvCount   int
	Trace     []string
	Stats     map[string]int
	evSeq     int64
	Data      map[string]any
}

// active is the simulation in progress; nil outside of runs.
var active *Sim

func Active() *Sim { return active }

type timer struct {
	at   time.Duration
	seq  uint64
	fn   func()
	idx  int
	dead bool
}
type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	return t
}

// Timer is a handle to a scheduled function.
type Timer struct{ t *timer }

// After schedules fn (which must not block) d from now.
func (s *Sim) After(d time.Duration, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timer{at: s.now + d, seq: s.seq, fn: fn}
	heap.Push(&s.timers, t)
	return &Timer{t}
}

// Stop cancels the timer and tells whether it was still pending.
func (t *Timer) Stop() bool {
	if t == nil || t.t == nil || t.t.dead {
		return false
	}
	t.t.dead = true
	return true
}

var resets []func()

// RegisterReset is called by the init functions of instrumented packages, in
// initialisation order, with a function that re-initialises the package.
func RegisterReset(f func()) { resets = append(resets, f) }

// New prepares a run.
func New(cfg Config, gen, fault, sched *Stream) *Sim {
	if cfg.MaxYields == 0 {
		cfg.MaxYields = 3000000
	}
	if cfg.Gap == 0 {
		cfg.Gap = 30
	}
	if cfg.Epoch.IsZero() {
		cfg.Epoch = time.Date(2031, 3, 14, 15, 9, 26, 535897932, time.UTC)
	}
	return &Sim{Cfg: cfg, Gen: gen, Fault: fault, Sched: sched, root: make(chan struct{}, 1),
		chans: map[unsafe.Pointer]*hchan{}, writing: map[unsafe.Pointer]*Task{}, Stats: map[string]int{}, Data: map[string]any{},
		EvHash: 14695981039346656037, SchedHash: 14695981039346656037}
}

// Run executes main as the first task and returns when it has returned, a
// violation was recorded, or nothing can make progress any more.
func (s *Sim) Run(main func(*Sim)) {
	if active != nil {
		panic("vsim: nested run")
	}
	active = s
	s.nextGap()
	s.main = s.spawn("main", &Node{Name: "main"}, false, func() {
		for _, f := range resets {
			f()
		}
		main(s)
		s.over = true
	})
	s.runq = s.runq[:0]
	s.cur = s.main
	s.main.st = stRunning
	s.main.wake <- struct{}{}
	<-s.root
	s.over = true
	// tear down: every task left is made to exit, one after the other
	for i := 0; i < len(s.tasks); i++ {
		if t := s.tasks[i]; t.st != stDone {
			s.killOne(t)
		}
	}
	active = nil
}

func (s *Sim) killOne(t *Task) {
	prev := s.cur
	t.killed = true
	t.exitTo = make(chan struct{}, 1)
	s.cur = t
	t.wake <- struct{}{}
	<-t.exitTo
	s.cur = prev
}

// KillNode crashes a node: its tasks end at once, without any effect on the
// outside (the stubs ignore calls of a dead node).  Not to be called from a
// task of that node.
func (s *Sim) KillNode(n *Node) {
	n.Dead = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.Node == n && t.st != stDone {
			if t == s.cur {
				panic("vsim: KillNode from inside")
			}
			for j, r := range s.runq {
				if r == t {
					s.runq = append(s.runq[:j], s.runq[j+1:]...)
					break
				}
			}
			s.killOne(t)
		}
	}
	for _, f := range s.onKill {
		f()
	}
}

// OnKill asks for a call whenever a process has died.
func (s *Sim) OnKill(f func()) { s.onKill = append(s.onKill, f) }

func (s *Sim) spawn(name string, n *Node, lib bool, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Node: n, wake: make(chan struct{}, 1), Lib: lib, st: stRunnable}
	if s.Cfg.PCT > 0 {
		t.prio = s.Sched.N(1000)
	}
	s.tasks = append(s.tasks, t)
	s.runq = append(s.runq, t)
	go func() {
		<-t.wake
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil && !t.killed {
					s.onPanic(t, r)
				}
			}
			t.st = stDone
			if t.killed {
				t.exitTo <- struct{}{}
				return
			}
			s.exit(t)
		}()
		if t.killed {
			runtime.Goexit()
		}
		f()
		normal = true
	}()
	return t
}

// Go starts a task on the node of the current one.
func (s *Sim) Go(name string, f func()) *Task { return s.spawn(name, s.cur.Node, false, f) }

// GoOn starts a task on the given node.
func (s *Sim) GoOn(n *Node, name string, f func()) *Task { return s.spawn(name, n, false, f) }

// GoLib starts a task for a go statement of the instrumented code.
func GoLib(name string, f func()) {
	s := active
	if s == nil {
		go f()
		return
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	s.spawn(name, s.cur.Node, true, f)
	Y()
}

func (s *Sim) exit(t *Task) {
	if s.over {
		s.root <- struct{}{}
		return
	}
	if next := s.pick(nil); next != nil {
		s.cur = next
		next.st = stRunning
		next.wake <- struct{}{}
		return
	}
	s.root <- struct{}{}
}

// stop ends the run from the current task, which is then torn down.
func (s *Sim) stop() {
	me := s.cur
	s.over = true
	s.root <- struct{}{}
	<-me.wake
	runtime.Goexit()
}

// Fail records a violation and ends the run.
func (s *Sim) Fail(class, format string, args ...any) {
	if s.cur != nil && s.cur.killed {
		runtime.Goexit()
	}
	if s.Viol == nil {
		s.Viol = &Violation{class, fmt.Sprintf(format, args...)}
		s.Ev("VIOLATION "+class, s.Viol.Msg)
	}
	s.stop()
}

// Note records a violation without ending the run; callable from timers.
func (s *Sim) Note(class, format string, args ...any) {
	if s.Viol == nil {
		s.Viol = &Violation{class, fmt.Sprintf(format, args...)}
		s.Ev("VIOLATION "+class, s.Viol.Msg)
	}
}

// Internal reports a defect of the harness itself.
func (s *Sim) Internal(msg string) {
	if s.internal == "" {
		s.internal = msg
	}
}
func (s *Sim) InternalError() string { return s.internal }

// CrashError is what the simulator panics with on behalf of the Go runtime.
type CrashError string

func (e CrashError) Error() string { return string(e) }
func (CrashError) RuntimeError()   {}

func (s *Sim) onPanic(t *Task, r any) {
	st := string(debug.Stack())
	frames := panicFrames(st)
	lib := false
	if _, ok := r.(CrashError); ok {
		lib = t.Lib || strings.Contains(st, "nathanaelle/syslog5424")
	}
	if len(frames) > 0 && strings.Contains(frames[0], "nathanaelle/syslog5424") {
		lib = true
	} else {
		// a panic inside the standard library called from library code
		for _, f := range frames {
			if strings.HasPrefix(f, "verif.local/") {
				break
			}
			if strings.Contains(f, "nathanaelle/syslog5424") {
				lib = true
				break
			}
		}
	}
	if _, ok := r.(runtime.Error); ok && !lib {
		// what library code gave to a stand-in, a nil connection say
		for _, f := range frames {
			lib = lib || strings.Contains(f, "nathanaelle/syslog5424")
		}
	}
	msg := fmt.Sprint(r)
	if !lib {
		s.Internal(fmt.Sprintf("panic in harness task %s: %v\n%s", t.Name, r, st))
		s.over = true
		return
	}
	where := ""
	for _, f := range frames {
		if strings.Contains(f, "nathanaelle/syslog5424") {
			where = f[strings.LastIndex(f, "/")+1:]
			break
		}
	}
	if s.Viol == nil {
		s.Viol = &Violation{"crash: " + classOf(msg), fmt.Sprintf("the process crashes: panic: %s (in %s, goroutine %s)", msg, where, t.Name)}
		s.Ev("VIOLATION crash", msg, where)
	}
	s.over = true
}

// classOf drops numbers so that the class is stable under shrinking.
func classOf(m string) string {
	var b strings.Builder
	for _, r := range m {
		if r >= '0' && r <= '9' {
			continue
		}
		b.WriteRune(r)
	}
	o := b.String()
	if len(o) > 80 {
		o = o[:80]
	}
	return o
}

// panicFrames lists the functions on the stack below the outermost panic call.
func panicFrames(st string) []string {
	lines := strings.Split(st, "\n")
	last := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			last = i
		}
	}
	var out []string
	for i := last + 2; i > 1 && i < len(lines); i += 2 {
		l := lines[i]
		if j := strings.LastIndexByte(l, '('); j > 0 {
			l = l[:j]
		}
		if l == "" || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "created by") {
			continue
		}
		out = append(out, l)
	}
	return out
}

func (s *Sim) nextGap() {
	g := s.Sched.Gap(s.Cfg.Gap)
	if g == 0 {
		g = 1 << 60
	}
	s.countdown = g
}

// Y is the yield point inserted before every statement of the code under test.
func Y() {
	s := active
	if s == nil {
		return
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	s.Yields++
	s.countdown--
	if s.countdown > 0 && s.Yields < s.Cfg.MaxYields {
		return
	}
	s.preempt()
}

func (s *Sim) preempt() {
	if s.Yields >= s.Cfg.MaxYields {
		var b strings.Builder
		for _, t := range s.tasks {
			if t.st != stDone {
				fmt.Fprintf(&b, " %s:%s", t.Name, stName(t))
			}
		}
		s.Fail("livelock", "no end in sight after %d steps, simulated time %v;%s", s.Yields, s.now, b.String())
	}
	s.nextGap()
	if s.Cfg.StallNum > 0 && s.Sched.P(s.Cfg.StallNum, 1000) {
		s.Stats["sched.clock_advances_under_load"]++
		s.advance()
	}
	// what is due at this very instant may come before the running task goes on
	for s.due() && s.Sched.P(1, 2) {
		s.advance()
	}
	if len(s.runq) == 0 {
		return
	}
	me := s.cur
	me.st = stRunnable
	s.runq = append(s.runq, me)
	next := s.pick(me)
	s.switchTo(me, next)
}

func stName(t *Task) string {
	if t.st == stBlocked {
		return "blocked in " + t.what
	}
	return [...]string{"runnable", "running", "", "done"}[t.st]
}

// pick removes and returns the next task to run, advancing the clock if nothing
// is runnable; nil if nothing can ever run again.
func (s *Sim) pick(me *Task) *Task {
	for len(s.runq) == 0 {
		if !s.advance() {
			s.Deadlock = true
			for _, t := range s.tasks {
				if t.st != stDone {
					s.Stuck = append(s.Stuck, t.Desc())
				}
			}
			return nil
		}
	}
	i := 0
	if n := len(s.runq); n > 1 {
		if s.Cfg.PCT > 0 {
			best := 0
			for j, t := range s.runq {
				if t.prio > s.runq[best].prio {
					best = j
				}
			}
			if me != nil && s.runq[best] == me { // change point: the running task is demoted
				me.prio -= 1000
				for j, t := range s.runq {
					if t.prio > s.runq[best].prio {
						best = j
					}
				}
			}
			if s.Sched.replay {
				i = s.Sched.N(n)
			} else {
				i = best
				s.Sched.Tape = append(s.Sched.Tape, uint32(best))
			}
		} else {
			i = s.Sched.N(n)
		}
	}
	t := s.runq[i]
	s.runq = append(s.runq[:i], s.runq[i+1:]...)
	return t
}

func (s *Sim) switchTo(me, next *Task) {
	if next == me {
		me.st = stRunning
		return
	}
	s.Switches++
	s.SchedHash = (s.SchedHash ^ uint64(next.ID+1)<<8 ^ uint64(s.EvCount&0xff)) * 1099511628211
	s.cur = next
	next.st = stRunning
	next.wake <- struct{}{}
	<-me.wake
	if me.killed {
		runtime.Goexit()
	}
	s.cur = me
	me.st = stRunning
}

// Block parks the current task until Ready is called on it.
func (s *Sim) Block(what string) {
	me := s.cur
	if me.killed {
		runtime.Goexit()
	}
	me.st = stBlocked
	me.what = what
	next := s.pick(nil)
	if next == nil { // deadlock: the run is over
		s.stop()
	}
	s.switchTo(me, next)
}

// Ready makes a blocked task runnable.
func (s *Sim) Ready(t *Task) {
	if t.st == stBlocked {
		t.st = stRunnable
		s.runq = append(s.runq, t)
	}
}

// due: a timer has expired and was not handled yet.
func (s *Sim) due() bool {
	for len(s.timers) > 0 && s.timers[0].dead {
		heap.Pop(&s.timers)
	}
	return len(s.timers) > 0 && s.timers[0].at <= s.now
}

// advance fires the earliest timer; false if there is none.
func (s *Sim) advance() bool {
	for len(s.timers) > 0 {
		t := s.timers[0]
		if t.dead {
			heap.Pop(&s.timers)
			continue
		}
		// among timers due at the same instant, the schedule decides
		k := 1
		var same [8]*timer
		same[0] = t
		for _, o := range s.timers[1:] {
			if o.at == t.at && !o.dead && k < len(same) {
				same[k] = o
				k++
			}
		}
		if k > 1 {
			t = same[s.Sched.N(k)]
		}
		heap.Remove(&s.timers, t.idx)
		if t.at > s.now {
			s.now = t.at
		}
		t.dead = true
		t.fn()
		return true
	}
	return false
}

// Sleep parks the current task for d of simulated time.
func (s *Sim) Sleep(d time.Duration) {
	if s.cur.killed {
		runtime.Goexit()
	}
	// a task that only polls makes steps as well, or a run in which nothing else
	// happens would never reach its limit
	if s.Yields++; s.Yields >= s.Cfg.MaxYields {
		s.preempt()
	}
	me := s.cur
	s.After(d, func() { s.Ready(me) })
	s.Block("sleep")
}

// Until polls cond in simulated time; false if d passed first.
func (s *Sim) Until(d, step time.Duration, cond func() bool) bool {
	end := s.now + d
	for !cond() {
		if s.now >= end {
			return false
		}
		s.Sleep(step)
	}
	return true
}

// Elapsed is the monotonic simulated time since the start of the run.
func (s *Sim) Elapsed() time.Duration { return s.now }

// Now is the simulated wall clock.
func (s *Sim) Now() time.Time { return s.Cfg.Epoch.Add(s.now + s.wall) }

// JumpWall moves the wall clock (not the timers).
func (s *Sim) JumpWall(d time.Duration) { s.wall += d }

func (s *Sim) Cur() *Task     { return s.cur }
func (s *Sim) Tasks() []*Task { return s.tasks }
func (t *Task) Done() bool    { return t.st == stDone }
func (t *Task) Killed() bool  { return t.killed }
func (t *Task) Desc() string  { return t.Name + ": " + stName(t) }

// Seq gives strictly increasing event numbers (for real-time order checks).
func (s *Sim) Seq() int64 { s.evSeq++; return s.evSeq }

// Ev appends an event to the event log: to its hash always, to its text when a
// trace is kept.
func (s *Sim) Ev(kind string, args ...any) {
	s.EvCount++
	h := s.EvHash
	h = hashStr(h, kind)
	for _, a := range args {
		switch v := a.(type) {
		case string:
			h = hashStr(h, v)
		case []byte:
			h = hashStr(h, string(v))
		case int:
			h = (h ^ uint64(v)) * 1099511628211
		case int64:
			h = (h ^ uint64(v)) * 1099511628211
		case time.Duration:
			h = (h ^ uint64(v)) * 1099511628211
		case bool:
			if v {
				h++
			}
			h *= 1099511628211
		default:
			h = hashStr(h, fmt.Sprint(v))
		}
	}
	h = (h ^ uint64(s.now)) * 1099511628211
	s.EvHash = h
	if s.Cfg.KeepTrace {
		name := "-"
		if s.cur != nil {
			name = s.cur.Name
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%10.6fs y%-6d %-14s %s", s.now.Seconds(), s.Yields, name, kind)
		for _, a := range args {
			switch v := a.(type) {
			case []byte:
				fmt.Fprintf(&b, " %q", clip(string(v)))
			case string:
				fmt.Fprintf(&b, " %q", clip(v))
			default:
				fmt.Fprintf(&b, " %v", v)
			}
		}
		s.Trace = append(s.Trace, b.String())
	}
}

func clip(v string) string {
	if len(v) > 160 {
		return v[:80] + fmt.Sprintf("...(%d bytes)...", len(v)) + v[len(v)-40:]
	}
	return v
}

func hashStr(h uint64, v string) uint64 {
	for i := 0; i < len(v); i++ {
		h = (h ^ uint64(v[i])) * 1099511628211
	}
	return (h ^ uint64(len(v))) * 1099511628211
}

// Count adds to a statistic.
func (s *Sim) Count(k string) { s.Stats[k]++ }

// LibTasksAlive lists the tasks started by the library on node n (nil: any)
// that have not ended.
func (s *Sim) LibTasksAlive(n *Node) []*Task {
	var out []*Task
	for _, t := range s.tasks {
		if t.Lib && t.st != stDone && (n == nil || t.Node == n) {
			out = append(out, t)
		}
	}
	return out
}

// Exited tells whether the task ended by itself (not by the tear-down of the run).
func (t *Task) Exited() bool { return t.st == stDone && !t.killed }
