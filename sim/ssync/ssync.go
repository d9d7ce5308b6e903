// Package sync stands in for the standard sync package under simulation.
package sync

import (
	"fmt"
	"sort"

	"verif.local/sim/vsim"
)

type waitq struct {
	q   []*vsim.Task
	reg *vsim.Sim
}

func (w *waitq) wait(what string) {
	s := vsim.Active()
	if w.reg != s { // look again when a process dies
		w.reg = s
		s.OnKill(w.wakeAll)
	}
	w.q = append(w.q, s.Cur())
	s.Block(what)
}

func (w *waitq) wakeAll() {
	s := vsim.Active()
	q := w.q
	w.q = nil
	for _, t := range q {
		s.Ready(t)
	}
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	owner  *vsim.Task
	w      waitq
}

// dead tells whether the holder of a lock was a process that died.  Processes
// share no memory: what looks locked is, for everyone else, not locked.
func dead(t *vsim.Task) bool { return t != nil && t.Node != nil && t.Node.Dead }

func (m *Mutex) Lock() {
	if vsim.Active() == nil {
		m.locked = true
		return
	}
	vsim.Y()
	for m.locked && !dead(m.owner) {
		m.w.wait("Mutex.Lock")
	}
	m.locked = true
	m.owner = vsim.Active().Cur()
}

func (m *Mutex) TryLock() bool {
	vsim.Y()
	if m.locked && !dead(m.owner) {
		return false
	}
	m.locked = true
	if s := vsim.Active(); s != nil {
		m.owner = s.Cur()
	}
	return true
}

func (m *Mutex) Unlock() {
	s := vsim.Active()
	if s == nil {
		m.locked = false
		return
	}
	if !m.locked {
		if s.Cur().Killed() {
			return
		}
		panic(vsim.CrashError("fatal error: sync: unlock of unlocked mutex"))
	}
	if s.Cur().Killed() && m.owner != s.Cur() {
		return
	}
	m.locked = false
	m.owner = nil
	m.w.wakeAll()
	if !s.Cur().Killed() {
		vsim.Y()
	}
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	readers  int
	held     []*vsim.Task // by whom
	writer   bool
	owner    *vsim.Task
	wwaiting int
	w        waitq
}

// bury forgets what dead processes hold.
func (m *RWMutex) bury() {
	if m.writer && dead(m.owner) {
		m.writer, m.owner = false, nil
	}
	for i := 0; i < len(m.held); i++ {
		if dead(m.held[i]) {
			m.held = append(m.held[:i:i], m.held[i+1:]...)
			m.readers--
			i--
		}
	}
}

func (m *RWMutex) Lock() {
	if vsim.Active() == nil {
		m.writer = true
		return
	}
	vsim.Y()
	m.bury()
	for m.writer || m.readers > 0 {
		m.wwaiting++
		func() {
			defer func() { m.wwaiting-- }()
			m.w.wait("RWMutex.Lock")
		}()
		m.bury()
	}
	m.writer = true
	m.owner = vsim.Active().Cur()
}

func (m *RWMutex) TryLock() bool {
	vsim.Y()
	m.bury()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.owner = vsim.Active().Cur()
	return true
}

func (m *RWMutex) Unlock() {
	s := vsim.Active()
	if s == nil {
		m.writer = false
		return
	}
	if !m.writer {
		if s.Cur().Killed() {
			return
		}
		panic(vsim.CrashError("fatal error: sync: Unlock of unlocked RWMutex"))
	}
	if s.Cur().Killed() && m.owner != s.Cur() {
		return
	}
	m.writer = false
	m.owner = nil
	m.w.wakeAll()
	if !s.Cur().Killed() {
		vsim.Y()
	}
}

func (m *RWMutex) RLock() {
	if vsim.Active() == nil {
		m.readers++
		return
	}
	vsim.Y()
	m.bury()
	for m.writer || m.wwaiting > 0 {
		m.w.wait("RWMutex.RLock")
		m.bury()
	}
	m.readers++
	m.held = append(m.held, vsim.Active().Cur())
}

func (m *RWMutex) TryRLock() bool {
	vsim.Y()
	m.bury()
	if m.writer || m.wwaiting > 0 {
		return false
	}
	m.readers++
	m.held = append(m.held, vsim.Active().Cur())
	return true
}

func (m *RWMutex) RUnlock() {
	s := vsim.Active()
	if s == nil {
		m.readers--
		return
	}
	if m.readers <= 0 {
		if s.Cur().Killed() {
			return
		}
		panic(vsim.CrashError("fatal error: sync: RUnlock of unlocked RWMutex"))
	}
	k := -1
	for i, t := range m.held {
		if t == s.Cur() {
			k = i
		}
	}
	if k < 0 && s.Cur().Killed() {
		return
	}
	if k < 0 && len(m.held) > 0 { // unlocked by another goroutine
		k = 0
	}
	if k >= 0 {
		m.held = append(m.held[:k:k], m.held[k+1:]...)
	}
	m.readers--
	m.w.wakeAll()
	if !s.Cur().Killed() {
		vsim.Y()
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	w waitq
}

func (g *WaitGroup) Add(d int) {
	s := vsim.Active()
	if s != nil {
		vsim.Y()
	}
	g.n += d
	if g.n < 0 {
		panic(vsim.CrashError("sync: negative WaitGroup counter"))
	}
	if g.n == 0 && s != nil {
		g.w.wakeAll()
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if vsim.Active() == nil {
		return
	}
	vsim.Y()
	for g.n > 0 {
		g.w.wait("WaitGroup.Wait")
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsim.GoLib("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsim.Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if s := vsim.Active(); s == nil || !s.Cur().Killed() {
				o.done = true
			}
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q []*condw
}

type condw struct {
	t     *vsim.Task
	fired bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	s := vsim.Active()
	w := &condw{t: s.Cur()}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.fired {
		s.Block("Cond.Wait")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	s := vsim.Active()
	if s == nil {
		return
	}
	vsim.Y()
	for len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		if w.t.Done() || w.t.Killed() {
			continue
		}
		w.fired = true
		s.Ready(w.t)
		return
	}
}

func (c *Cond) Broadcast() {
	s := vsim.Active()
	if s == nil {
		return
	}
	vsim.Y()
	for _, w := range c.q {
		w.fired = true
		s.Ready(w.t)
	}
	c.q = nil
}

// Pool is sync.Pool; what Get returns is up to the schedule.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	s := vsim.Active()
	if s != nil {
		vsim.Y()
	}
	if n := len(p.items); n > 0 && (s == nil || !s.Sched.P(1, 8)) {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
	if vsim.Active() != nil {
		vsim.Y()
	}
}

// Map is sync.Map.
type Map struct{ m map[any]any }

func (m *Map) get() map[any]any {
	vsim.Y()
	if m.m == nil {
		m.m = map[any]any{}
	}
	return m.m
}
func (m *Map) Load(k any) (any, bool) { v, ok := m.get()[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.get()[k] = v }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.get()[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.get()[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { delete(m.get(), k) }
func (m *Map) Swap(k, v any) (any, bool) {
	o, ok := m.get()[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.get()[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.get()[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() { clear(m.get()) }
func (m *Map) Range(f func(k, v any) bool) {
	var ks []any
	for k := range m.get() {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return fmt.Sprint(ks[a]) < fmt.Sprint(ks[b]) })
	for _, k := range ks {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
		vsim.Y()
	}
}
