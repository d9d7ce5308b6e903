package vsim

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

// Channels keep their native types in the code under test; every operation on
// them is redirected here and works on a shadow channel keyed by the identity
// of the native one.

type waiter struct {
	t     *Task
	sel   *selState
	idx   int
	val   any
	ok    bool
	fired bool
}

type selState struct {
	done bool
	idx  int
}

type hchan struct {
	keep   any // keeps the native channel alive, so that its address is not reused
	cap    int
	buf    []any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

func (s *Sim) shadow(p unsafe.Pointer, c int, keep any) *hchan {
	h := s.chans[p]
	if h == nil {
		h = &hchan{keep: keep, cap: c}
		s.chans[p] = h
	}
	return h
}

func chptr[T any](ch <-chan T) unsafe.Pointer  { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chptrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.t.st == stDone || w.t.killed {
			continue
		}
		if w.sel != nil {
			if w.sel.done {
				continue
			}
			w.sel.done = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

func alive(q []*waiter) bool {
	for _, w := range q {
		if w.t.st != stDone && !w.t.killed && (w.sel == nil || !w.sel.done) {
			return true
		}
	}
	return false
}

// trySend: done tells whether the operation happened.
func (h *hchan) trySend(s *Sim, v any) bool {
	if h.closed {
		panic(CrashError("send on closed channel"))
	}
	if w := pop(&h.recvq); w != nil {
		w.val, w.ok, w.fired = v, true, true
		s.Ready(w.t)
		return true
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		return true
	}
	return false
}

func (h *hchan) tryRecv(s *Sim) (v any, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		h.buf[0] = nil
		h.buf = h.buf[1:]
		if w := pop(&h.sendq); w != nil {
			h.buf = append(h.buf, w.val)
			w.fired, w.ok = true, true
			s.Ready(w.t)
		}
		return v, true, true
	}
	if w := pop(&h.sendq); w != nil {
		w.fired, w.ok = true, true
		s.Ready(w.t)
		return w.val, true, true
	}
	if h.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (h *hchan) sendReady() bool { return h.closed || alive(h.recvq) || len(h.buf) < h.cap }
func (h *hchan) recvReady() bool { return h.closed || len(h.buf) > 0 || alive(h.sendq) }

func unbox[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// SendTo is a send in two steps, so that the value converts to the element type.
type SendTo[T any] struct{ ch chan<- T }

func S[T any](ch chan<- T) SendTo[T] { return SendTo[T]{ch} }

func (c SendTo[T]) Send(v T) {
	s := active
	if s == nil {
		c.ch <- v
		return
	}
	Y()
	if c.ch == nil {
		s.Block("send on nil channel")
		panic("vsim: unreachable")
	}
	h := s.shadow(chptrS(c.ch), cap(c.ch), c.ch)
	if !h.trySend(s, v) {
		w := &waiter{t: s.cur, val: v}
		h.sendq = append(h.sendq, w)
		for !w.fired {
			s.Block("chan send")
		}
		if !w.ok {
			panic(CrashError("send on closed channel"))
		}
	}
	Y()
}

// Recv2 receives with the ok flag.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := active
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	Y()
	if ch == nil {
		s.Block("receive from nil channel")
		panic("vsim: unreachable")
	}
	h := s.shadow(chptr(ch), cap(ch), ch)
	v, ok, done := h.tryRecv(s)
	if !done {
		w := &waiter{t: s.cur}
		h.recvq = append(h.recvq, w)
		for !w.fired {
			s.Block("chan receive")
		}
		v, ok = w.val, w.ok
	}
	Y()
	return unbox[T](v), ok
}

func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// TryRecv is a non-blocking receive for the harness.
func TryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	s := active
	h := s.shadow(chptr(ch), cap(ch), ch)
	a, ok, done := h.tryRecv(s)
	return unbox[T](a), ok, done
}

// TrySend is a non-blocking send; callable from timers.
func TrySend[T any](ch chan<- T, v T) bool {
	s := active
	h := s.shadow(chptrS(ch), cap(ch), ch)
	return h.trySend(s, v)
}

func Close[T any](ch chan<- T) {
	s := active
	if s == nil {
		close(ch)
		return
	}
	Y()
	if ch == nil {
		panic(CrashError("close of nil channel"))
	}
	h := s.shadow(chptrS(ch), cap(ch), ch)
	if h.closed {
		panic(CrashError("close of closed channel"))
	}
	h.closed = true
	for {
		w := pop(&h.recvq)
		if w == nil {
			break
		}
		w.val, w.ok, w.fired = nil, false, true
		s.Ready(w.t)
	}
	for {
		w := pop(&h.sendq)
		if w == nil {
			break
		}
		w.ok, w.fired = false, true
		s.Ready(w.t)
	}
	Y()
}

func Len[T any](ch <-chan T) int {
	s := active
	if s == nil || ch == nil {
		return len(ch)
	}
	return len(s.shadow(chptr(ch), cap(ch), ch).buf)
}

// LenS is Len for a send-only channel.
func LenS[T any](ch chan<- T) int {
	s := active
	if s == nil || ch == nil {
		return len(ch)
	}
	return len(s.shadow(chptrS(ch), cap(ch), ch).buf)
}

// SelCase is one case of a select.
type SelCase interface {
	hc(s *Sim) *hchan // nil for a nil channel
	isSend() bool
	value() any
	set(v any, ok bool)
	native() reflect.SelectCase
}

type RCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }
func (c *RCase[T]) V() T                    { return c.v }
func (c *RCase[T]) V2() (T, bool)           { return c.v, c.ok }
func (c *RCase[T]) isSend() bool            { return false }
func (c *RCase[T]) value() any              { return nil }
func (c *RCase[T]) set(v any, ok bool)      { c.v, c.ok = unbox[T](v), ok }
func (c *RCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RCase[T]) hc(s *Sim) *hchan {
	if c.ch == nil {
		return nil
	}
	return s.shadow(chptr(c.ch), cap(c.ch), c.ch)
}

type SCase[T any] struct {
	ch chan<- T
	v  T
}

func (c SendTo[T]) Case(v T) *SCase[T] { return &SCase[T]{c.ch, v} }
func (c *SCase[T]) isSend() bool       { return true }
func (c *SCase[T]) value() any         { return c.v }
func (c *SCase[T]) set(any, bool)      {}
func (c *SCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SCase[T]) hc(s *Sim) *hchan {
	if c.ch == nil {
		return nil
	}
	return s.shadow(chptrS(c.ch), cap(c.ch), c.ch)
}

// Select returns the index of the case that proceeded, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	s := active
	if s == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.native())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		if !cases[i].isSend() {
			cases[i].set(v.Interface(), ok)
		}
		return i
	}
	Y()
	var ready []int
	hs := make([]*hchan, len(cases))
	for i, c := range cases {
		hs[i] = c.hc(s)
		if hs[i] == nil {
			continue
		}
		if c.isSend() && hs[i].sendReady() || !c.isSend() && hs[i].recvReady() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[s.Sched.N(len(ready))]
		if cases[i].isSend() {
			if !hs[i].trySend(s, cases[i].value()) {
				panic("vsim: select send")
			}
		} else {
			v, ok, done := hs[i].tryRecv(s)
			if !done {
				panic("vsim: select recv")
			}
			cases[i].set(v, ok)
		}
		Y()
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	ws := make([]*waiter, len(cases))
	for i, c := range cases {
		if hs[i] == nil {
			continue
		}
		w := &waiter{t: s.cur, sel: sel, idx: i, val: c.value()}
		ws[i] = w
		if c.isSend() {
			hs[i].sendq = append(hs[i].sendq, w)
		} else {
			hs[i].recvq = append(hs[i].recvq, w)
		}
	}
	for !sel.done {
		s.Block("select")
	}
	i := sel.idx
	for j, h := range hs { // drop the other registrations
		if h != nil && j != i {
			h.recvq = drop(h.recvq, ws[j])
			h.sendq = drop(h.sendq, ws[j])
		}
	}
	w := ws[i]
	if cases[i].isSend() {
		if !w.ok {
			panic(CrashError("send on closed channel"))
		}
	} else {
		cases[i].set(w.val, w.ok)
	}
	Y()
	return i
}

func drop(q []*waiter, w *waiter) []*waiter {
	for i, x := range q {
		if x == w {
			return append(q[:i:i], q[i+1:]...)
		}
	}
	return q
}

// BlockForever is select {}.
func BlockForever() {
	s := active
	if s == nil {
		select {}
	}
	for {
		s.Block("select {}")
	}
}

// Ref splits an assignment in two: the right-hand side is evaluated, then there
// is a yield point, then the store happens.
type Ref[T any] struct{ p *T }

func P[T any](p *T) Ref[T] { return Ref[T]{p} }
func (r Ref[T]) Set(v T)   { Y(); *r.p = v }

// Zero re-initialises a package variable without an initialiser.
func Zero[T any](p *T) { var z T; *p = z }

// MapIt iterates over a map in an order the schedule decides.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func mapptr[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MapKeys is reflect's, in an order the schedule decides.
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	s := active
	if s == nil {
		return keys
	}
	sort.Slice(keys, func(a, b int) bool { return fmt.Sprint(keys[a]) < fmt.Sprint(keys[b]) })
	for i := len(keys) - 1; i > 0; i-- {
		j := s.Sched.N(i + 1)
		keys[i], keys[i-j] = keys[i-j], keys[i]
	}
	return keys
}

// ReflectIter is reflect.MapIter, in an order the schedule decides.
type ReflectIter struct {
	m    reflect.Value
	keys []reflect.Value
	cur  reflect.Value
}

func MapRange(v reflect.Value) *ReflectIter { return &ReflectIter{m: v, keys: MapKeys(v)} }

func (it *ReflectIter) Next() bool {
	for len(it.keys) > 0 {
		it.cur, it.keys = it.keys[0], it.keys[1:]
		if it.m.MapIndex(it.cur).IsValid() {
			return true
		}
	}
	return false
}

func (it *ReflectIter) Key() reflect.Value    { return it.cur }
func (it *ReflectIter) Value() reflect.Value  { return it.m.MapIndex(it.cur) }
func (it *ReflectIter) Reset(v reflect.Value) { *it = *MapRange(v) }

func MapIter[K comparable, V any](m map[K]V) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if s := active; s != nil {
		sort.Slice(it.keys, func(a, b int) bool { return fmt.Sprint(it.keys[a]) < fmt.Sprint(it.keys[b]) })
		for i := len(it.keys) - 1; i > 0; i-- {
			j := s.Sched.N(i + 1) // 0 keeps the order
			it.keys[i], it.keys[i-j] = it.keys[i-j], it.keys[i]
		}
	}
	return it
}

func (it *MapIt[K, V]) Next() (k K, v V, ok bool) {
	mapCheck(mapptr(it.m), "concurrent map iteration and map write")
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		if v, ok = it.m[k]; ok {
			return
		}
	}
	return
}

// mapCheck ends the run when another goroutine is in the middle of a write to
// the map: the Go runtime ends the process for that.
func mapCheck(p unsafe.Pointer, what string) {
	s := active
	if s == nil || p == nil {
		return
	}
	if t := s.writing[p]; t != nil && t != s.cur && t.st != stDone && !t.killed && !s.cur.killed {
		if s.Viol == nil {
			s.Viol = &Violation{"crash: fatal error: " + what, "the process crashes: fatal error: " + what + " (goroutines " + s.cur.Name + " and " + t.Name + ")"}
			s.Ev("VIOLATION crash: " + what)
		}
		s.stop()
	}
}

// MapW is called before every write to a map, MR around every read.
func MapW[K comparable, V any](m map[K]V) {
	s := active
	if s == nil {
		return
	}
	p := mapptr(m)
	mapCheck(p, "concurrent map writes")
	s.writing[p] = s.cur
	defer delete(s.writing, p)
	Y()
}

func MR[M ~map[K]V, K comparable, V any](m M) M {
	mapCheck(mapptr(map[K]V(m)), "concurrent map read and map write")
	return m
}

// Gosched yields like runtime.Gosched.
func Gosched() {
	if active == nil {
		runtime.Gosched()
		return
	}
	active.countdown = 0
	Y()
}

// CloseNow closes a channel without a scheduling point; callable from timers.
func CloseNow[T any](ch chan T) {
	s := active
	if s == nil {
		close(ch)
		return
	}
	h := s.shadow(chptrS((chan<- T)(ch)), cap(ch), ch)
	if h.closed {
		return
	}
	h.closed = true
	for w := pop(&h.recvq); w != nil; w = pop(&h.recvq) {
		w.val, w.ok, w.fired = nil, false, true
		s.Ready(w.t)
	}
	for w := pop(&h.sendq); w != nil; w = pop(&h.sendq) {
		w.ok, w.fired = false, true
		s.Ready(w.t)
	}
}

// Flag is set at most once.
type Flag struct{ on bool }

func NewFlag() *Flag { return &Flag{} }
func (f *Flag) Set() bool {
	if f.on {
		return false
	}
	f.on = true
	return true
}
