// Package conf holds programs that say the same under every schedule: they must
// say it natively, instrumented, and instrumented inside the simulator.
package conf

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one program.
type Case struct {
	Name string
	Run  func() string
}

type (
	point struct{ x, y int }
	node  struct {
		point
		next *node
		vals []int
		m    map[string]int
		fn   func(int) int
		in   interface{}
		arr  [4]int
		ptr  *point
	}
	celsius float64
	flag    bool
	names   []string
	table   map[string][]int
	pipe    chan int
	shape   interface {
		area() int
	}
	square struct{ s int }
	failer struct{ code int }
)

func (s square) area() int      { return s.s * s.s }
func (s *square) grow(n int)    { s.s += n }
func (f *failer) Error() string { return fmt.Sprint("code ", f.code) }
func (n *node) get() *node      { return n }
func (n node) copyx() int       { n.x++; return n.x }
func (p pipe) put(v int)        { p <- v }
func (t table) add(k string, v int) {
	t[k] = append(t[k], v)
}

var (
	glob          = initial()
	late          int
	counters      [3]int
	tab           = map[string]int{"a": 1, "b": 2}
	chain         = build(3)
	_             = side()
	first, second = pair()
	errBase       = errors.New("base")
	state         struct {
		sync.Mutex
		n int
		m map[int]string
	}
)

const (
	big   = 1 << 40
	ratio = 3.5
	zero  = iota
	one
)

func initial() int { return 40 + len(tab2) }

var tab2 = []string{"x", "y"}

func side() int           { late++; return late }
func pair() (int, string) { return 7, "seven" }

func init() { late += 10; counters[1]++ }
func init() { late *= 2; state.m = map[int]string{1: "one"} }

func build(n int) *node {
	if n == 0 {
		return nil
	}
	return &node{point: point{n, -n}, next: build(n - 1), m: map[string]int{}, vals: make([]int, n)}
}

// Cases lists all of them.
func Cases() (l []Case) {
	add := func(name string, f func() string) { l = append(l, Case{name, f}) }
	add("package state", func() string {
		s := fmt.Sprint(glob, late, counters, tab, first, second, state.m, chain.next.next.x)
		// the next run must find all of it as it was
		glob, late, counters[0] = 0, 0, 9
		delete(tab, "a")
		tab["c"] = 3
		state.m[2] = "two"
		chain.next.x = 99
		first, second = 0, ""
		return s
	})
	add("assignments", func() string {
		n := build(3)
		n.x, n.y = n.y, n.x
		n.x += 2
		n.x <<= 3
		n.x |= 1
		n.x &^= 4
		n.x ^= 0xff
		n.x %= 100
		n.next.vals[1]++
		n.next.vals[0] -= 5
		n.vals[0], n.vals[1], n.vals[2] = 1, 2, 3
		n.vals[0], n.vals[2] = n.vals[2], n.vals[0]
		n.m["a"]++
		n.m["a"] += 4
		n.m["b"], n.m["c"] = 1, 2
		n.arr[2] = 5
		n.arr[n.arr[2]-2] = 6
		n.ptr = &n.point
		n.ptr.x++
		*n.ptr = point{n.ptr.x, 17}
		(*n.ptr).y--
		n.get().get().next.x = 12
		n.in = nil
		n.in = n.ptr
		n.in.(*point).x += 1
		n.fn = func(i int) int { return i * n.x }
		var c celsius = 3
		pc := &c
		*pc *= ratio
		*pc += 1
		var i8 int8 = 127
		p8 := &i8
		*p8++
		var u uint = 1
		pu := &u
		*pu <<= uint(1 + n.arr[2]>>1)
		var str string
		ps := &str
		*ps += "a" + "b"
		*ps += string(rune('c'))
		var f flag
		pf := &f
		*pf = 1 < 2
		var sh shape
		psh := &sh
		*psh = square{3}
		*psh = &square{4}
		var e error
		pe := &e
		*pe = nil
		*pe = &failer{3}
		var ch chan<- int
		pch := &ch
		*pch = make(chan int)
		var ip interface{}
		pip := &ip
		*pip = 3
		*pip = big
		var fn func() int
		pfn := &fn
		*pfn = func() int { return 3 }
		*pfn = pairFirst
		return fmt.Sprint(n.x, n.y, n.vals, n.next.vals, n.m, n.arr, n.fn(2), c, i8, u, str, f, sh.area(), e, ch != nil, ip, fn(), n.copyx(), n.next.x)
	})
	add("order of evaluation", func() string {
		var l []string
		t := func(s string, v int) int { l = append(l, s); return v }
		a := []int{1, 2, 3}
		m := map[int]int{1: 1}
		a[t("i", 1)] = t("v", 5)
		m[t("k", 2)] = t("w", 6)
		a[t("j", 0)], m[t("q", 3)] = t("r", 7), t("s", 8)
		a[t("x", 2)] += t("y", 9)
		m[t("z", 1)] += 2
		c := make(chan int, 3)
		mk := func(s string) chan int { l = append(l, s); return c }
		mk("c1") <- t("c2", 4)
		select {
		case mk("c3") <- t("c4", 5):
		case v := <-mk2(&l, "c5"):
			l = append(l, fmt.Sprint(v))
		}
		func(a, b int, rest ...int) { l = append(l, fmt.Sprint(a, b, rest)) }(t("a1", 1), t("a2", 2), t("a3", 3), t("a4", 4))
		defer func(i int) {}(t("d", 1))
		return fmt.Sprint(l, a, m, <-c, len(c), cap(c))
	})
	add("closures and loops", func() string {
		var fs []func() int
		for i := 0; i < 3; i++ {
			fs = append(fs, func() int { i++; return i })
		}
		for _, v := range []int{5, 6} {
			fs = append(fs, func() int { v *= 2; return v })
		}
		s := ""
		for _, f := range fs {
			s += fmt.Sprint(f(), " ")
		}
		x := 1
		inc := func() { x++; x *= 2 }
		inc()
		inc()
		y := &x
		*y += 100
		n := 0
	outer:
		for i := range []int{1, 2, 3, 4} {
			for j := 0; ; j++ {
				switch {
				case j == i:
					continue outer
				case i == 3:
					break outer
				}
				n += 10*i + j
			}
		}
		var k int
		arr := [5]int{1, 2, 3, 4, 5}
		for k, arr[0] = range arr {
			arr[1]++
		}
		for i, r := range "aé日" {
			s += fmt.Sprint(i, string(r))
		}
		i := 0
	again:
		i++
		if i < 4 {
			goto again
		}
		for range arr {
			i++
		}
		return fmt.Sprint(s, x, n, k, arr, i)
	})
	add("maps", func() string {
		m := table{}
		m.add("a", 1)
		m.add("a", 2)
		m["b"] = append(m["b"], 3)
		m["a"][1] *= 10
		_, ok := m["zz"]
		v, ok2 := m["b"]
		delete(m, "b")
		delete(m, "nothing")
		nested := map[string]map[string]int{"x": {"y": 1}}
		nested["x"]["y"]++
		nested["x"]["z"] = nested["x"]["y"] + 1
		pm := map[point]*node{{1, 2}: build(1)}
		pm[point{1, 2}].x = 9
		var keys []string
		sum := 0
		many := map[string]int{}
		for i := 0; i < 20; i++ {
			many[fmt.Sprint("k", i)] = i
		}
		for k, v := range many {
			if v%2 == 0 {
				delete(many, k)
			}
			keys = append(keys, k)
			sum += v
		}
		sort.Strings(keys)
		cnt := 0
		for range many {
			cnt++
		}
		for k := range many {
			delete(many, k)
		}
		var key string
		var val int
		for key, val = range map[string]int{"only": 4} {
		}
		for _, val = range map[string]int{"only": 5} {
		}
		var nm map[string]int
		for range nm {
			cnt += 100
		}
		r := try(func() { nm["x"] = 1 })
		counts := map[rune]int{}
		for _, c := range "hello" {
			counts[c]++
		}
		type st struct{ n int }
		sm := map[string]st{"a": {1}}
		sm["a"] = st{sm["a"].n + 1}
		fm := map[string]func() int{"f": func() int { return 6 }}
		var found string
	search:
		for k, v := range map[string]int{"p": 1, "q": 2, "r": 3} {
			switch v {
			case 2:
				found = k
				break search
			default:
				continue search
			}
		}
		rk := reflect.ValueOf(map[string]int{"m": 1, "n": 2}).MapKeys()
		return fmt.Sprint(m, ok, v, ok2, nested, pm[point{1, 2}].x, len(keys), keys[0], sum, cnt, len(many), key, val, r, counts['l'], sm, fm["f"](), nm["q"], len(nm), found, len(rk))
	})
	add("switches", func() string {
		s := ""
		for i := 0; i < 6; i++ {
			switch j := i * 2; j {
			case 0, 2:
				s += "a"
				fallthrough
			case 4:
				s += "b"
			case 6:
				if i == 3 {
					break
				}
				s += "never"
			default:
				s += "d"
			}
		}
		for _, v := range []interface{}{1, "s", nil, 2.5, &failer{1}, square{2}, []int{1}, errBase} {
			switch x := v.(type) {
			case int, float64:
				s += fmt.Sprint("num", x)
			case string:
				s += x + "!"
			case nil:
				s += "nil"
			case error:
				s += x.Error()
			case shape:
				s += fmt.Sprint("area", x.area())
			default:
				s += fmt.Sprintf("%T", x)
			}
		}
		switch {
		}
		switch x := pairFirst(); {
		case x > 5:
			s += "big"
		}
		return s
	})
	add("defer and recover", func() string {
		s := ""
		f := func() (r int, err error) {
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("caught %v", x)
					r *= 2
				}
			}()
			for i := 0; i < 3; i++ {
				defer func(n int) { s += fmt.Sprint(n) }(i)
			}
			defer mark(&s, "m")()
			r = 21
			var a []int
			_ = a[r]
			return 5, nil
		}
		r, err := f()
		named := func() (n int) {
			defer func() { n++ }()
			return 4
		}
		again := try(func() {
			defer func() { panic(fmt.Sprint("second after ", recover())) }()
			panic("first")
		})
		nilfn := try(func() { var f func(); f() })
		conv := try(func() { var i interface{} = "x"; _ = i.(int) })
		div := try(func() { z := 0; _ = 1 / z })
		cl := try(func() { c := make(chan int); close(c); close(c) })
		snd := try(func() { c := make(chan int); close(c); c <- 1 })
		ncl := try(func() { var c chan int; close(c) })
		un := try(func() { var m sync.RWMutex; _ = &m; var w sync.WaitGroup; w.Done() })
		var ge string
		func() {
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer func() { ge += fmt.Sprint("deferred ", recover()) }()
				runtime.Goexit()
				ge += "never"
			}()
			<-done
		}()
		return fmt.Sprint(r, err, s, named(), again, nilfn, conv, div, cl, snd, ncl, un, ge)
	})
	add("channels", func() string {
		c := make(chan int)
		done := make(chan bool)
		sum := 0
		go func() {
			for v := range c {
				sum += v
			}
			done <- true
		}()
		for i := 0; i < 10; i++ {
			c <- i
		}
		close(c)
		ok := <-done
		v, more := <-c
		b := make(chan string, 2)
		b <- "x"
		b <- "y"
		full := false
		select {
		case b <- "z":
		default:
			full = true
		}
		n := len(b)
		close(b)
		var got []string
		for x := range b {
			got = append(got, x)
		}
		var nilc chan int
		none := false
		select {
		case <-nilc:
		case nilc <- 1:
		default:
			none = true
		}
		arr := [2]chan int{make(chan int, 1), make(chan int, 1)}
		arr[0] <- 1
		var dst struct {
			v  int
			ok bool
		}
		m := map[string]int{}
		select {
		case dst.v, dst.ok = <-arr[0]:
		}
		arr[1] <- 7
		select {
		case m["k"] = <-arr[1]:
		}
		pipe(arr[0]).put(8)
		x := <-arr[0] + 1
		fnc := make(chan func() int, 1)
		fnc <- func() int { return 5 }
		five := (<-fnc)()
		cc := make(chan chan int, 1)
		cc <- arr[0]
		arr[0] <- 6
		six := <-<-cc
		ec := make(chan error, 1)
		ec <- nil
		e := <-ec
		ic := make(chan interface{}, 3)
		ic <- 1
		ic <- nil
		ic <- "s"
		i1, i2, i3 := <-ic, <-ic, <-ic
		st := make(chan struct{}, 1)
		st <- struct{}{}
		_, open := <-st
		var ro <-chan int = arr[0]
		var wo chan<- int = arr[0]
		wo <- 2
		if v, ok := <-ro; ok && v == 2 {
			x++
		}
		switch <-closedChan() {
		case 0:
			x += 100
		}
		return fmt.Sprint(sum, ok, v, more, full, n, got, none, dst, m, x, five, six, e, i1, i2, i3, open, len(wo), cap(ro))
	})
	add("select loops", func() string {
		a, b := make(chan int), make(chan int)
		quit := make(chan struct{})
		res := make(chan string)
		go func() {
			sa, sb := 0, 0
			for {
				select {
				case v, ok := <-a:
					if !ok {
						a = nil
						continue
					}
					sa += v
				case v := <-b:
					sb += v
				case <-quit:
					res <- fmt.Sprint(sa, sb)
					return
				}
			}
		}()
		ca := a
		var wg sync.WaitGroup
		wg.Add(2)
		go func(c chan<- int) {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				c <- i
			}
			close(c)
		}(ca)
		go func() {
			defer wg.Done()
		L:
			for i := 0; ; i++ {
				select {
				case b <- i:
					if i == 3 {
						break L
					}
				}
			}
		}()
		wg.Wait()
		close(quit)
		s := <-res
		n := 0
		tick := make(chan int, 4)
		for i := 0; i < 4; i++ {
			tick <- i
		}
	loop:
		for {
			select {
			case v := <-tick:
				switch {
				case v == 1:
					continue loop
				case v == 3:
					break
				}
				n += v
			default:
				break loop
			}
		}
		i := 0
	retry:
		select {
		case v := <-closedChan():
			i += v + 1
		}
		if i < 3 {
			goto retry
		}
	drain:
		for v := range filled(4) {
			if v == 1 {
				continue drain
			}
			if v == 3 {
				break drain
			}
			i += 10 * v
		}
	restart:
		for v := range filled(2) {
			if i < 60 {
				i += 10 + v
				goto restart
			}
			i += 1000
			continue restart
		}
		return fmt.Sprint(s, n, i, mustSelect())
	})
	add("goroutines", func() string {
		var mu sync.Mutex
		var wg sync.WaitGroup
		total := 0
		addn := func(n int, more ...int) {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			total += n
			for _, m := range more {
				total += m
			}
		}
		wg.Add(8)
		go addn(1)
		go addn(1, 2, 3)
		go addn(1, []int{4, 5}...)
		x := 5
		go addn(x)
		x = 1000
		sq := &square{2}
		go func(s shape) { defer wg.Done(); mu.Lock(); total += s.area(); mu.Unlock() }(sq)
		go (&worker{wg: &wg, mu: &mu, n: &total}).run(3, nil)
		for i := 0; i < 2; i++ {
			i := i
			go func() {
				defer wg.Done()
				mu.Lock()
				total += i * 100
				mu.Unlock()
			}()
		}
		wg.Wait()
		var at int64
		var wg2 sync.WaitGroup
		for i := 0; i < 5; i++ {
			wg2.Add(1)
			go func() {
				for j := 0; j < 10; j++ {
					atomic.AddInt64(&at, 1)
					runtime.Gosched()
				}
				wg2.Done()
			}()
		}
		wg2.Wait()
		c := make(chan int)
		go close(c)
		<-c
		go two(pair())
		var once sync.Once
		o := 0
		for i := 0; i < 3; i++ {
			once.Do(func() { o++ })
		}
		var ready int32
		go func() { atomic.StoreInt32(&ready, 1) }()
		for atomic.LoadInt32(&ready) == 0 {
			runtime.Gosched()
		}
		return fmt.Sprint(total, at, o)
	})
	add("sync", func() string {
		var rw sync.RWMutex
		shared := map[int]int{}
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(2)
			go func(i int) {
				defer wg.Done()
				rw.Lock()
				shared[i] = i * i
				rw.Unlock()
			}(i)
			go func() {
				defer wg.Done()
				rw.RLock()
				defer rw.RUnlock()
				for range shared {
				}
			}()
		}
		wg.Wait()
		cond := sync.NewCond(&sync.Mutex{})
		q := []int{}
		got := 0
		fin := make(chan int)
		for i := 0; i < 2; i++ {
			go func() {
				n := 0
				for k := 0; k < 3; k++ {
					cond.L.Lock()
					for len(q) == 0 {
						cond.Wait()
					}
					n += q[0]
					q = q[1:]
					cond.L.Unlock()
				}
				fin <- n
			}()
		}
		for i := 1; i <= 6; i++ {
			cond.L.Lock()
			q = append(q, i)
			cond.L.Unlock()
			if i%2 == 0 {
				cond.Broadcast()
			} else {
				cond.Signal()
			}
		}
		got = <-fin + <-fin
		var sm sync.Map
		sm.Store("a", 1)
		v, loaded := sm.LoadOrStore("a", 2)
		w, ok := sm.Load("b")
		cnt := 0
		sm.Range(func(k, v interface{}) bool { cnt++; return true })
		sm.Delete("a")
		pool := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
		buf := pool.Get().(*bytes.Buffer)
		buf.WriteString("pooled")
		s := buf.String()
		buf.Reset()
		pool.Put(buf)
		return fmt.Sprint(shared, got, v, loaded, w, ok, cnt, s)
	})
	add("time", func() string {
		t0 := time.Now()
		time.Sleep(3 * time.Millisecond)
		d := time.Since(t0)
		tm := time.NewTimer(2 * time.Millisecond)
		<-tm.C
		stopped := tm.Stop()
		tm.Reset(time.Millisecond)
		<-tm.C
		fired := make(chan int, 1)
		time.AfterFunc(time.Millisecond, func() { fired <- 1 })
		<-fired
		slow := time.AfterFunc(time.Hour, func() { fired <- 2 })
		slow.Stop() // may come too late
		n := 0
		tk := time.NewTicker(time.Millisecond)
		for range tk.C {
			if n++; n == 3 {
				tk.Stop()
				break
			}
		}
		s := ""
		select {
		case <-time.After(time.Millisecond):
			s = "after"
		case <-time.After(time.Hour):
			s = "hour"
		}
		early := time.Now().Before(t0)
		u := time.Date(2020, 2, 30, 25, 61, 0, 5, time.UTC)
		p, err := time.Parse(time.RFC3339, "2020-01-02T03:04:05Z")
		return fmt.Sprint(d >= 3*time.Millisecond, stopped, n, s, early, u.Format(time.RFC3339Nano), p.Unix(), err, time.Duration(1500)*time.Millisecond)
	})
	add("context", func() string {
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), "k", 1))
		done := make(chan error)
		go func() { <-ctx.Done(); done <- ctx.Err() }()
		cancel()
		e := <-done
		tctx, c2 := context.WithTimeout(context.Background(), time.Millisecond)
		defer c2()
		<-tctx.Done()
		child, c3 := context.WithCancel(tctx)
		defer c3()
		<-child.Done()
		_, has := tctx.Deadline()
		return fmt.Sprint(e, tctx.Err(), child.Err(), has, ctx.Value("k"), errors.Is(tctx.Err(), context.DeadlineExceeded))
	})
	add("io and log", func() string {
		r, w := io.Pipe()
		_ = r
		_ = w
		var b bytes.Buffer
		l := log.New(&b, "p: ", 0)
		l.Printf("a %d", 1)
		l.SetPrefix("q: ")
		l.Println("b", 2)
		fmt.Fprintf(&b, "%s", strings.Repeat("x", 3))
		_, err := os.Stat("/does/not/exist")
		return fmt.Sprint(b.String(), os.IsNotExist(err), os.Getpid() > 0, rand.Intn(1))
	})
	add("struct values", func() string {
		a := node{point: point{1, 2}, arr: [4]int{1}}
		b := a
		b.x = 9
		b.arr[0] = 7
		pa := &a
		c := *pa
		pa.arr[1] = 3
		f := pa.get
		g := (*node).get
		h := node.copyx
		k := pa.copyx
		pa.x = 50
		list := []point{{1, 2}, {3, 4}}
		for i := range list {
			list[i].x *= 10
		}
		for _, p := range list {
			p.x = 0
		}
		list = append(list[:1], list[1:]...)
		sub := list[0:1:1]
		sub = append(sub, point{9, 9})
		var anon struct {
			sync.Mutex
			v int
		}
		anon.Lock()
		anon.v++
		anon.Unlock()
		eq := a.point == point{50, 2}
		sq := square{1}
		sq.grow(2)
		gr := sq.grow
		gr(1)
		return fmt.Sprint(a.x, b.x, b.arr, c.arr, f() == pa, g(pa) == pa, h(a), k(), list, sub, anon.v, eq, sq, [...]string{2: "z"}, len(names{"a"}), copy(list, list[1:]))
	})
	add("shadowing", func() string {
		s := ""
		x := 1
		if x := 2; x > 1 {
			x := 3
			x++
			s += fmt.Sprint(x)
		} else if y := x; y > 0 {
			s += "no"
		}
		len := func(string) int { return 42 }
		s += fmt.Sprint(len("a"))
		{
			close := func(int) string { return "closed" }
			s += close(1)
			delete := func(map[string]int, string) string { return "kept" }
			s += delete(nil, "")
			true := false
			s += fmt.Sprint(true)
		}
		time := "shadow"
		sync := point{1, 2}
		s += time + fmt.Sprint(sync.x)
		for i := 0; i < 2; i++ {
			i := i * 10
			s += fmt.Sprint(i)
		}
		x++
		return s + fmt.Sprint(x)
	})
	add("carriage returns", crlf)
	return append(l, Odd()...)
}

type worker struct {
	wg *sync.WaitGroup
	mu *sync.Mutex
	n  *int
}

func (w *worker) run(k int, e error) {
	defer w.wg.Done()
	w.mu.Lock()
	*w.n += k
	w.mu.Unlock()
}

func mustSelect() int {
	c := closedChan()
	select {
	case v := <-c:
		return v + 9
	case <-c:
		return 9
	}
}

func filled(n int) <-chan int {
	c := make(chan int, n)
	for i := 0; i < n; i++ {
		c <- i
	}
	close(c)
	return c
}

func closedChan() chan int { c := make(chan int); close(c); return c }

func mk2(l *[]string, s string) chan int { *l = append(*l, s); return nil }

func pairFirst() int { n, _ := pair(); return n }

func two(n int, s string) {}

func mark(s *string, m string) func() {
	*s += m + "("
	return func() { *s += m + ")" }
}

func try(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("[", r, "]")
		}
	}()
	f()
	return "ok"
}
