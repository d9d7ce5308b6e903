package conf

import (
	"errors"
	"fmt"
	"strings"
	. "sync"
	tm "time"
)

type (
	handler func(string) error
	matrix  [2][3]int
	tree    struct {
		l, r *tree
		v    int
	}
	embed struct {
		shape
		*point
		Mutex
		hooks map[string][]handler
		sub   []*embed
		ch    chan (<-chan int)
	}
	level int
)

const (
	low level = iota + 1
	_
	high
)

func (h handler) call(s string) error { return h(s) }
func (l level) String() string         { return [...]string{low: "low", high: "high"}[l] }
func (t *tree) insert(v int) *tree {
	if t == nil { return &tree{v: v} }
	switch { case v < t.v: t.l = t.l.insert(v); case v > t.v: t.r = t.r.insert(v) }
	return t
}
func (t *tree) walk(f func(int)) { if t != nil { t.l.walk(f); f(t.v); t.r.walk(f) } }
func (t *tree) stream() <-chan int { c := make(chan int); go func() { defer close(c); t.walk(func(v int) { c <- v }) }(); return c }

// Odd lists programs written in unusual ways.
func Odd() (l []Case) {
	add := func(name string, f func() string) { l = append(l, Case{name, f}) }
	add("one-liners", func() string { a, b := 1, 2; a, b = b, a; if a > b { a++ } else { b++ }; for a < 9 { a += b }; return fmt.Sprint(a, b) })
	add("comments", func() string {
		x := /* a */ 1 /* b */ // c
		// before
		p := &x // after
		*p /* in */ += /* the */ 2 // middle
		/* leading */ *p++
		m := map[string]int{ // opening
			"a": 1, // one
			// two
			"b": 2,
		}
		m["a"] /* x */ += /* y */ 3 // z
		c := make(chan int, 1) /* ; */
		c <- /* sent */ 4 // sent
		y := <- /* received */ c
		select { // nothing
		/* here */
		case c <- 1: // sent
			// and so on
			x++ // done
		// default
		default: /* none */
			x = 0
		}
		go /* run */ func() { // nothing
		}() // started
		// trailing
		return fmt.Sprint(x, m, y, `raw
	string // no comment`, "quoted /* no comment */") // end
		// very last
	})
	add("several lines", func() string {
		n := &node{
			m: map[string]int{},
		}
		n.
			x = 1 +
			2 +
			3
		n.vals = append(
			n.vals,
			1,
			func() int {
				n.y++
				return n.y
			}(),
		)
		n.fn = func(
			i int,
		) int {
			n.x += i
			return n.x
		}
		n.
			get().
			m["k"] = n.fn(
			2,
		)
		c := make(chan func() int, 1)
		c <- func() int {
			// inside
			n.x++
			return n.x
		}
		select {
		case f :=
			<-c:
			n.vals[0] =
				f()
		}
		s := []string{
			strings.
				ToUpper("a"),
		}
		return fmt.Sprint(n.x, n.y, n.vals, n.m, s)
	})
	add("labels", func() string {
		s, j := "", 0
		i := 0
	sw:
		switch i {
		case 0:
			for {
				break sw
			}
			s += "never"
		}
	lp:
		for i < 3 {
			i++
			func() {
			lp:
				for {
					select {
					case <-closedChan():
						break lp
					}
				}
			}()
			switch i {
			case 1:
				continue lp
			case 2:
				continue
			}
			s += fmt.Sprint(i)
		}
		if i == 3 {
			goto done
		}
		s += "never"
	done:
	sel:
		select {
		case <-closedChan():
			if i == 3 {
				break sel
			}
			s += "never"
		}
	rg:
		for k, v := range map[string]int{"k": 1} {
			for range closedSoon(3) {
				if v == 1 {
					s += k
					continue rg
				}
			}
		}
	top:
		for k := range map[int]int{1: 1} {
			j += k
			if j < 3 {
				goto top
			}
		}
	up:
		if j++; j < 6 {
			goto up
		}
		return fmt.Sprint(s, i, j)
	})
	add("embedding", func() string {
		e := &embed{shape: square{3}, point: &point{1, 2}, hooks: map[string][]handler{}}
		e.x++
		e.point.y *= 5
		e.Lock()
		e.hooks["a"] = append(e.hooks["a"], func(s string) error { return errors.New(s) }, handler(func(string) error { return nil }))
		e.Unlock()
		e.sub = append(e.sub, e, &embed{point: e.point})
		e.sub[1].x = 70
		e.sub[0].sub[1].point.x++
		e.ch = make(chan (<-chan int), 1)
		e.ch <- closedSoon(2)
		sum := 0
		for v := range <-e.ch {
			sum += v
		}
		var err error
		for _, h := range e.hooks["a"] {
			if er := h.call("bad"); er != nil {
				err = er
			}
		}
		var mx matrix
		mx[1][2]++
		mx[1][2] += 4
		pm := &mx
		pm[0][1] = 3
		(*pm)[0][0]--
		for i := range pm {
			for j := range pm[i] {
				pm[i][j] *= 2
			}
		}
		grid := [][]int{{1}, {2, 3}}
		grid[1][0], grid[0][0] = grid[0][0], grid[1][1]
		grid[1][1]--
		t := (*tree)(nil)
		for _, v := range []int{5, 2, 8, 1, 9, 2} {
			t = t.insert(v)
		}
		var vs []int
		for v := range t.stream() {
			vs = append(vs, v)
		}
		return fmt.Sprint(e.area(), e.x, e.y, sum, err, mx, grid, vs, high, low)
	})
	add("dot import and alias", func() string {
		var wg WaitGroup
		var mu RWMutex
		n := 0
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(k int, f func(int) int, _ ...string) {
				defer wg.Done()
				mu.Lock()
				n += f(k)
				mu.Unlock()
			}(i, func(i int) int { return i + 1 }, "a", "b")
		}
		wg.Wait()
		d := tm.Duration(2) * tm.Microsecond
		<-tm.After(d)
		var once Once
		once.Do(func() { n *= 10 })
		return fmt.Sprint(n, d)
	})
	add("nested selects", func() string {
		a, b, out := make(chan int), make(chan int), make(chan string, 1)
		stop := make(chan struct{})
		var err error
		go func() {
			s := ""
			for {
				select {
				case x, ok := <-a:
					if !ok {
						select {
						case out <- s:
						default:
							panic("full")
						}
						return
					}
					select {
					case y := <-b:
						s += fmt.Sprint(x, y, ";")
					case <-stop:
						s += "stopped"
					}
				}
			}
		}()
		for i := 0; i < 3; i++ {
			a <- i
			select {
			case b <- i * i:
			case <-stop:
			}
		}
		a <- 3
		close(stop)
		close(a)
		s := <-out
		timeout := tm.NewTimer(tm.Hour)
		defer timeout.Stop()
		select {
		case <-stop:
			err = errors.New("stop")
		}
		if e, ok := err.(interface{ Error() string }); ok && e != nil {
			s += e.Error()
		}
		return s
	})
	add("pipeline", func() string {
		gen := func(n int) <-chan int {
			c := make(chan int)
			go func() {
				for i := 0; i < n; i++ {
					c <- i
				}
				close(c)
			}()
			return c
		}
		sq := func(in <-chan int) <-chan int {
			c := make(chan int, 2)
			go func() {
				defer close(c)
				for v := range in {
					c <- v * v
				}
			}()
			return c
		}
		merge := func(cs ...<-chan int) <-chan int {
			out := make(chan int)
			var wg WaitGroup
			wg.Add(len(cs))
			for _, c := range cs {
				go func(c <-chan int) {
					for v := range c {
						out <- v
					}
					wg.Done()
				}(c)
			}
			go func() { wg.Wait(); close(out) }()
			return out
		}
		sum := 0
		for v := range merge(sq(gen(5)), sq(sq(gen(3))), gen(2)) {
			sum += v
		}
		sem := make(chan struct{}, 2)
		res := make([]int, 6)
		var wg WaitGroup
		for i := range res {
			sem <- struct{}{}
			wg.Add(1)
			go func(p *int, v int) {
				defer func() { <-sem; wg.Done() }()
				*p = v * 2
			}(&res[i], i)
		}
		wg.Wait()
		return fmt.Sprint(sum, res, len(sem))
	})
	add("deferred calls", func() string {
		var out []string
		e := &embed{point: &point{1, 1}}
		func() {
			e.Lock()
			defer e.Unlock()
			defer func(s string) { out = append(out, s) }(fmt.Sprint(e.x))
			e.x = 5
			for _, f := range []func(){func() { out = append(out, "f") }, func() { out = append(out, "g") }} {
				defer f()
			}
			c := make(chan int, 1)
			defer close(c)
			defer delete(map[string]int{}, "x")
			defer handler(func(s string) error { out = append(out, s); return nil }).call("called")
		}()
		e.Lock()
		e.Unlock()
		rec := func() (err error) {
			defer func() {
				switch r := recover().(type) {
				case error:
					err = r
				case string:
					err = errors.New(r)
				}
			}()
			var t *tree
			return fmt.Errorf("%d", t.v)
		}()
		return fmt.Sprint(out, rec)
	})
	return
}

func closedSoon(n int) <-chan int {
	c := make(chan int, n)
	go func() {
		for ; n > 0; n-- {
			c <- n
		}
		close(c)
	}()
	return c
}
