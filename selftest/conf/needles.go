package conf

import (
	"fmt"
	"sync"
	"time"
)

// Needle is a program that goes wrong under some schedule; Bad tells whether an
// outcome is one of those (or the run crashes or gets stuck).
type Needle struct {
	Name string
	Run  func() string
	Bad  string // "" means: it crashes or gets stuck
}

// Needles lists them.
var Needles = []Needle{
	{"lost update", func() string {
		n := 0
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { n++; wg.Done() }()
		}
		wg.Wait()
		return fmt.Sprint(n)
	}, "1"},
	{"lost append", func() string {
		var q []int
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { q = append(q, 1); wg.Done() }()
		}
		wg.Wait()
		return fmt.Sprint(len(q))
	}, "1"},
	{"check then act", func() string {
		var p *point
		made := 0
		get := func() *point {
			if p == nil {
				made++
				p = &point{}
			}
			return p
		}
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { get(); wg.Done() }()
		}
		wg.Wait()
		return fmt.Sprint(made)
	}, "2"},
	{"lock order", func() string {
		var a, b sync.Mutex
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); wg.Done() }()
		go func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); wg.Done() }()
		wg.Wait()
		return "ok"
	}, ""},
	{"missed signal", func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ready := false
		done := make(chan int)
		go func() {
			mu.Lock()
			r := ready
			mu.Unlock()
			if !r {
				mu.Lock()
				c.Wait()
				mu.Unlock()
			}
			close(done)
		}()
		mu.Lock()
		ready = true
		c.Signal()
		mu.Unlock()
		<-done
		return "ok"
	}, ""},
	{"close and send", func() string {
		c := make(chan int, 1)
		done := make(chan int)
		go func() { c <- 1; close(done) }()
		close(c)
		<-done
		return "ok"
	}, ""},
	{"concurrent map writes", func() string {
		m := map[int]int{}
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func(i int) { m[i] = i; wg.Done() }(i)
		}
		wg.Wait()
		return "ok"
	}, ""},
	{"select takes either", func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			return fmt.Sprint(v)
		case v := <-b:
			return fmt.Sprint(v)
		}
	}, "2"},
	{"select takes the first", func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			return fmt.Sprint(v)
		case v := <-b:
			return fmt.Sprint(v)
		}
	}, "1"},
	{"torn pair", func() string {
		p := &point{}
		done := make(chan int)
		go func() { p.x = 1; p.y = 1; close(done) }()
		s := fmt.Sprint(p.x, p.y)
		<-done
		return s
	}, "1 0"},
	{"late timer", func() string {
		c := make(chan int, 2)
		t := time.AfterFunc(time.Millisecond, func() { c <- 1 })
		for i := 0; i < 50; i++ {
			time.Sleep(20 * time.Microsecond)
		}
		if t.Stop() {
			return "stopped"
		}
		return "fired"
	}, "fired"},
	{"early timer", func() string {
		c := make(chan int, 2)
		t := time.AfterFunc(time.Millisecond, func() { c <- 1 })
		for i := 0; i < 50; i++ {
			time.Sleep(20 * time.Microsecond)
		}
		if t.Stop() {
			return "stopped"
		}
		return "fired"
	}, "stopped"},
	{"three in a row", func() string {
		x := 0
		var wg sync.WaitGroup
		step := func(from, to int) {
			defer wg.Done()
			for i := 0; i < 3; i++ {
				if x == from {
					x = to
					return
				}
			}
		}
		wg.Add(3)
		go step(2, 3)
		go step(1, 2)
		go step(0, 1)
		wg.Wait()
		return fmt.Sprint(x)
	}, "3"},
	{"shared loop variable", func() string {
		var mu sync.Mutex
		s := 0
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { mu.Lock(); s += i; mu.Unlock(); wg.Done() }()
		}
		wg.Wait()
		return fmt.Sprint(s)
	}, "9"},
	{"writer waits for readers", func() string {
		var rw sync.RWMutex
		done := make(chan int)
		rw.RLock()
		go func() { rw.Lock(); rw.Unlock(); close(done) }()
		time.Sleep(time.Millisecond)
		rw.RLock() // behind the writer
		rw.RUnlock()
		rw.RUnlock()
		<-done
		return "ok"
	}, ""},
}
