package harness

import (
	"fmt"
	stdnet "net"
	"strings"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"

	simnet "verif.local/sim/snet"
	"verif.local/sim/vsim"
)

func init() {
	register(&Scenario{ID: "C19", Calm: true, Quick: 70000, Deep: 2800000, Need: "probe.phase_",
		Real: []string{"syslog5424: Dialer, TCPConnector, Sender, channels, transports (instrumented, unmodified logic)", "net.Buffers, net.SplitHostPort, strconv"},
		Stub: []string{"resolver, hosts, TCP connections (simulated network)", "clock, tickers, contexts, goroutine scheduler, sync (simulator)"},
		Rule: "2-5 phases; in each one the name server answers (any list of up to 5 addresses of both families), fails, stays silent or has no usable address, every address accepts, refuses or is silent, and all connections are reset in between; messages all the time; the last phase is healthy; distinct by event history",
		Run:  runC19})
}

type c19conn struct {
	at   time.Duration
	addr int
	s    *sconn
	sock *simnet.Sock
}

func runC19(h *H) {
	k := pickKind(h)
	d := newDest(h, k)
	r := newSRun(h, k, d)
	w := simnet.Net()
	if lat := []int{0, 20, 300}[h.G.N(3)]; lat > 0 {
		w.Lat = func() time.Duration { return time.Duration(h.F.N(lat)) * time.Microsecond }
	}
	w.ConnectTO = []time.Duration{3 * time.Second, 20 * time.Second, 127 * time.Second}[h.G.N(3)]
	network := []string{"tcp", "tcp4", "tcp6"}[h.G.N(3)]
	pool := []string{"192.0.2.1", "2001:db8::1", "192.0.2.2", "2001:db8::2", "198.51.100.7", "2001:db8:1::7"}
	pool = pool[:h.G.Range(1, len(pool))]
	// a rotation and perhaps another order
	for i := range pool {
		j := h.G.N(i + 1)
		pool[i], pool[j] = pool[j], pool[i]
	}
	fam := func(i int) bool {
		is4 := stdnet.ParseIP(pool[i]).To4() != nil
		return network == "tcp" || network == "tcp4" && is4 || network == "tcp6" && !is4
	}
	usable := -1
	for i := range pool {
		if fam(i) {
			usable = i
		}
	}
	if usable < 0 {
		network = "tcp"
		usable = 0
	}
	name := "logs.example.net"
	literal := h.G.P(1, 6)
	if literal {
		name = pool[usable]
	}
	port := 514
	address := stdnet.JoinHostPort(name, "514")
	switch h.G.N(4) {
	case 0:
		port = 1514
		address = stdnet.JoinHostPort(name, "1514")
	case 1: // the documented standard port
		address = stdnet.JoinHostPort(name, "")
	}
	delay := []time.Duration{50 * time.Millisecond, 500 * time.Millisecond, 3 * time.Second}[h.G.N(3)]
	h.Say("%s %s flush=%v transport=%v connect timeout=%v", network, address, delay, k, w.ConnectTO)

	// the hosts
	var conns []*c19conn
	lst := make([]*simnet.TCPListener, len(pool))
	listen := func(i int, on bool) {
		if on == (lst[i] != nil) {
			return
		}
		if !on {
			lst[i].Close()
			lst[i] = nil
			return
		}
		l, err := simnet.ListenTCP("tcp", &simnet.TCPAddr{IP: stdnet.ParseIP(pool[i]), Port: port})
		if err != nil {
			h.Fail("internal", "%v", err)
		}
		lst[i] = l
		h.Go(fmt.Sprintf("host %s", pool[i]), func() {
			for {
				c, err := l.AcceptTCP()
				if err != nil {
					return
				}
				x := &c19conn{h.S.Elapsed(), i, &sconn{d: d, id: len(d.conns)}, c.Sock()}
				d.conns = append(d.conns, x.s)
				conns = append(conns, x)
				h.Go("host connection", func() {
					buf := make([]byte, 4096)
					for {
						n, err := c.Read(buf)
						x.s.take(buf[:n])
						if err != nil {
							h.S.Ev("host connection ends", x.s.id)
							c.Close()
							return
						}
					}
				})
			}
		})
	}
	reset := func() {
		for _, c := range conns {
			if !c.sock.IsClosed() {
				c.s.failed = true
				c.sock.Abort()
			}
		}
	}

	if h.G.P(1, 25) {
		listen(usable, true)
		w.Hosts["logs.example.net"] = &simnet.Host{IPs: []string{pool[usable]}}
		hopeless(h, r, network, delay)
		return
	}

	var first int // what a stable phase makes reachable, -1: nothing
	phaseAt := time.Duration(0)
	unspec := false
	var prev time.Duration // what an attempt begun earlier may still take
	var bound time.Duration
	silentNow := 0
	setPhase := func(good bool) {
		silentNow = 0
		// the addresses
		st := make([]int, len(pool))
		silent := 0
		for i := range pool {
			st[i] = h.F.Weighted(2, 2, 1) // accepts, refuses, silent
		}
		host := &simnet.Host{}
		dns := 0
		if !good && !literal {
			dns = h.F.Weighted(4, 1, 1, 1, 1, 1)
		}
		var list []int
		for i := range pool {
			if h.F.P(3, 4) {
				list = append(list, i)
			}
		}
		if h.F.P(1, 3) {
			for i := range list {
				j := h.F.N(i + 1)
				list[i], list[j] = list[j], list[i]
			}
		}
		if literal {
			list = []int{usable}
		}
		if good {
			ok := -1
			for _, i := range list {
				if fam(i) {
					ok = i
				}
			}
			if ok < 0 {
				list = append(list, usable)
				ok = usable
			}
			any := false
			for _, i := range list {
				any = any || fam(i) && st[i] == 0
			}
			if !any {
				st[ok] = 0
			}
		}
		unspec = false
		what := "answers"
		switch dns {
		case 0:
			if h.F.P(1, 3) {
				host.Delay = time.Duration(h.F.N(1500)) * time.Millisecond
			}
		case 1:
			host.Err, what = "server misbehaving", "fails"
		case 2:
			host.Never, what = true, "silent"
		case 3: // late: no answer or a very slow one
			host.Delay, what = time.Duration(h.F.Range(8, 100))*time.Second, "late"
			unspec = true
		case 4:
			list, what = nil, "empty"
		case 5: // the other family only
			what = "other family"
			var l []int
			for _, i := range list {
				if !fam(i) {
					l = append(l, i)
				}
			}
			list = l
		}
		if dns == 1 && h.F.P(1, 3) {
			host.Delay = time.Duration(h.F.N(1500)) * time.Millisecond
		}
		var desc []string
		w.Slow = map[string]time.Duration{}
		var slow time.Duration
		if h.F.P(1, 4) { // lost segments, a busy host
			for i := range pool {
				if st[i] != 2 && h.F.P(1, 3) {
					d := time.Duration(h.F.Range(1, []int{2900, 2900, int(w.ConnectTO/time.Millisecond) - 100}[h.F.N(3)])) * time.Millisecond
					w.Slow[pool[i]] = d
					slow += d
				}
			}
		}
		for _, i := range list {
			host.IPs = append(host.IPs, pool[i])
		}
		for i := range pool {
			desc = append(desc, pool[i]+"="+[]string{"accepts", "refuses", "silent"}[st[i]])
			listen(i, st[i] == 0)
			w.SetDown(pool[i], st[i] == 2)
			if st[i] == 2 {
				silentNow++
			}
		}
		w.Hosts["logs.example.net"] = host
		first = -1
		if dns == 0 {
			for _, i := range list {
				if fam(i) && st[i] == 0 {
					first = i
					break
				}
				if fam(i) && st[i] == 2 {
					silent++
				}
			}
		}
		reset()
		phaseAt = h.S.Elapsed()
		h.S.Ev("phase", what, strings.Join(host.IPs, " "), strings.Join(desc, " "), host.Delay)
		// how long one attempt may take
		if bound > prev {
			prev = bound
		}
		prev += time.Duration(silentNow)*w.ConnectTO + slow
		bound = delay + 2*time.Second + host.Delay + time.Duration(silent)*w.ConnectTO + slow
		if dns == 2 || dns == 3 {
			bound = delay + 15*time.Second + slow
		}
	}

	setPhase(h.F.P(1, 2))
	var err error
	tr := k.transport()
	if k == kLF && h.G.P(1, 3) {
		tr = nil // the common one
	}
	r.snd, r.errc, err = syslog.Dialer{FlushDelay: delay}.Dial(network, address, tr)
	if err != nil {
		h.Fail("Dial failed", "Dial(%s, %s): %v", network, address, err)
	}
	r.mkSyslog()
	var errAt []time.Duration
	h.Go("error reader", func() {
		for {
			e, ok := vsim.Recv2(r.errc)
			if !ok {
				r.closed = true
				return
			}
			errAt = append(errAt, h.S.Elapsed())
			h.S.Ev("error delivered", h.errText(e))
			r.errs = append(r.errs, e)
		}
	})
	checked := 0 // connections judged
	judge := func(last time.Duration) {
		for ; checked < len(conns); checked++ {
			c := conns[checked]
			if c.at < phaseAt {
				continue
			}
			// when did the attempt begin?
			var start time.Duration = -1
			for _, t := range w.Lookups {
				if t <= c.at {
					start = t
				}
			}
			if literal || start <= phaseAt || unspec {
				continue
			}
			h.S.Count("probe.phase_connected")
			if first < 0 {
				h.Fail("wrong address", "a connection to %s is made although no address of the name is usable for %s", pool[c.addr], network)
			}
			if c.addr != first {
				h.Fail("wrong address", "the sender connects to %s although %s comes first in the name server's answer and accepts connections (%s)", pool[c.addr], pool[first], network)
			}
		}
	}
	phases := h.G.Range(1, 4)
	var emitAll func(n int)
	emitAll = func(n int) {
		for i := 0; i < n; i++ {
			m := r.newMsg()
			r.emit(m)
			if h.G.P(1, 2) {
				h.S.Sleep(time.Duration(h.G.N(int(delay/1000)+1)) * time.Microsecond)
			}
		}
	}
	arrived := func() map[*Msg]bool {
		m := map[*Msg]bool{}
		for _, p := range r.frames("") {
			m[p.m] = true
		}
		return m
	}
	logged := func(what string) {
		a := arrived()
		for _, m := range r.msgs {
			if !m.Maybe && !a[m] {
				h.Fail("not delivered", "%s: message %s is not delivered although %s has accepted connections for %v", what, m.ID, pool[first], h.S.Elapsed()-phaseAt)
			}
		}
	}
	runPhase := func(long bool) {
		n := len(errAt)
		emitAll(h.G.Range(1, 3))
		if !long {
			h.S.Sleep(time.Duration(h.F.N(int(bound/1000/10)+1)) * time.Microsecond)
			judge(0)
			for _, m := range r.msgs { // the reset may hit what is on the way
				m.Maybe = true
			}
			return
		}
		h.S.Sleep(prev + bound)
		emitAll(h.G.N(3))
		h.S.Sleep(bound)
		defer func() { prev = 0 }()
		judge(0)
		switch {
		case unspec:
			for _, m := range r.msgs {
				m.Maybe = true
			}
		case first >= 0:
			h.S.Count("probe.phase_reachable")
			for _, t := range errAt[n:] {
				if t > phaseAt+prev+bound {
					h.Fail("spurious error", "an error is reported %v after %s became reachable: %v", t-phaseAt, pool[first], r.errs[len(r.errs)-1])
				}
			}
			logged("in a healthy phase")
		default:
			h.S.Count("probe.phase_unreachable")
			if c := conns; len(errAt) == n && (len(c) == 0 || c[len(c)-1].at < phaseAt) {
				h.Fail("no error reported", "no error is reported although nothing of the name is usable for %v (%s)", h.S.Elapsed()-phaseAt, network)
			}
		}
		h.Work++
	}
	for i := 0; i < phases; i++ {
		runPhase(h.F.P(2, 3))
		setPhase(h.F.P(1, 3))
	}
	if h.F.P(1, 3) { // End before the destination is back
		t := h.Go("ender", func() {
			r.ending = true
			h.S.Ev("End called")
			r.snd.End()
			h.S.Ev("End returned")
		})
		h.S.Sleep(time.Duration(h.F.N(100000)) * time.Microsecond)
		a := 0
		if !t.Done() {
			setPhase(true)
			a = 1
		}
		h.Join(prev+2*bound, "End does not return", t)
		h.S.Sleep(time.Second)
		judge(0)
		if a == 1 {
			for _, m := range r.msgs {
				if m.Inv == 0 {
					m.Maybe = true
				}
			}
		}
		r.frames("after End")
		h.S.Count("probe.phase_end")
		return
	}
	setPhase(true)
	runPhase(true)
	r.atEnd = func() {}
	r.end(prev + bound)
	h.S.Sleep(time.Second)
	ps := r.frames("after End")
	r.checkOrder(ps, "after End")
}

// hopeless dials an address that means nothing.
func hopeless(h *H, r *srun, network string, delay time.Duration) {
	address := []string{"logs.example.net:70000", "logs.example.net:-1", "logs.example.net:bogus", "logs.example.net:5 14", "logs.example.net:514:514", "[logs.example.net", "logs.example.net:99999999999999999999", "[]x:514"}[h.G.N(8)]
	h.Say("hopeless address %q", address)
	h.S.Count("probe.phase_hopeless")
	var err error
	var errc <-chan error
	r.snd, errc, err = syslog.Dialer{FlushDelay: delay}.Dial(network, address, r.k.transport())
	if err != nil {
		return
	}
	r.mkSyslog()
	seen := 0
	h.Go("error reader", func() {
		for {
			e, ok := vsim.Recv2(errc)
			if !ok {
				return
			}
			h.S.Ev("error delivered", h.errText(e))
			seen++
		}
	})
	for i, n := 0, h.G.Range(1, 4); i < n; i++ {
		t := h.Go("logger", func() { r.emit(r.newMsg()) })
		h.Join(time.Second, "logging blocked", t)
		before := seen
		h.S.Sleep(time.Duration(h.G.Range(2, 6))*delay + 15*time.Second)
		if seen == before {
			h.Fail("no error reported", "%s %q cannot be reached by any means, a message was logged, but no error was delivered for more than %v", network, address, delay+15*time.Second)
		}
		h.Work++
	}
}
