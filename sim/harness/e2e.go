package harness

import (
	"fmt"
	stdnet "net"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"

	simnet "verif.local/sim/snet"
	"verif.local/sim/vsim"
)

func init() {
	register(&Scenario{ID: "C21", Calm: true, Quick: 30000, Deep: 1200000, Need: "probe.e2e_",
		Real: append(append([]string{"syslog5424: Dialer, TCPConnector, LocalConnector, listeners"}, senderReal...), recvReal...),
		Stub: []string{"sockets, file system, processes and their crashes (simulated)", "clock, tickers, goroutine scheduler, channels, sync, time, log.Logger locking (simulator)"},
		Rule: "client made with Dial, server made with the library's receiver in another process, over tcp, unix or unixgram and any transport; a third of the runs are healthy, in the others the server's process crashes, its machine loses power, the server ends and starts again, the path is partitioned and heals, connections are reset, at random instants; distinct by event history",
		Run:  runC21})
}

// server is one instance of the receiving process.
type server struct {
	id    int
	node  *vsim.Node
	rcv   *syslog.Receiver
	up    bool
	err   error
	got   []*rmsg
	at    time.Duration
	ended bool
}

type e2e struct {
	*srun
	network, addr string
	lnet, laddr   string // of the listener, if they differ
	servers       []*server
	slow          time.Duration
	queue         int
	ip            string
}

func (e *e2e) startServer() *server {
	h := e.h
	s := &server{id: len(e.servers)}
	s.node = &vsim.Node{Name: fmt.Sprintf("server%d", s.id)}
	e.servers = append(e.servers, s)
	done := false
	h.S.GoOn(s.node, fmt.Sprintf("server%d", s.id), func() {
		network, addr := e.network, e.addr
		if e.lnet != "" {
			network, addr = e.lnet, e.laddr
		}
		l, err := syslog.GuessListener(network, addr)
		if err != nil {
			s.err = err
			done = true
			return
		}
		rcv, errc := syslog.NewReceiver(l, e.queue, e.k.transport())
		s.rcv = rcv
		s.up = true
		s.at = h.S.Elapsed()
		done = true
		h.S.Ev("server up", s.id)
		if h.F.P(1, 2) {
			h.S.GoOn(s.node, "server errors", func() {
				for {
					x, ok := vsim.Recv2(errc)
					if !ok {
						return
					}
					h.S.Ev("server error", h.errText(x))
				}
			})
		}
		for {
			g := &rmsg{who: s.id, inv: h.S.Seq()}
			var ok bool
			g.msg, g.err, ok = rcv.Receive()
			if !ok {
				s.ended = true
				h.S.Ev("server: end", s.id)
				return
			}
			g.ret, g.at = h.S.Seq(), h.S.Elapsed()
			if g.err != nil {
				h.S.Ev("server: error", s.id, g.err.Error())
			} else {
				h.S.Ev("server: receive", s.id, g.msg.String())
			}
			s.got = append(s.got, g)
			if e.slow > 0 && h.F.P(1, 3) {
				h.S.Sleep(time.Duration(h.F.N(int(e.slow/time.Microsecond))) * time.Microsecond)
			}
		}
	})
	if !h.wait(10*time.Minute, func() bool { return done }) {
		h.Fail("server does not start", "creating a %s listener at %s does not return", e.network, e.addr)
	}
	if s.err != nil {
		h.Fail("server does not start", "server instance %d: a %s listener cannot be created at %s: %v", s.id, e.network, e.addr, s.err)
	}
	return s
}

// received matches what all instances got with what was logged.
func (e *e2e) received(when string, healthy bool) map[*Msg]*rmsg {
	h := e.h
	byID := map[string][]*Msg{} // several: the same message again and again, by one task
	for _, m := range e.msgs {
		byID[m.ID] = append(byID[m.ID], m)
	}
	seen := map[*Msg]*rmsg{}
	var max *Msg
	for _, s := range e.servers {
		for _, g := range s.got {
			if g.err != nil {
				if healthy {
					h.Fail("spurious error", "%s: Receive gave the error %q although nothing failed", when, g.err)
				}
				continue
			}
			f := []byte(g.msg.String())
			var m *Msg
			for _, m = range byID[findID(f)] {
				if seen[m] == nil {
					break
				}
			}
			if m == nil {
				h.Fail("message never logged", "%s: server %d received %s", when, s.id, clip(f))
			}
			if !m.matches(f) {
				h.Fail("message altered", "%s: server %d received %s for message %s, expected %s", when, s.id, clip(f), m.ID, clip(m.line("<time>")))
			}
			e.fields(m, g.msg, when)
			if o := seen[m]; o != nil {
				h.Fail("delivered twice", "%s: message %s was received twice, by server %d and server %d", when, m.ID, o.who, s.id)
			}
			seen[m] = g
			if max != nil && m.Ret > 0 && m.Ret < max.Inv {
				h.Fail("reordered", "%s: message %s was logged before %s but is received after it", when, m.ID, max.ID)
			}
			if max == nil || m.Inv > max.Inv {
				max = m
			}
		}
	}
	return seen
}

func (e *e2e) fields(m *Msg, g syslog.MessageImmutable, when string) {
	n := *m
	if m.TS == "" {
		if t := g.TimeStamp(); t.IsZero() {
			e.h.Fail("message altered", "%s: message %s has no time", when, m.ID)
		}
	}
	if m.Loose {
		n.Text = g.Text()
	}
	if d := sameFields(&n, g); d != "" {
		e.h.Fail("message altered", "%s: message %s: %s", when, m.ID, d)
	}
}

// log emits a message; some with structured data or through derived channels.
func (e *e2e) log(m *Msg) {
	switch m.How {
	case "sd", "sub":
	default:
		e.emit(m)
		return
	}
	if e.ending {
		m.Maybe = true
	}
	e.msgs = append(e.msgs, m)
	m.Inv = e.h.S.Seq()
	e.h.S.Ev("log", m.ID, m.How)
	c := e.sl.Channel(syslog.Priority(m.Prio))
	if m.How == "sub" {
		c = e.sl.SubSyslog("sub").Channel(syslog.Priority(m.Prio)).Msgid(m.MsgID)
	}
	if m.SD != "-" {
		c.Log(m.Text, sdata.StructuredData(hsd(m.SD)))
	} else {
		c.Log(m.Text)
	}
	m.Ret = e.h.S.Seq()
	e.h.S.Ev("accepted", m.ID)
	e.h.Work++
}

func (e *e2e) message() *Msg {
	g := e.h.G
	m := e.newMsg()
	if m.How == "log" && m.SD == "-" && m.Text != "" {
		switch g.N(3) {
		case 1:
			m.How, m.SD = "sd", string(e.h.hsd())
		case 2:
			m.How, m.App, m.MsgID = "sub", e.app+"/sub", tokens[1+g.N(3)]
			if g.P(1, 2) {
				m.SD = string(e.h.hsd())
			}
		}
	}
	return m
}

func runC21(h *H) {
	k := pickKind(h)
	e := &e2e{srun: newSRun(h, k, newDest(h, k)), ip: "192.0.2.10"}
	e.sizes = h.G.N(2)
	w := simnet.Net()
	w.ConnectTO = 127 * time.Second
	e.network = []string{"tcp", "unix", "unixgram"}[h.G.N(3)]
	e.addr = "/run/log.sock"
	cnet := e.network
	if e.network == "tcp" {
		six := h.G.P(1, 3)
		if six {
			e.ip = "2001:db8::10"
		}
		e.addr = stdnet.JoinHostPort(e.ip, "1514")
		own := map[bool]string{false: "tcp4", true: "tcp6"}[six]
		cnet = []string{"tcp", own}[h.G.N(2)]
		e.lnet = []string{"tcp", own}[h.G.N(2)]
		e.laddr = []string{e.addr, e.addr, ":1514"}[h.G.N(3)]
	}
	w.DgramQ = []int{1, 3, 10}[h.G.N(3)]
	w.UnixBuf = []int{1 << 16, 3000, 200}[h.G.N(3)]
	w.Window = []int{1 << 16, 1 << 16, 1500, 100}[h.G.N(4)]
	lat := []int{0, 20, 300, 3000}[h.G.N(4)]
	w.Lat = func() time.Duration { return time.Duration(20+h.F.N(lat+1)) * time.Microsecond }
	cuts := 0
	if m := h.G.N(6); e.network == "tcp" && m != 0 {
		rr := &rrun{h: h}
		w.Seg = func(n int) int {
			if cuts++; cuts > 3000 {
				return n
			}
			return rr.cut(m, n)
		}
	}
	e.queue = []int{0, 1, 5, 100}[h.G.N(4)]
	healthy := h.G.P(1, 3)
	if healthy && h.G.P(1, 2) {
		e.slow = time.Duration(h.G.Range(10, 3000)) * time.Microsecond
	}
	delay := h.flushDelay()
	limit := 10*time.Minute + 200*delay
	late := !healthy && h.G.P(1, 4) // the server is not there yet
	h.Say("%s %s (listener: %s %s) %v flush=%v healthy=%v late=%v queue=%d", cnet, e.addr, e.lnet, e.laddr, k, delay, healthy, late, e.queue)
	var srv *server
	if !late {
		srv = e.startServer()
	}
	var err error
	tr := k.transport()
	if (k == kLF) == (e.network == "tcp") && k != kRFC && h.G.P(1, 2) {
		tr = nil // the common one of the network
	}
	e.snd, e.errc, err = syslog.Dialer{FlushDelay: delay}.Dial(cnet, e.addr, tr)
	if err != nil {
		h.Fail("Dial failed", "%v", err)
	}
	e.mkSyslog()
	if h.G.P(3, 4) {
		e.readErrors()
	}
	load := func(tasks, ops int, gap time.Duration) {
		for i := 0; i < tasks; i++ {
			var ms []*Msg
			var ps []time.Duration
			for j, n := 0, h.G.N(ops+1); j < n; j++ {
				ms = append(ms, e.message())
				p := time.Duration(0)
				if h.G.P(1, 2) {
					p = time.Duration(h.G.N(int(gap/time.Microsecond)+1)) * time.Microsecond
				}
				ps = append(ps, p)
				if m := ms[len(ms)-1]; healthy && len(m.sds) == 0 && h.G.P(1, 15) {
					h.S.Count("probe.same_again")
					for c := h.G.Range(1, 3); c > 0; c-- {
						t := *m
						ms, ps = append(ms, &t), append(ps, p*time.Duration(h.G.N(2)))
					}
				}
			}
			e.tasks = append(e.tasks, h.Go(fmt.Sprintf("logger%d", i), func() {
				for j, m := range ms {
					if ps[j] > 0 {
						h.S.Sleep(ps[j])
					}
					e.log(m)
				}
			}))
		}
	}
	e.atEnd = func() {}
	if healthy {
		if h.G.P(1, 800) {
			h.S.Count("probe.big_burst")
			sizes := e.sizes
			e.sizes, e.slow = 0, 0
			w.UnixBuf, w.Window, w.Seg = 1<<16, 1<<16, nil
			load(1, 4000, 0)
			e.sizes = sizes
		}
		load(h.G.Range(1, 4), []int{4, 10, 30}[h.G.N(3)], []time.Duration{time.Millisecond, delay}[h.G.N(2)])
		switch h.G.N(3) {
		case 0:
			h.Pause(3 * delay)
		default:
			h.Join(limit, "logging blocked", e.tasks...)
		}
		e.end(10 * time.Minute)
		h.Join(limit, "logging blocked", e.tasks...)
		h.Settle(5 * time.Second)
		if e.slow > 0 {
			h.Settle(10 * time.Second)
		}
		seen := e.received("after a healthy session", true)
		for _, m := range e.msgs {
			if !m.Maybe && m.Ret > 0 && seen[m] == nil {
				h.Fail("lost message", "after a healthy session over %s: message %s was not received", e.network, m.ID)
			}
		}
		h.S.Count("probe.e2e_healthy")
		e.stopServer(srv)
		return
	}

	// with failures
	unit := delay
	if unit < 20*time.Millisecond {
		unit = 20 * time.Millisecond
	}
	load(h.G.Range(1, 3), []int{4, 10, 30}[h.G.N(3)], unit)
	for i, n := 0, h.G.Range(1, 3); i < n; i++ {
		h.S.Sleep(time.Duration(h.F.N(int(2*unit/time.Microsecond))) * time.Microsecond)
		if h.F.P(1, 2) { // in the middle of something
			for j, y := 0, h.F.N(60); j < y; j++ {
				vsim.Y()
			}
		}
		outage := time.Duration(h.F.N(int(4*unit/time.Microsecond))) * time.Microsecond
		if h.F.P(1, 10) {
			outage *= 20
		}
		what := h.F.N(5)
		if srv == nil {
			what = 0
		}
		switch what {
		case 0, 1: // the process crashes
			if srv != nil {
				h.S.Count("fault.server_crash")
				h.S.Ev("server crashes", srv.id)
				h.S.KillNode(srv.node)
				w.Crash(srv.node, false)
			}
		case 2: // the machine loses power
			h.S.Count("fault.server_power_loss")
			h.S.Ev("server loses power", srv.id)
			h.S.KillNode(srv.node)
			w.Crash(srv.node, true)
			if e.network == "tcp" {
				w.SetDown(e.ip, true)
			}
		case 3: // ended and started again
			h.S.Count("fault.server_restart")
			e.stopServer(srv)
		case 4: // network trouble
			if e.network != "tcp" {
				continue
			}
			if h.F.P(1, 2) {
				for _, s := range w.Socks() {
					if s.Network() == "tcp" && !s.IsClosed() && s.Peer() != nil && s.Node() == srv.node {
						s.Abort()
					}
				}
			} else {
				w.SetDown(e.ip, true)
				h.S.Sleep(outage)
				w.SetDown(e.ip, false)
			}
			continue
		}
		h.S.Sleep(outage)
		w.SetDown(e.ip, false)
		srv = e.startServer()
	}
	if srv == nil {
		srv = e.startServer()
	}
	// from here on everything works; the application goes on logging
	h.Join(limit, "logging blocked", e.tasks...)
	restart := h.S.Elapsed()
	grace := 6*delay + 100*time.Millisecond
	if e.network == "tcp" {
		grace += 1500 * time.Millisecond // a connect repeated every second
	}
	var fresh []*Msg
	step := delay / 2
	for n := 0; h.S.Elapsed() < restart+grace || n < 8; n++ {
		h.S.Sleep(step)
		m := e.message()
		if h.S.Elapsed() >= restart+grace {
			fresh = append(fresh, m)
		}
		t := h.Go("steady logger", func() { e.log(m) })
		h.Join(limit, "logging blocked", t)
		if n > 30 && step < grace/8 {
			step *= 2
		}
		if step > delay {
			step = delay
		}
	}
	h.S.Sleep(2*delay + 2*time.Second)
	seen := e.received("after the last restart", false)
	for _, m := range fresh {
		if seen[m] == nil {
			h.Fail("no recovery", "the server is up again since %v (flush delay %v, steady logging over %s), but message %s, logged later than %v after that, does not arrive", h.S.Elapsed()-restart, delay, e.network, m.ID, grace)
		}
	}
	h.S.Count("probe.e2e_recovered")
	e.end(10 * time.Minute)
	h.Settle(5 * time.Second)
	seen = e.received("at the end", false)
	for _, m := range fresh {
		if seen[m] == nil {
			h.Fail("lost message", "message %s vanished", m.ID)
		}
	}
	e.stopServer(srv)
}

// stopServer ends the receiver of an instance, from its own process.
func (e *e2e) stopServer(s *server) {
	h := e.h
	t := h.S.GoOn(s.node, "server ender", func() {
		h.S.Ev("server: End called", s.id)
		s.rcv.End()
	})
	h.Join(10*time.Minute, "server End does not return", t)
	if !h.wait(time.Minute, func() bool { return s.ended }) {
		h.Fail("server does not end", "server %d: Receive does not report the end a minute after End", s.id)
	}
}

// flushDelay for a session over sockets; with a long one, outages last for hours.
func (h *H) flushDelay() time.Duration {
	if h.G.P(1, 15) {
		h.S.Count("probe.long_flush_delay")
		return []time.Duration{5 * time.Second, time.Minute, 17 * time.Minute}[h.G.N(3)]
	}
	return []time.Duration{2 * time.Millisecond, 10 * time.Millisecond, 50 * time.Millisecond, 500 * time.Millisecond}[h.G.N(4)]
}
