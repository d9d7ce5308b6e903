package harness

import (
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"strings"
	"syscall"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"

	simnet "verif.local/sim/snet"
	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

func init() {
	register(&Scenario{ID: "C05", Quick: 250000, Deep: 10000000, Real: append(append([]string{}, senderReal...), recvReal...), Stub: append(append([]string{}, senderStub...), recvStub...), Need: "fault.",
		Rule: "a sender or a receiver whose error channel nobody reads meets 1-40 failures (refused connects, failed writes, accepts and reads), then the faults stop; non-trivial: a fault fired; distinct by event history",
		Run:  runC05})
	register(&Scenario{ID: "C07", Quick: 400000, Deep: 16000000, Real: senderReal, Stub: append(append([]string{}, senderStub...), "simulated unix datagram socket"), Need: "fault.enobufs",
		Rule: "writes failing with ENOBUFS (none or a part of the bytes taken) one by one or for a while, on a stream stub and on a simulated unix datagram socket; non-trivial: ENOBUFS fired; distinct by event history",
		Run:  runC07})
	register(&Scenario{ID: "C08", Calm: true, Quick: 250000, Deep: 10000000, Real: append([]string{"syslog5424: Dialer, connectors (stdio, unix, unixgram, tcp)"}, senderReal...), Stub: []string{"standard streams and sockets (simulated)", "clock, tickers, scheduler, sync (simulator)"}, Need: "probe.timely",
		Rule: "Dial with flush delays from 0 to 3 s on stdio, unix, unixgram and tcp, messages logged at random instants; the clock advances only when everything is idle, so the bound is exact; distinct by event history",
		Run:  runC08})
}

func runC05(h *H) {
	if h.G.P(1, 2) {
		runC05Receiver(h)
		return
	}
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	d := r.d
	r.latencies()
	d.budget = h.G.Range(1, 40)
	if h.G.P(1, 100) {
		d.budget = h.G.Range(40, 2500)
	}
	d.refuse = []int{0, 200, 1000}[h.G.N(3)]
	d.fail = []int{100, 1000}[h.G.N(2)]
	if h.G.P(1, 6) {
		d.nobuf = 200
	}
	r.start(d)
	r.ticker(time.Duration(h.G.Range(50, 2000)) * time.Microsecond)
	// nobody reads the errors
	r.loadShape()
	r.describe()
	down := time.Duration(h.G.N(20)) * time.Millisecond
	if h.G.P(1, 2) {
		d.down = true
		if h.G.P(1, 2) {
			h.S.After(down, func() { d.down = false })
		}
	}
	// all the same how long the outage lasts
	h.Join(time.Minute, "logging blocked", r.tasks...)
	if d.down {
		h.S.After(down, func() { d.down = false })
	}
	if h.G.P(2, 3) {
		// the destination is back: what is kept gets written
		if !h.Wait(time.Minute, func() bool { return !d.down }) {
			h.Fail("internal", "outage without end")
		}
		d.budget = 0
		ok := h.Wait(time.Minute, func() bool { return r.allWritten() })
		if !ok {
			h.Fail("kept messages not written", "the destination is back and the flush ticks go on, but a minute later messages are not written; %d errors are unread", d.nerr)
		}
	}
	r.atEnd = func() {}
	r.end(time.Minute)
}

func (r *srun) allWritten() bool {
	n := 0
	for _, c := range r.d.conns {
		fr, _ := r.k.split(c.data)
		n += len(fr)
	}
	return n >= len(r.msgs)
}

func runC05Receiver(h *H) {
	r := newRRun(h, "stub")
	r.start()
	l := r.stub
	r.consume(1, 0)
	l.accErr = []int{300, 1000}[h.G.N(2)]
	l.budget = h.G.Range(0, 25)
	n := h.G.Range(0, 30)
	if h.G.P(1, 100) {
		n = h.G.Range(30, 2500)
	}
	if h.G.P(1, 100) {
		l.budget = h.G.Range(25, 2500)
	}
	for i := 0; i < n; i++ { // connections that fail
		p := r.connect()
		if h.G.P(1, 3) {
			p.send([]byte("x"))
		}
		h.S.Count("fault.read_error")
		p.fail(fmt.Errorf("injected read failure %d", i))
		if h.G.P(1, 4) {
			h.Pause(2 * time.Millisecond)
		}
	}
	var ps []*peer
	for i, k := 0, h.G.Range(1, 3); i < k; i++ {
		p := r.connect()
		ps = append(ps, p)
		for j, q := 0, h.G.Range(1, 3); j < q; j++ {
			m := r.wire()
			p.msgs = append(p.msgs, m)
			p.send(r.k.frame(m.line(m.TS)))
		}
		if h.G.P(1, 2) {
			p.end()
		}
	}
	ok := h.Wait(5*time.Minute, func() bool {
		for _, p := range ps {
			if !r.allGot(p) {
				return false
			}
		}
		return true
	})
	if !ok {
		for _, p := range ps {
			if !p.st.accepted {
				h.Fail("peer not accepted", "peer %d is not accepted: %d failures, whose errors nobody read, came before", p.id, len(r.injected)+n)
			}
		}
		h.Fail("message not delivered", "a peer's message is not delivered: %d failures, whose errors nobody read, came before", len(r.injected)+n)
	}
	h.Work++
}

func runC07(h *H) {
	if h.G.P(1, 3) {
		runC07Dgram(h)
		return
	}
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	d := r.d
	r.latencies()
	d.dgram = h.G.P(1, 3)
	breaks := h.G.P(1, 6) // connections break as well
	r.faults(false, breaks, true)
	if breaks {
		h.S.Count("probe.breaks_as_well")
	}
	r.start(d)
	r.tickShape()
	if h.G.P(1, 2) { // no buffers for a while
		for i, n := 0, h.G.Range(1, 3); i < n; i++ {
			at := time.Duration(h.G.N(9000)) * time.Microsecond
			dur := time.Duration(h.G.N(6000)) * time.Microsecond
			h.S.After(at, func() {
				h.S.Ev("no buffers")
				d.nobufUntil = h.S.Elapsed() + dur
			})
		}
	}
	r.readErrors()
	r.atEnd = func() {
		r.checkWritten("when End has returned", true)
		if n := len(d.conns); n > 1+d.nerr {
			h.Fail("connection dropped after ENOBUFS", "%d connections were made although only %d writes failed with anything else than ENOBUFS", n, d.nerr)
		}
		if d.dgram {
			for _, c := range d.conns {
				r.oneFrameEach(c.writes)
			}
		}
	}
	r.loadShape()
	r.runAndEnd(time.Minute)
	h.Settle(time.Millisecond)
	for _, e := range r.errs {
		if !breaks || isNobufs(e) {
			h.Fail("ENOBUFS reported", "an error was reported although writes failed only with ENOBUFS: %v", e)
		}
	}
}

// isNobufs as a sender tells it.
func isNobufs(err error) bool {
	op, ok := err.(*stdnet.OpError)
	if !ok {
		return false
	}
	sc, ok := op.Err.(*simos.SyscallError)
	return ok && sc.Err == syscall.ENOBUFS
}

func (r *srun) oneFrameEach(writes [][]byte) {
	for i, w := range writes {
		fr, rest := r.k.split(w)
		if len(fr) != 1 || len(rest) != 0 {
			r.h.Fail("datagram is not one frame", "datagram %d holds %d whole frames and %d bytes more: %s", i, len(fr), len(rest), clip(w))
		}
	}
}

// rawServer is a server at a socket that only records what comes.
type rawServer struct {
	h     *H
	k     kind
	data  []*sconn // one per connection
	dgram [][]byte
	at    []time.Duration
	c     *simnet.UnixConn
}

func runC07Dgram(h *H) {
	k := pickKind(h)
	w := simnet.Net()
	w.DgramQ = h.G.Range(1, 5)
	c, err := simnet.ListenUnixgram("unixgram", &simnet.UnixAddr{Name: "/run/log.sock", Net: "unixgram"})
	if err != nil {
		h.Fail("internal", "%v", err)
	}
	d := newDest(h, k)
	r := newSRun(h, k, d)
	sink := &sconn{d: d}
	d.conns = append(d.conns, sink)
	stop := false
	h.Go("datagram server", func() {
		buf := make([]byte, 1<<18)
		for !stop {
			n, _, err := c.ReadFromUnix(buf)
			if err != nil {
				return
			}
			sink.writes = append(sink.writes, append([]byte(nil), buf[:n]...))
			sink.data = append(sink.data, buf[:n]...)
			h.S.Ev("datagram", buf[:n])
			if h.F.P(1, 4) {
				h.S.Sleep(time.Duration(h.F.N(1500)) * time.Microsecond)
			}
		}
	})
	// when the queue is full, or when it is decided
	w.DgramFull = syscall.ENOBUFS
	rate := []int{0, 100, 500}[h.G.N(3)]
	budget := h.G.Range(0, 20)
	w.Fault = func(op string) error {
		if op == "write" && budget > 0 && h.F.P(rate, 1000) {
			budget--
			h.S.Count("fault.enobufs")
			h.S.Sleep(100 * time.Microsecond)
			return syscall.ENOBUFS
		}
		return nil
	}
	delay := time.Duration(h.G.Range(1500, 6000)) * time.Microsecond
	if h.G.P(1, 4) {
		delay = 0
	}
	snd, errc, err := syslog.Dialer{FlushDelay: delay}.Dial("unixgram", "/run/log.sock", k.transport())
	if err != nil {
		h.Fail("internal", "%v", err)
	}
	r.snd, r.errc = snd, errc
	r.mkSyslog()
	r.readErrors()
	r.loadShape()
	h.Say("datagram queue=%d flush=%v", w.DgramQ, delay)
	opened := 0
	r.atEnd = func() {
		for _, s := range w.Socks() {
			if s.Network() == "unixgram" {
				opened++
			}
		}
		h.S.Sleep(30 * time.Millisecond) // the server reads
	}
	r.runAndEnd(5 * time.Minute)
	h.Settle(time.Second)
	stop = true
	r.checkWritten("after End", true)
	r.oneFrameEach(sink.writes)
	if opened > 2 {
		h.Fail("connection dropped after ENOBUFS", "%d sockets were opened although writes failed only with ENOBUFS", opened-1)
	}
	if len(r.errs) > 0 {
		h.Fail("ENOBUFS reported", "writes failed only with ENOBUFS but an error was reported: %v", r.errs[0])
	}
	c.Close()
}

// sink of a standard stream.
func (c *sconn) sink() simos.Sink { return (*sinkConn)(c) }

type sinkConn sconn

func (c *sinkConn) Write(p []byte) (int, error) {
	(*sconn)(c).take(p)
	c.d.h.S.Ev("sink", len(p))
	return len(p), nil
}

// collect accepts connections at a simulated address and records what comes, at once.
func (r *srun) collect(network, address string) {
	h := r.h
	w := simnet.Net()
	w.Lat = func() time.Duration { return 0 }
	w.LookupTime = 0
	var accept func() (io.Reader, error)
	switch network {
	case "stdio":
		c := &sconn{d: r.d}
		r.d.conns = append(r.d.conns, c)
		if address == "stderr:" {
			simos.Stderr.SetSink(c.sink())
		} else {
			simos.Stdout.SetSink(c.sink())
		}
		return
	case "unix":
		l, err := simnet.ListenUnix("unix", &simnet.UnixAddr{Name: address, Net: "unix"})
		if err != nil {
			h.Fail("internal", "%v", err)
		}
		accept = func() (io.Reader, error) { return l.AcceptUnix() }
	case "tcp":
		l, err := simnet.ListenTCP("tcp", &simnet.TCPAddr{Port: 514})
		if err != nil {
			h.Fail("internal", "%v", err)
		}
		accept = func() (io.Reader, error) { return l.AcceptTCP() }
	case "unixgram":
		w.DgramQ = 1 << 20
		l, err := simnet.ListenUnixgram("unixgram", &simnet.UnixAddr{Name: address, Net: "unixgram"})
		if err != nil {
			h.Fail("internal", "%v", err)
		}
		first := true
		accept = func() (io.Reader, error) {
			if first {
				first = false
				return l, nil
			}
			return nil, errors.New("no more")
		}
	}
	h.Go("server", func() {
		for {
			rd, err := accept()
			if err != nil {
				return
			}
			c := &sconn{d: r.d, id: len(r.d.conns)}
			r.d.conns = append(r.d.conns, c)
			h.Go("server connection", func() {
				buf := make([]byte, 1<<17)
				for {
					n, err := rd.Read(buf)
					if n > 0 {
						c.take(buf[:n])
						h.S.Ev("arrived", c.id, n)
					}
					if err != nil {
						return
					}
				}
			})
		}
	})
}

func runC08(h *H) {
	k := pickKind(h)
	d := newDest(h, k)
	r := newSRun(h, k, d)
	network := []string{"stdio", "unix", "unixgram", "tcp"}[h.G.N(4)]
	address := map[string]string{"stdio": []string{"stdout:", "stderr:"}[h.G.N(2)], "unix": "/run/log.sock", "unixgram": "/run/log.sock", "tcp": "localhost:514"}[network]
	delay := []time.Duration{0, 1, time.Millisecond, 999 * time.Microsecond, time.Millisecond + 1, 1500 * time.Microsecond, 2 * time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, 500 * time.Millisecond, 3 * time.Second}[h.G.N(11)]
	if h.G.P(1, 6) {
		delay = []time.Duration{time.Duration(h.G.Range(1001, 99999)) * time.Microsecond, time.Duration(h.G.Range(1000001, 999999999)), 10 * time.Second, time.Minute, 2 * time.Hour}[h.G.N(5)]
	}
	auto := delay > time.Millisecond
	h.Say("Dial %s %s %v flush=%v", network, address, k, delay)
	r.collect(network, address)
	var err error
	if delay == 500*time.Millisecond && h.G.P(1, 2) {
		// the documented preset
		r.k = map[string]kind{"stdio": kLF, "unix": kNUL, "unixgram": kNUL, "tcp": kLF}[network]
		d.k = r.k
		r.snd, r.errc, err = syslog.Dial(network, address)
	} else {
		r.snd, r.errc, err = syslog.Dialer{FlushDelay: delay}.Dial(network, address, k.transport())
	}
	if err != nil {
		h.Fail("Dial failed", "%v", err)
	}
	r.mkSyslog()
	r.readErrors()
	unit := delay
	if !auto {
		unit = 50 * time.Millisecond
	}
	type stamp struct {
		m  *Msg
		at time.Duration
	}
	var st []*stamp
	var tasks []*vsim.Task
	for i, n := 0, h.G.Range(1, 3); i < n; i++ {
		var ms []*Msg
		var ws []time.Duration
		for j, q := 0, h.G.Range(1, 6); j < q; j++ {
			ms = append(ms, r.newMsg())
			wt := time.Duration(0)
			switch h.G.N(4) {
			case 0:
				wt = time.Duration(h.G.N(int(unit/1000)*3+1)) * 1000
			case 1: // just before, at and after a tick
				wt = unit - h.S.Elapsed()%unit + time.Duration(h.G.N(3)-1)
			case 2:
				wt = time.Duration(h.G.N(int(unit/1000)/10+1)) * 1000
			case 3:
				if h.G.P(1, 12) { // long idle
					wt = unit*time.Duration(h.G.N(30)) + time.Duration(h.G.N(int(unit)+1))
					h.S.Count("probe.idle")
				}
			}
			ws = append(ws, wt)
		}
		if i == 0 && h.G.P(1, 2000) {
			h.S.Count("probe.burst")
			for j, q := 0, h.G.Range(100, 2000); j < q; j++ {
				ms = append(ms, r.newMsg())
				ws = append(ws, 0)
			}
		}
		if i == 0 && network != "unixgram" && h.G.P(1, 400) {
			h.S.Count("probe.megabytes")
			for j, q := 0, h.G.Range(4, 30); j < q; j++ {
				m := r.plainMsg()
				m.Text += strings.Repeat("0123456789abcdef", h.G.Range(1000, 30000)) + "."
				ms = append(ms, m)
				ws = append(ws, 0)
			}
		}
		tasks = append(tasks, h.Go(fmt.Sprintf("logger%d", i), func() {
			for j, m := range ms {
				if ws[j] > 0 {
					h.S.Sleep(ws[j])
				}
				r.emit(m)
				st = append(st, &stamp{m, h.S.Elapsed()})
			}
		}))
	}
	h.Join(10*time.Minute+200*unit, "logging blocked", tasks...)
	eps := 10 * time.Microsecond
	if auto {
		h.Settle(2*delay + time.Second)
		for _, x := range st {
			at, ok := r.when(x.m)
			if !ok {
				h.Fail("not flushed", "message %s, logged at %v, is not written %v later (flush delay %v)", x.m.ID, x.at, h.S.Elapsed()-x.at, delay)
			}
			if at > x.at+delay+eps {
				h.Fail("flushed late", "message %s, logged at %v, was written %v later (flush delay %v)", x.m.ID, x.at, at-x.at, delay)
			}
			h.S.Count("probe.timely")
		}
	} else {
		h.Settle(time.Duration(h.G.N(5000)) * time.Millisecond)
		for _, c := range d.conns {
			if len(c.data) > 0 {
				h.Fail("flushed before End", "flush delay %v, but %d bytes were written before End", delay, len(c.data))
			}
		}
		h.S.Count("probe.timely")
	}
	r.atEnd = func() {}
	r.end(time.Minute)
	h.Settle(time.Second)
	r.checkWritten("after End", true)
}

// when a message had been written completely.
func (r *srun) when(m *Msg) (time.Duration, bool) {
	for _, c := range r.d.conns {
		fr, rest := r.k.split(c.data)
		if len(rest) > 0 {
			continue
		}
		end := 0
		for _, f := range fr {
			end += len(r.k.frame(f))
			if strings.Contains(string(f), m.ID) && m.matches(f) {
				for i, u := range c.upto {
					if u >= end {
						return c.at[i], true
					}
				}
			}
		}
	}
	return 0, false
}
