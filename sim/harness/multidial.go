package harness

import (
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"

	simnet "verif.local/sim/snet"
	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

// C27 over the library's own connectors: senders made with Dial, several of
// them perhaps to the same destination.

const (
	tgUp = iota
	tgAbsent
	tgSilent
	tgMute
	tgStalled
	tgResets
	tgBroken
)

var tgNames = []string{"up", "absent", "silent", "without an answer of the name server", "not reading", "resetting", "failing"}

// target is a destination; its dest records what arrives.
type target struct {
	h             *H
	i             int
	network, addr string // for Dial
	ip, path      string
	k             kind
	role          int
	d             *dest
	up            bool
	broken        bool
	socks         []*simnet.Sock
	senders       []*dsend
}

func (t *target) String() string {
	return fmt.Sprintf("destination %d (%s %s, %s)", t.i, t.network, t.addr, tgNames[t.role])
}

type dsend struct {
	*srun
	t     *target
	delay time.Duration
	st    []*stampedMsg
	done  bool
}

// tgSink is a standard stream.
type tgSink struct {
	t *target
	c *sconn
}

func (s tgSink) Write(p []byte) (int, error) {
	if s.t.broken {
		s.t.h.S.Count("fault.write_error")
		s.t.h.S.Sleep(2 * time.Millisecond)
		return 0, errors.New("injected write failure")
	}
	s.c.take(p)
	s.t.h.S.Ev("sink", s.t.i, len(p))
	return len(p), nil
}

// record notes what a connection brings.
func (t *target) record(rd io.Reader) {
	h := t.h
	c := &sconn{d: t.d, id: len(t.d.conns)}
	t.d.conns = append(t.d.conns, c)
	h.Go("destination connection", func() {
		for t.role == tgStalled && !t.up {
			h.S.Sleep(20 * time.Millisecond)
		}
		buf := make([]byte, 1<<16)
		for {
			n, err := rd.Read(buf)
			if n > 0 {
				c.take(buf[:n])
				h.S.Ev("arrived", t.i, c.id, n)
			}
			if err != nil {
				if t.role == tgResets {
					c.failed = true
				}
				return
			}
		}
	})
}

// serve makes the destination accept.
func (t *target) serve() {
	h := t.h
	var accept func() (io.Reader, error)
	switch t.network {
	case "stdio":
		c := &sconn{d: t.d}
		t.d.conns = append(t.d.conns, c)
		if t.addr == "stderr:" {
			simos.Stderr.SetSink(tgSink{t, c})
		} else {
			simos.Stdout.SetSink(tgSink{t, c})
		}
		return
	case "tcp", "tcp4", "tcp6":
		l, err := simnet.ListenTCP("tcp", &simnet.TCPAddr{IP: stdnet.ParseIP(t.ip), Port: 514})
		if err != nil {
			h.Fail("internal", "%v", err)
		}
		accept = func() (io.Reader, error) {
			c, err := l.AcceptTCP()
			if err == nil {
				t.socks = append(t.socks, c.Sock())
			}
			return c, err
		}
	case "unix":
		l, err := simnet.ListenUnix("unix", &simnet.UnixAddr{Name: t.path, Net: "unix"})
		if err != nil {
			h.Fail("internal", "%v", err)
		}
		accept = func() (io.Reader, error) { return l.AcceptUnix() }
	case "unixgram":
		l, err := simnet.ListenUnixgram("unixgram", &simnet.UnixAddr{Name: t.path, Net: "unixgram"})
		if err != nil {
			h.Fail("internal", "%v", err)
		}
		t.record(l)
		return
	case "local":
		if h.G.P(1, 2) {
			l, err := simnet.ListenUnixgram("unixgram", &simnet.UnixAddr{Name: t.path, Net: "unixgram"})
			if err != nil {
				h.Fail("internal", "%v", err)
			}
			t.record(l)
			return
		}
		l, err := simnet.ListenUnix("unix", &simnet.UnixAddr{Name: t.path, Net: "unix"})
		if err != nil {
			h.Fail("internal", "%v", err)
		}
		accept = func() (io.Reader, error) { return l.AcceptUnix() }
	}
	h.Go("destination", func() {
		for {
			rd, err := accept()
			if err != nil {
				return
			}
			t.record(rd)
		}
	})
}

// own gives each sender what arrived of it, at its destination and nowhere else.
func ownParts(h *H, ts []*target, ss []*dsend, when string) {
	owner := map[string]*dsend{}
	for _, x := range ss {
		x.d = newDest(h, x.t.k)
		for _, m := range x.msgs {
			owner[m.ID] = x
		}
	}
	for _, t := range ts {
		for _, c := range t.d.conns {
			fr, rest := t.k.split(c.data)
			parts := map[*dsend]*sconn{}
			part := func(x *dsend) *sconn {
				p := parts[x]
				if p == nil {
					p = &sconn{d: x.d, id: c.id, failed: c.failed}
					parts[x] = p
					x.d.conns = append(x.d.conns, p)
				}
				return p
			}
			end, n := 0, 0
			for i, f := range fr {
				b := t.k.frame(f)
				end += len(b)
				for n < len(c.upto) && c.upto[n] < end {
					n++
				}
				x := owner[findID(f)]
				if x == nil {
					h.Fail("garbled frame", "%s: %v, connection %d, frame %d is not a logged message: %s", when, t, c.id, i, clip(f))
				}
				if x.t != t {
					h.Fail("message elsewhere", "%s: message %s was logged through a sender for %v, but arrived at %v", when, findID(f), x.t, t)
				}
				p := part(x)
				p.data = append(p.data, b...)
				p.at, p.upto = append(p.at, c.at[n]), append(p.upto, len(p.data))
			}
			if len(rest) > 0 && !c.failed && t.role != tgStalled {
				h.Fail("torn frame", "%s: %v, connection %d ends with an incomplete frame: %s", when, t, c.id, clip(rest))
			}
			if len(parts) > 1 && t.network != "stdio" && t.network != "unixgram" && t.network != "local" {
				h.Fail("connection shared", "%s: %v, connection %d carries messages of %d senders", when, t, c.id, len(parts))
			}
		}
	}
}

func runC27dial(h *H) {
	w := simnet.Net()
	w.Lat = func() time.Duration { return 50 * time.Microsecond } // a refusal takes time
	w.LookupTime = 0
	w.ConnectTO = []time.Duration{3 * time.Second, 127 * time.Second}[h.G.N(2)]
	w.DgramQ = 1 << 20
	w.Window = []int{1 << 16, 1500}[h.G.N(2)]
	h.S.Count("probe.dialled")
	var ts []*target
	used := map[string]bool{}
	nt := h.G.Range(1, 4)
	for len(ts) < nt {
		t := &target{h: h, i: len(ts), k: pickKind(h)}
		t.network = []string{"tcp", "tcp4", "tcp6", "unix", "unixgram", "stdio", "local"}[h.G.N(7)]
		t.role = []int{tgUp, tgUp, tgUp, tgAbsent, tgSilent, tgMute, tgStalled, tgResets, tgBroken}[h.G.N(9)]
		ok := true
		switch t.network {
		case "tcp", "tcp4", "tcp6":
			t.ip = fmt.Sprintf("192.0.2.%d", 10+t.i)
			if t.network == "tcp6" || t.network == "tcp" && h.G.P(1, 3) {
				t.ip = fmt.Sprintf("2001:db8::%d", 10+t.i)
			}
			name := t.ip
			if h.G.P(2, 3) || t.role == tgMute {
				name = fmt.Sprintf("logs%d.example.net", t.i)
				w.Hosts[name] = &simnet.Host{IPs: []string{t.ip}, Never: t.role == tgMute}
			}
			t.addr = stdnet.JoinHostPort(name, "514")
			ok = t.role != tgBroken
		case "stdio":
			t.addr = []string{"stdout:", "stderr:"}[h.G.N(2)]
			ok = t.role == tgUp || t.role == tgBroken
		case "local":
			t.path = "/dev/log"
			if h.G.P(1, 2) {
				t.path = fmt.Sprintf("/run/local%d.sock", t.i)
				t.addr = t.path
			}
			ok = t.role == tgUp || t.role == tgAbsent
		default:
			t.path = fmt.Sprintf("/run/log%d.sock", t.i)
			t.addr = t.path
			ok = t.role == tgUp || t.role == tgAbsent || t.role == tgStalled && t.network == "unix"
		}
		key := t.network + " " + t.addr
		if !ok || used[key] {
			continue
		}
		used[key] = true
		t.d = newDest(h, t.k)
		switch t.role {
		case tgAbsent:
		case tgSilent:
			w.SetDown(t.ip, true)
			t.serve()
		default:
			t.broken = t.role == tgBroken
			t.serve()
		}
		h.S.Count("probe.destination_" + tgNames[t.role])
		h.Say("%v, %v", t, t.k)
		ts = append(ts, t)
	}
	same := h.G.P(1, 2)
	pick := func() time.Duration {
		return []time.Duration{2 * time.Millisecond, 5 * time.Millisecond, 20 * time.Millisecond, 100 * time.Millisecond}[h.G.N(4)]
	}
	dl := syslog.Dialer{FlushDelay: pick()}
	var ss []*dsend
	var tasks []*vsim.Task
	n := 0
	dial := func() *dsend {
		t := ts[h.G.N(len(ts))]
		x := &dsend{srun: newSRun(h, t.k, newDest(h, t.k)), t: t}
		n++
		x.n = n * 10000
		x.app = fmt.Sprintf("app%d", n)
		if !same {
			dl = syslog.Dialer{FlushDelay: pick()}
		}
		x.delay = dl.FlushDelay
		var err error
		x.snd, x.errc, err = dl.Dial(t.network, t.addr, t.k.transport())
		if err != nil {
			h.Fail("Dial failed", "Dial(%s, %s): %v", t.network, t.addr, err)
		}
		x.mkSyslog()
		h.Say("sender %d: to %d, flush %v", n, t.i, x.delay)
		if t.role == tgUp || h.G.P(1, 2) {
			x.readErrors()
		}
		t.senders = append(t.senders, x)
		ss = append(ss, x)
		return x
	}
	load := func(x *dsend) {
		for p, c := 0, h.G.Range(1, 2); p < c; p++ {
			var ms []*Msg
			var ws []time.Duration
			for j, q := 0, h.G.Range(1, 8); j < q; j++ {
				ms = append(ms, x.newMsg())
				ws = append(ws, time.Duration(h.G.N(int(3*x.delay/1000)))*time.Microsecond*time.Duration(h.G.N(2)))
			}
			t := h.Go("logger", func() {
				for j, m := range ms {
					if ws[j] > 0 {
						h.S.Sleep(ws[j])
					}
					if x.done {
						return
					}
					x.emit(m)
					x.st = append(x.st, &stampedMsg{m, h.S.Elapsed()})
				}
			})
			if x.t.role == tgUp {
				tasks = append(tasks, t)
			} else {
				x.tasks = append(x.tasks, t)
			}
		}
	}
	early := func(x *dsend, wait time.Duration) {
		x.atEnd = func() {}
		e := h.Go("ender", func() {
			h.S.Sleep(wait)
			x.done, x.ending = true, true
			for _, m := range x.msgs {
				if m.Ret == 0 {
					m.Maybe = true
				}
			}
			x.snd.End()
			h.S.Ev("a sender has ended")
		})
		if x.t.role == tgUp {
			tasks = append(tasks, e)
		} else {
			x.tasks = append(x.tasks, e)
		}
	}
	for i, c := 0, h.G.Range(2, 4); i < c; i++ {
		x := dial()
		load(x)
		// to nowhere it would try again and again, which takes (almost) no time here
		if x.t.role != tgAbsent && h.G.P(1, 4) {
			early(x, time.Duration(h.G.N(40000))*time.Microsecond)
		}
	}
	for _, t := range ts {
		if t := t; t.role == tgResets {
			h.Go("resets", func() {
				for i, c := 0, h.F.Range(1, 5); i < c; i++ {
					h.S.Sleep(time.Duration(h.F.N(30000)) * time.Microsecond)
					for _, s := range t.socks {
						if !s.IsClosed() {
							s.Abort()
						}
					}
				}
			})
		}
	}
	h.Join(time.Minute, "held up by another one", tasks...)
	tasks = nil
	for i, c := 0, h.G.N(3); i < c; i++ { // later ones
		load(dial())
	}
	for _, x := range ss {
		if !x.done && h.G.P(1, 3) {
			load(x)
		}
	}
	h.Join(time.Minute, "held up by another one", tasks...)
	h.Settle(time.Duration(h.G.Range(200, 5000)) * time.Millisecond)

	eps := 500 * time.Microsecond
	ownParts(h, ts, ss, "meanwhile")
	for _, x := range ss {
		if x.t.role != tgUp {
			continue
		}
		who := fmt.Sprintf("a sender for %v", x.t)
		if !x.done {
			for _, y := range x.st {
				at, ok := x.when(y.m)
				if !ok {
					h.Fail("not flushed", "%s: message %s, logged at %v, has not arrived %v later (flush delay %v)", who, y.m.ID, y.at, h.S.Elapsed()-y.at, x.delay)
				}
				if at > y.at+x.delay+eps {
					h.Fail("flushed late", "%s: message %s, logged at %v, arrived %v later (flush delay %v)", who, y.m.ID, y.at, at-y.at, x.delay)
				}
			}
		}
		if len(x.errs) > 0 {
			h.Fail("error of another one", "%s, which met no failure, told %q", who, x.errs[0])
		}
		x.checkWritten("meanwhile, "+who, true)
		h.S.Count("probe.healthy_sender")
		h.Work++
	}

	// the troubles are over
	for _, t := range ts {
		t.up = true
		switch t.role {
		case tgAbsent:
			t.serve()
		case tgSilent:
			w.SetDown(t.ip, false)
		case tgMute:
			for _, x := range w.Hosts {
				x.Never = false
			}
		case tgBroken:
			t.broken = false
		}
	}
	for _, x := range ss {
		h.Join(time.Hour, "logging blocked", x.tasks...)
	}
	for _, i := range perm(h, len(ss)) {
		if x := ss[i]; !x.done {
			x.atEnd = func() {}
			x.end(time.Hour)
		}
	}
	h.Settle(time.Second)
	ownParts(h, ts, ss, "when all senders have ended")
	for _, x := range ss {
		x.checkWritten(fmt.Sprintf("when all have ended, a sender for %v", x.t), x.t.role != tgResets)
	}
	if l := h.S.LibTasksAlive(nil); len(l) > 0 {
		h.Fail("goroutine leaked", "everything has ended, but a goroutine remains: %s", l[0].Desc())
	}
}
