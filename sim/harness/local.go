package harness

import (
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"

	simnet "verif.local/sim/snet"
	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

func init() {
	register(&Scenario{ID: "C26", Calm: true, Quick: 40000, Deep: 1600000, Need: "probe.local_",
		Real: append(append([]string{"syslog5424: Dialer, LocalConnector, listeners"}, senderReal...), recvReal...),
		Stub: []string{"unix sockets, file system, processes and their crashes (simulated)", "clock, tickers, goroutine scheduler, channels, sync, time, log.Logger locking (simulator)"},
		Rule: "a client dials local, with or without a path; server processes come, crash and end, each at any of the paths looked at and as a stream or datagram socket, stale sockets, files and directories lying at the others; distinct by event history",
		Run:  runC26})
}

func runC26(h *H) {
	k := pickKind(h)
	e := &e2e{srun: newSRun(h, k, newDest(h, k))}
	e.sizes = h.G.N(2)
	w := simnet.Net()
	fs := simos.FS()
	w.DgramQ = []int{1, 3, 10}[h.G.N(3)]
	w.UnixBuf = []int{1 << 16, 3000, 200}[h.G.N(3)]
	lat := []int{0, 20, 300}[h.G.N(3)]
	w.Lat = func() time.Duration { return time.Duration(20+h.F.N(lat+1)) * time.Microsecond }
	e.queue = []int{0, 1, 5, 100}[h.G.N(4)]
	paths := []string{"/var/run/syslog", "/var/run/log", "/dev/log"}
	arg := ""
	if h.G.P(1, 3) {
		paths = []string{"/run/log.sock"}
		arg = paths[0]
	}
	clutter := func() { // what else lies there
		for _, p := range paths {
			if p == e.addr {
				continue
			}
			switch n := fs.Get(p); {
			case n == nil:
				switch h.F.N(8) {
				case 0:
					fs.Put(p, 0o644, nil)
				case 1:
					fs.Put(p, simos.ModeDir|0o755, nil)
				case 2:
					fs.Put(p, simos.ModeSocket|0o755, nil) // stale
				}
			case n.Sock == nil && h.F.P(1, 3):
				fs.Del(p)
			}
		}
	}
	where := func() {
		e.network = []string{"unix", "unixgram"}[h.F.N(2)]
		e.addr = paths[h.F.N(len(paths))]
		if n := fs.Get(e.addr); n != nil && n.Mode&simos.ModeSocket == 0 {
			fs.Del(e.addr)
		}
		clutter()
		h.S.Ev("server at", e.network, e.addr)
	}
	delay := h.flushDelay()
	late := h.G.P(1, 3)
	h.Say("path=%q %v flush=%v late=%v queue=%d", arg, k, delay, late, e.queue)
	var srv *server
	if !late {
		where()
		srv = e.startServer()
	} else {
		clutter()
	}
	var err error
	tr := k.transport()
	if k == kNUL && h.G.P(1, 3) {
		tr = nil // the common one
	}
	e.snd, e.errc, err = syslog.Dialer{FlushDelay: delay}.Dial("local", arg, tr)
	if err != nil {
		h.Fail("Dial failed", "%v", err)
	}
	e.mkSyslog()
	reading := h.G.P(3, 4)
	if reading {
		e.readErrors()
	}
	say := func() *Msg {
		m := e.message()
		t := h.Go("logger", func() { e.log(m) })
		h.Join(10*time.Minute, "logging blocked", t)
		return m
	}
	e.atEnd = func() {}
	unit := delay
	if unit < 20*time.Millisecond {
		unit = 20 * time.Millisecond
	}
	lossless := true // nothing was given to a server that died
	for i, n := 0, h.G.Range(1, 4); i < n; i++ {
		for j, y := 0, h.F.N(6); j < y; j++ {
			say()
			if h.F.P(1, 2) {
				h.S.Sleep(time.Duration(h.F.N(int(unit/time.Microsecond))) * time.Microsecond)
			}
		}
		if h.F.P(1, 2) {
			for j, y := 0, h.F.N(60); j < y; j++ {
				vsim.Y()
			}
		}
		if srv != nil {
			lossless = false
			if h.F.P(1, 2) {
				h.S.Count("fault.server_crash")
				h.S.Ev("server crashes", srv.id)
				h.S.KillNode(srv.node)
				w.Crash(srv.node, false)
			} else {
				h.S.Count("fault.server_restart")
				e.stopServer(srv)
			}
			srv, e.addr = nil, ""
			if h.F.P(1, 3) {
				clutter()
			}
		}
		seen := len(e.errs)
		say()
		outage := time.Duration(h.F.N(int(4*unit/time.Microsecond))) * time.Microsecond
		if h.F.P(1, 20) {
			outage *= 20
		}
		h.S.Sleep(outage)
		if reading && outage > 2*delay+10*time.Millisecond {
			h.S.Count("probe.local_nobody_there")
			if len(e.errs) == seen {
				h.Fail("outage not reported", "no server listened for %v (flush delay %v), a message was logged, but no error was delivered", outage, delay)
			}
		}
		where()
		srv = e.startServer()
		// from here on there is one
		up := h.S.Elapsed()
		grace := 6*delay + 100*time.Millisecond
		var fresh []*Msg
		step := delay / 2
		for n := 0; h.S.Elapsed() < up+grace || n < 6; n++ {
			h.S.Sleep(step)
			m := say()
			if h.S.Elapsed() > up+grace {
				fresh = append(fresh, m)
			}
			if n > 20 && step < delay {
				step = delay
			}
		}
		h.S.Sleep(2*delay + 200*time.Millisecond)
		got := e.received("while a server listens", false)
		for _, m := range fresh {
			if got[m] == nil {
				h.Fail("server not found", "a %s server listens at %s since %v (flush delay %v, steady logging), but message %s, logged later than %v after that, does not arrive", e.network, e.addr, h.S.Elapsed()-up, delay, m.ID, grace)
			}
		}
		if lossless {
			h.S.Count("probe.local_nothing_lost")
			for _, m := range e.msgs {
				if got[m] == nil {
					h.Fail("lost message", "message %s, logged while no server had listened yet, does not arrive", m.ID)
				}
			}
		}
		h.S.Count("probe.local_found")
	}
	e.end(10 * time.Minute)
	h.Settle(5 * time.Second)
	e.received("at the end", false)
	e.stopServer(srv)
}
