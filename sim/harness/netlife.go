package harness

import (
	"errors"
	stdnet "net"
	"syscall"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"

	simnet "verif.local/sim/snet"
	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

// C02, C04 and C06 over the library's own connectors: what it writes to its sockets
// is recorded where it is written.

type netLife struct {
	*srun
	w       *simnet.World
	network string
	addr    string
	ips     []string
	path    string
	conns   map[*simnet.Sock]*sconn
	lst     []interface{ Close() error }
	served  []*simnet.Sock
	slow    int
	writing int
}

// sockets counts the open ones of the sender.
func (l *netLife) judge(what string) {
	n := 0
	for _, s := range l.w.Socks() {
		if s.Client() && !s.IsClosed() {
			n++
		}
	}
	if n > 1 && l.d.life {
		l.h.Fail("two connections open", "%s: %d sockets of the sender are open at the same time", what, n)
	}
}

func (l *netLife) wrote(c *simnet.Sock, p []byte, n int, err error) {
	if !c.Client() {
		return
	}
	x := l.conns[c]
	if x == nil {
		x = &sconn{d: l.d, id: len(l.d.conns)}
		l.conns[c] = x
		l.d.conns = append(l.d.conns, x)
	}
	h := l.h
	if l.d.life {
		l.judge("at a write")
		switch {
		case x.failed:
			h.Fail("write after failure", "socket %d: %d bytes written after a write on it failed", x.id, len(p))
		case errors.Is(err, stdnet.ErrClosed):
			h.Fail("write after close", "socket %d: %d bytes written after it was closed", x.id, len(p))
		}
	}
	x.take(p[:n])
	if err != nil && !errors.Is(err, syscall.ENOBUFS) {
		x.failed = true
		h.S.Ev("write failed", x.id, n, len(p), err.Error())
		if n > 0 && n < len(p) {
			h.S.Count("fault.torn_write")
		}
		return
	}
	x.midway = err != nil && n > 0
	h.S.Ev("write", x.id, n, len(p))
}

func (l *netLife) drain(c interface {
	Read([]byte) (int, error)
	Close() error
}) {
	h := l.h
	h.Go("server connection", func() {
		buf := make([]byte, 4096)
		for {
			if l.slow > 0 {
				h.S.Sleep(time.Duration(h.F.N(l.slow)) * time.Microsecond)
			}
			if _, err := c.Read(buf); err != nil {
				c.Close()
				return
			}
		}
	})
}

func (l *netLife) up() {
	h := l.h
	if len(l.lst) > 0 {
		return
	}
	h.S.Ev("server up")
	bad := func(err error) {
		if err != nil {
			h.Fail("internal", "%v", err)
		}
	}
	switch l.network {
	case "tcp":
		for i, ip := range l.ips {
			if i < len(l.ips)-1 && h.F.P(1, 2) {
				continue // refuses
			}
			s, err := simnet.ListenTCP("tcp", &simnet.TCPAddr{IP: stdnet.ParseIP(ip), Port: 514})
			bad(err)
			l.lst = append(l.lst, s)
			h.Go("server", func() {
				for {
					c, err := s.AcceptTCP()
					if err != nil {
						return
					}
					l.served = append(l.served, c.Sock())
					l.drain(c)
				}
			})
		}
	case "unix":
		s, err := simnet.ListenUnix("unix", &simnet.UnixAddr{Name: l.path, Net: "unix"})
		bad(err)
		l.lst = append(l.lst, s)
		h.Go("server", func() {
			for {
				c, err := s.AcceptUnix()
				if err != nil {
					return
				}
				l.served = append(l.served, c.Sock())
				l.drain(c)
			}
		})
	case "unixgram":
		simos.FS().Del(l.path)
		c, err := simnet.ListenUnixgram("unixgram", &simnet.UnixAddr{Name: l.path, Net: "unixgram"})
		bad(err)
		l.lst = append(l.lst, c)
		l.drain(c)
	}
}

func (l *netLife) down(kill bool) {
	l.h.S.Count("fault.server_gone")
	l.h.S.Ev("server down", kill)
	for _, s := range l.lst {
		s.Close()
	}
	l.lst = nil
	if kill || l.network == "unix" {
		l.reset()
	}
}

func (l *netLife) reset() {
	for _, s := range l.served {
		if !s.IsClosed() {
			s.Abort()
		}
	}
	l.served = nil
}

func runNetLife(h *H, id string) {
	life := id == "C06"
	k := pickKind(h)
	l := &netLife{srun: newSRun(h, k, newDest(h, k)), w: simnet.Net(), conns: map[*simnet.Sock]*sconn{}, path: "/run/log.sock"}
	l.sizes = h.G.N(2)
	l.d.life = life
	w := l.w
	h.S.Count("probe.dialled")
	l.network = []string{"tcp", "unix", "unixgram"}[h.G.N(3)]
	dn := l.network
	l.addr = l.path
	if l.network == "tcp" {
		for i, n := 0, h.G.Range(1, 3); i < n; i++ {
			l.ips = append(l.ips, []string{"192.0.2.1", "2001:db8::2", "192.0.2.3"}[i])
		}
		w.Hosts["logs.example.net"] = &simnet.Host{IPs: l.ips}
		l.addr = "logs.example.net:514"
	} else if h.G.P(1, 4) {
		dn = "local"
		if h.G.P(1, 2) {
			l.path, l.addr = "/var/run/log", ""
		}
	}
	w.Window = []int{1 << 16, 1500, 100}[h.G.N(3)]
	w.UnixBuf = []int{1 << 16, 3000, 200}[h.G.N(3)]
	w.DgramQ = []int{1, 3, 10}[h.G.N(3)]
	w.ConnectTO = 3 * time.Second
	w.RetransTO = 5 * time.Second
	w.DgramMax = 1 << 20
	lat := []int{0, 20, 300}[h.G.N(3)]
	w.Lat = func() time.Duration { return time.Duration(20+h.F.N(lat+1)) * time.Microsecond }
	w.OnWrite = l.wrote
	l.slow = []int{0, 0, 300, 3000}[h.G.N(4)]
	rate, budget := []int{0, 0, 50, 300}[h.G.N(4)], h.G.Range(0, 12)
	nobufs := h.G.P(1, 3)
	w.Fault = func(op string) error {
		switch {
		case op == "connect" && dn != "tcp":
			h.S.Sleep(20 * time.Microsecond) // trying again and again takes time
		}
		if budget <= 0 || op != "write" && op != "connect" || !h.F.P(rate, 1000) {
			return nil
		}
		budget--
		h.S.Sleep(100 * time.Microsecond)
		if op == "write" && nobufs && h.F.P(1, 2) {
			h.S.Count("fault.enobufs")
			return syscall.ENOBUFS
		}
		h.S.Count("fault." + op + "_error")
		return []syscall.Errno{syscall.EPIPE, syscall.ECONNRESET, syscall.ETIMEDOUT, syscall.EHOSTUNREACH, syscall.ENOMEM}[h.F.N(5)]
	}
	if h.G.P(3, 4) {
		l.up()
	}
	delay := []time.Duration{0, 1500 * time.Microsecond, 3 * time.Millisecond, 10 * time.Millisecond}[h.G.N(4)]
	h.Say("%s %s (%v) %v flush=%v slow=%d rate=%d", dn, l.addr, l.ips, k, delay, l.slow, rate)
	var err error
	l.snd, l.errc, err = syslog.Dialer{FlushDelay: delay}.Dial(dn, l.addr, k.transport())
	if err != nil {
		h.Fail("Dial failed", "%v", err)
	}
	l.mkSyslog()
	if h.G.P(3, 4) {
		l.readErrors()
	}
	l.load(h.G.Range(1, 3), []int{3, 8, 20}[h.G.N(3)], []time.Duration{0, time.Millisecond, 10 * time.Millisecond}[h.G.N(3)])
	var bad *vsim.Task
	bad = h.Go("trouble", func() {
		for i, n := 0, h.F.N(6); i < n; i++ {
			h.S.Sleep(time.Duration(h.F.N(9000)) * time.Microsecond)
			switch h.F.N(5) {
			case 0, 1:
				l.reset()
			case 2:
				l.down(h.F.P(1, 2))
				h.S.Sleep(time.Duration(h.F.N(20000)) * time.Microsecond)
				l.up()
			case 3:
				if l.network == "tcp" {
					ip := l.ips[h.F.N(len(l.ips))]
					w.SetDown(ip, true)
					h.S.Sleep(time.Duration(h.F.N(9000)) * time.Microsecond * time.Duration(1+h.F.N(2)*h.F.N(1000)))
					w.SetDown(ip, false)
				}
			case 4: // writers wait for it
				l.slow = []int{0, 300, 20000}[h.F.N(3)]
			}
		}
		l.slow = 0
		l.up()
	})
	if h.G.P(1, 3) {
		h.Pause(20 * time.Millisecond)
	} else {
		h.Join(10*time.Minute, "logging blocked", l.tasks...)
		h.Pause(5 * time.Millisecond)
	}
	l.atEnd = func() {
		l.checkWritten("when End has returned", true)
		for _, s := range w.Socks() {
			if id != "C02" && s.Client() && !s.IsClosed() {
				h.Fail("connection leaked", "End has returned but a socket of the sender was never closed")
			}
		}
	}
	l.end(10 * time.Minute)
	h.Join(10*time.Minute, "logging blocked", append(l.tasks, bad)...)
	h.Settle(time.Second)
	l.judge("after End")
	for _, s := range w.Socks() {
		if id != "C02" && s.Client() && !s.IsClosed() {
			h.Fail("connection leaked", "a socket opened after End was never closed")
		}
	}
	if id == "C04" && !l.closed {
		t := h.Go("late error reader", func() {
			for {
				if _, ok := vsim.Recv2(l.errc); !ok {
					return
				}
			}
		})
		h.Join(time.Minute, "error channel not closed", t)
	}
	if n := h.S.LibTasksAlive(nil); len(n) > 0 && id == "C04" {
		h.Fail("goroutine leaked", "End has returned but a goroutine of the sender remains: %s", n[0].Desc())
	}
}
