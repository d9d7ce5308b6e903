package harness

import (
	"errors"
	"fmt"
	stdnet "net"
	"strings"
	"syscall"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"

	simnet "verif.local/sim/snet"
	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

func init() {
	register(&Scenario{ID: "C20", Quick: 800000, Deep: 32000000, Steps: 300000, Need: "probe.path_",
		Real: []string{"syslog5424: UnixListener, UnixgramListener, GuessListener, Receiver (instrumented, unmodified logic)"},
		Stub: []string{"file system, unix sockets, other processes (simulated)", "clock, goroutine scheduler, channels, sync (simulator)"},
		Rule: "a listener is created at a path that is free, was left by a crashed process, is a file, a directory, or belongs to a live process (serving, overloaded, of either socket type); system calls fail at random, other processes change the path meanwhile, the creating process crashes between calls and another takes over; one run in 20 is about TCP addresses: free, taken, free again, meaningless; distinct by event history",
		Run:  runC20})
}

// C20 is about the path and its owner, not about messages; content kinds of the path:
const (
	pFree = iota
	pStaleStream
	pStaleDgram
	pFile
	pDir
	pDirFull
	pLiveStream
	pLiveDgram
	pLiveReceiver
	pLiveOverload
	pNoParent
	pKinds
)

var pNames = []string{"nothing", "the socket of a dead stream listener", "the socket of a dead datagram listener", "a regular file", "an empty directory", "a directory", "a live stream listener", "a live datagram socket", "a live receiver", "an overloaded live listener", "nothing, in a missing directory"}

type c20 struct {
	h    *H
	path string
	kind int
	fs   *simos.FSys
	w    *simnet.World
	// the owner
	node  *vsim.Node
	inode *simos.Inode
	net   string
	got   []string
	rcv   *syslog.Receiver
	n     int
	quiet bool // no faults now
}

// occupy brings the path into its initial state.
func (c *c20) occupy() {
	h := c.h
	c.node = &vsim.Node{Name: "owner"}
	serve := func(network string, live bool) {
		var ln *simnet.UnixListener
		var err error
		done := false
		t := h.S.GoOn(c.node, "owner", func() {
			if network == "unix" {
				ln, err = simnet.ListenUnix("unix", &simnet.UnixAddr{Name: c.path, Net: "unix"})
				done = true
				if err != nil || c.kind == pLiveOverload {
					h.S.Sleep(1 << 40)
				}
				for {
					x, err := ln.AcceptUnix()
					if err != nil {
						return
					}
					h.S.GoOn(c.node, "owner connection", func() { c.read(x) })
				}
			}
			x, e := simnet.ListenUnixgram("unixgram", &simnet.UnixAddr{Name: c.path, Net: "unixgram"})
			err = e
			done = true
			c.read(x)
		})
		if !h.wait(time.Second, func() bool { return done }) || err != nil {
			h.Fail("internal", "owner cannot listen: %v", err)
		}
		_ = t
		if !live { // it crashes and leaves its socket
			h.S.KillNode(c.node)
			c.w.Crash(c.node, false)
		}
	}
	c.net = "unix"
	switch c.kind {
	case pStaleStream:
		serve("unix", false)
	case pStaleDgram:
		serve("unixgram", false)
	case pFile:
		c.fs.Put(c.path, 0o644, []byte("precious"))
	case pDir:
		c.fs.Put(c.path, simos.ModeDir|0o755, nil)
	case pDirFull:
		c.fs.Put(c.path, simos.ModeDir|0o755, nil)
		c.fs.Put(c.path+"/file", 0o644, []byte("precious"))
	case pLiveStream:
		serve("unix", true)
	case pLiveDgram:
		c.net = "unixgram"
		serve("unixgram", true)
	case pLiveReceiver:
		if h.G.P(1, 2) {
			c.net = "unixgram"
		}
		done := false
		h.S.GoOn(c.node, "owner", func() {
			c.rcv = c.receiver(c.net)
			done = true
			c.receive(c.rcv)
		})
		if !h.wait(time.Second, func() bool { return done }) || c.rcv == nil {
			h.Fail("listener not created", "a %s listener cannot be created at a free path", c.net)
		}
	case pLiveOverload:
		serve("unix", true)
		for i := 0; i < 128; i++ {
			if _, err := simnet.DialUnix("unix", nil, &simnet.UnixAddr{Name: c.path, Net: "unix"}); err != nil {
				break
			}
		}
	}
	c.inode = c.fs.Get(c.path)
}

func (c *c20) read(x *simnet.UnixConn) {
	buf := make([]byte, 4096)
	for {
		n, err := x.Read(buf)
		if err != nil {
			return
		}
		c.got = append(c.got, string(buf[:n]))
	}
}

func (c *c20) receiver(network string) *syslog.Receiver {
	l, err := syslog.GuessListener(network, c.path)
	if err != nil {
		return nil
	}
	r, _ := syslog.NewReceiver(l, 5, syslog.TransportZeroEnded)
	return r
}

func (c *c20) receive(r *syslog.Receiver) {
	for {
		m, err, ok := r.Receive()
		if !ok {
			return
		}
		if err == nil {
			c.got = append(c.got, m.String()+"\x00")
		}
	}
}

// serves tells whether what listens at the path gets a message.
func (c *c20) serves(network string) error {
	c.n++
	x, err := simnet.DialUnix(network, nil, &simnet.UnixAddr{Name: c.path, Net: network})
	if err != nil {
		return err
	}
	msg := fmt.Sprintf("<13>1 2020-01-02T03:04:05Z host app 1 - - hello%d\x00", c.n)
	if _, err := x.Write([]byte(msg)); err != nil {
		return err
	}
	ok := c.h.wait(10*time.Second, func() bool {
		for _, g := range c.got {
			if strings.Contains(g, msg) {
				return true
			}
		}
		return false
	})
	x.Close()
	if !ok {
		return errors.New("the message does not arrive")
	}
	return nil
}

// untouched: the path still is what it was and its owner serves.
func (c *c20) untouched(what string) {
	h := c.h
	c.quiet = true
	now := c.fs.Get(c.path)
	if now != c.inode || c.inode != nil && c.kind == pFile && string(now.Data) != "precious" || c.kind == pDirFull && c.fs.Get(c.path+"/file") == nil {
		h.Fail("path changed", "%s: %s at %s was removed or replaced", what, pNames[c.kind], c.path)
	}
	switch c.kind {
	case pLiveStream, pLiveDgram, pLiveReceiver:
		if err := c.serves(c.net); err != nil {
			h.Fail("owner disturbed", "%s: %s at %s does not serve any more: %v", what, pNames[c.kind], c.path, err)
		}
	case pLiveOverload:
		ino := now.Sock
		if ino == nil {
			h.Fail("owner disturbed", "%s: %s at %s lost its socket", what, pNames[c.kind], c.path)
		}
	}
	c.quiet = false
}

// runC20tcp is about TCP addresses: taken, free again, and meaningless ones.
func runC20tcp(h *H) {
	w := simnet.Net()
	w.Hosts["logs.example.net"] = &simnet.Host{IPs: []string{"2001:db8::5", "192.0.2.5"}}
	networks := []string{"tcp", "tcp4", "tcp6"}
	create := func(network, addr string) (syslog.Listener, error) {
		if h.G.P(1, 2) {
			return syslog.GuessListener(network, addr)
		}
		return syslog.TCPListener(network, addr)
	}
	network := networks[h.G.N(3)]
	port := h.G.Range(1, 65535)
	hosts := map[string][]string{"tcp": {"", "127.0.0.1", "[::1]", "192.0.2.7", "logs.example.net"}, "tcp4": {"", "127.0.0.1", "0.0.0.0", "logs.example.net"}, "tcp6": {"", "[::1]", "[::]", "logs.example.net"}}[network]
	host := hosts[h.G.N(len(hosts))]
	addr := fmt.Sprintf("%s:%d", host, port)
	h.Say("a %s listener at %s", network, addr)
	var target stdnet.IP
	switch host {
	case "", "0.0.0.0", "[::]":
		target = stdnet.ParseIP(map[string]string{"tcp": []string{"127.0.0.1", "::1"}[h.G.N(2)], "tcp4": "127.0.0.1", "tcp6": "::1"}[network])
	case "logs.example.net":
		target = stdnet.ParseIP(map[string]string{"tcp": "192.0.2.5", "tcp4": "192.0.2.5", "tcp6": "2001:db8::5"}[network])
	default:
		target = stdnet.ParseIP(strings.Trim(host, "[]"))
	}
	h.S.Count("probe.path_tcp")
	n := 0
	serves := func(got *[]string, what string) {
		n++
		msg := fmt.Sprintf("<13>1 2020-01-02T03:04:05Z host app 1 - - hello%d", n)
		x, err := simnet.DialTCP("tcp", nil, &simnet.TCPAddr{IP: target, Port: port})
		if err == nil {
			_, err = x.Write([]byte(msg + "\x00"))
		}
		if err != nil {
			h.Fail("listener not reachable", "%s: a client of the %s listener at %s: %v", what, network, addr, err)
		}
		if !h.Wait(time.Minute, func() bool { return len(*got) >= n }) {
			h.Fail("listener not reachable", "%s: a message sent to the %s listener at %s does not arrive", what, network, addr)
		}
		if m := (*got)[n-1]; m != msg {
			h.Fail("listener not reachable", "%s: the %s listener at %s got %q instead of %q", what, network, addr, m, msg)
		}
		if h.G.P(1, 2) {
			x.Close()
		}
	}
	var got []string
	for round, rounds := 0, h.G.Range(1, 3); round < rounds; round++ {
		var l syslog.Listener
		t := h.Go("creator", func() {
			var err error
			l, err = create(network, addr)
			if err != nil || l == nil {
				h.Fail("listener not created", "creating a %s listener at %s, which is free, fails: %v (listener %v)", network, addr, err, l)
			}
		})
		h.Join(time.Minute, "creating a listener does not return", t)
		r, _ := syslog.NewReceiver(l, 5, syslog.TransportZeroEnded)
		t = h.Go("consumer", func() {
			for {
				m, err, ok := r.Receive()
				if !ok {
					return
				}
				if err == nil {
					got = append(got, m.String())
				}
			}
		})
		serves(&got, "at first")
		if strings.Trim(host, "[]0.:") != "" { // and nowhere else
			for _, ip := range []string{"127.0.0.1", "::1", "192.0.2.5", "198.51.100.1", "2001:db8::77"} {
				if o := stdnet.ParseIP(ip); !o.Equal(target) {
					if x, err := simnet.DialTCP("tcp", nil, &simnet.TCPAddr{IP: o, Port: port}); err == nil {
						x.Close()
						h.Fail("listener elsewhere", "a %s listener was created at %s, but connections to %s are accepted as well", network, addr, ip)
					}
				}
			}
		}
		for i, k := 0, h.G.N(4); i < k; i++ {
			net2, addr2, why := network, addr, "is taken"
			if h.G.P(2, 3) {
				why = "means nothing"
				bad := [][2]string{{"tcp", "127.0.0.1"}, {"tcp", "127.0.0.1:no-such-service"}, {"tcp", "[::1"}, {"tcp", "127.0.0.1:70000"}, {"tcp4", "[::1]:5"}, {"tcp6", "127.0.0.1:5"}, {"tcp", "nowhere.example.net:5"}, {"tcp4", "::1:5"}, {"udp", "127.0.0.1:5"}, {"", "127.0.0.1:5"}, {"tcp5", ":5"}, {"TCP", ":5"}}
				b := bad[h.G.N(len(bad))]
				net2, addr2 = b[0], b[1]
			}
			t2 := h.Go("other creator", func() {
				l2, err := create(net2, addr2)
				if err == nil {
					h.Fail("address taken over", "creating a %q listener at %q, which %s, reports no error (listener %v)", net2, addr2, why, l2 != nil)
				}
			})
			h.Join(time.Minute, "creating a listener does not return", t2)
			serves(&got, "after creating another listener failed")
		}
		e := h.Go("ender", func() { r.End() })
		h.Join(time.Minute, "End does not return", e, t)
	}
	h.Work++
}

func runC20(h *H) {
	if h.G.P(1, 20) {
		runC20tcp(h)
		return
	}
	c := &c20{h: h, fs: simos.FS(), w: simnet.Net(), path: []string{"/run/log.sock", "log.sock", "/tmp/a/../log.sock"}[h.G.N(3)]}
	c.fs.Put("/tmp/a", simos.ModeDir|0o755, nil)
	c.kind = h.G.N(pKinds)
	if c.kind == pNoParent {
		c.path = "/run/missing/log.sock"
	}
	network := []string{"unix", "unixgram"}[h.G.N(2)]
	create := func() (syslog.Listener, error) {
		if h.G.P(1, 2) {
			return syslog.GuessListener(network, c.path)
		}
		if network == "unix" {
			return syslog.UnixListener(c.path)
		}
		return syslog.UnixgramListener(c.path)
	}
	c.quiet = true
	c.occupy()
	c.quiet = false
	faults := []int{0, 0, 30, 200}[h.F.N(4)]
	budget := h.F.Range(1, 12)
	race := h.F.Weighted(12, 4, 4, 4, 4, 1) // none, a flapping path, a creator, a remover, a crash of the creating process, a path that never gets free
	h.Say("path %s holds %s; creating a %s listener; faults=%d race=%d", c.path, pNames[c.kind], network, faults, race)
	fired := 0
	never := race == 5 && h.F.P(1, 2)
	sysErrs := map[string][]error{
		"bind":    {syscall.EACCES, syscall.ENOMEM, syscall.EROFS, syscall.ENAMETOOLONG, syscall.EINVAL},
		"stat":    {syscall.EACCES, syscall.EIO, syscall.ENOMEM},
		"lstat":   {syscall.EACCES, syscall.EIO, syscall.ENOMEM},
		"remove":  {syscall.EACCES, syscall.EBUSY, syscall.EROFS, syscall.EIO},
		"connect": {syscall.EAGAIN, syscall.EINTR, syscall.EACCES, syscall.EMFILE, syscall.EPERM, syscall.ENOBUFS},
		"listen":  {syscall.EMFILE, syscall.ENFILE},
	}
	inject := func(op string) error {
		if c.quiet || budget <= 0 || !h.F.P(faults, 1000) {
			return nil
		}
		l := sysErrs[op]
		if len(l) == 0 {
			return nil
		}
		budget--
		fired++
		return l[h.F.N(len(l))]
	}
	c.w.Fault = func(op string) error { return inject(op) }
	c.fs.Fault = func(op, p string) error {
		if op == "bind" && !c.quiet && race == 5 && never {
			fired++
			return syscall.EADDRINUSE
		}
		if op == "bind" && !c.quiet && faults > 0 && budget > 0 && h.F.P(faults, 2000) {
			budget--
			fired++
			return syscall.EADDRINUSE
		}
		return inject(op)
	}
	slow := []int{0, 0, 60}[h.F.N(3)]
	if race == 4 {
		slow = 60
	}
	changed := false // somebody else changed the path
	c.fs.Hook = func(op, p string) {
		if c.quiet {
			return
		}
		if slow > 0 {
			h.S.Sleep(time.Duration(h.F.N(slow)) * time.Microsecond)
		}
		if race == 5 && !never && p == c.path && op == "bind" { // always somebody else's stale socket
			if n := c.fs.Get(p); n == nil || n.Sock == nil && n.Mode&simos.ModeSocket != 0 {
				changed = true
				h.S.Count("fault.path_never_free")
				c.fs.Del(p)
				c.fs.Put(p, simos.ModeSocket|0o755, nil)
				h.S.Ev("path occupied again")
			}
		}
		if race == 1 && p == c.path { // other processes come and go
			if n := c.fs.Get(p); (n == nil || n.Sock == nil && n.Mode&simos.ModeSocket != 0) && h.F.P(2, 3) {
				changed = true
				h.S.Count("fault.path_flaps")
				c.fs.Del(p)
				if op == "bind" || h.F.P(1, 2) {
					c.fs.Put(p, simos.ModeSocket|0o755, nil)
				}
				h.S.Ev("path flaps", op)
			}
		}
	}
	var others []*vsim.Task
	switch race {
	case 2: // another process creates the same listener
		changed = true
		h.S.Count("fault.path_race")
		nd := &vsim.Node{Name: "other"}
		others = append(others, h.S.GoOn(nd, "other creator", func() {
			h.S.Sleep(time.Duration(h.F.N(100)) * time.Microsecond)
			if l, err := create(); err == nil {
				h.S.Sleep(time.Duration(h.F.N(300)) * time.Microsecond)
				if h.F.P(1, 2) {
					l.Close()
				}
			}
		}))
	case 3: // something removes the path now and then
		if c.kind == pFree || c.kind == pStaleStream || c.kind == pStaleDgram || c.kind == pNoParent {
			changed = true
			h.S.Count("fault.path_race")
			others = append(others, h.Go("remover", func() {
				for i := 0; i < 3; i++ {
					h.S.Sleep(time.Duration(h.F.N(60)) * time.Microsecond)
					if n := c.fs.Get(c.path); n != nil && n.Sock == nil {
						c.fs.Del(c.path)
						h.S.Ev("path removed")
					}
				}
			}))
		}
	}
	protected := c.kind == pFile || c.kind == pDir || c.kind == pDirFull || c.kind >= pLiveStream && c.kind <= pLiveOverload
	var lst syslog.Listener
	var err error
	returned := false
	nd := &vsim.Node{Name: "creator"}
	t := h.S.GoOn(nd, "creator", func() {
		h.S.Ev("create")
		lst, err = create()
		returned = true
		if err != nil {
			h.S.Ev("create failed", err.Error())
		} else {
			h.S.Ev("created")
		}
	})
	if race == 4 {
		h.S.Sleep(time.Duration(h.F.N(200)) * time.Microsecond)
		if !returned {
			h.S.Count("fault.crash")
		}
		h.S.KillNode(nd)
		c.w.Crash(nd, false)
		h.S.Ev("the creating process crashes")
		if protected {
			c.untouched("after a crash of a process that was creating a listener")
		}
		returned, lst, err = false, nil, nil
		if n := c.fs.Get(c.path); !protected && n != nil && n.Sock != nil {
			h.Fail("internal", "the crashed process still owns the path")
		}
		nd = &vsim.Node{Name: "creator 2"}
		t = h.S.GoOn(nd, "creator", func() {
			h.S.Ev("create again")
			lst, err = create()
			returned = true
			if err != nil {
				h.S.Ev("create failed", err.Error())
			} else {
				h.S.Ev("created")
			}
		})
	}
	h.Join(10*time.Minute, "creating a listener does not return", append(others, t)...)
	h.Work++
	h.S.Count(fmt.Sprintf("probe.path_%d", c.kind))
	if err == nil && lst == nil {
		h.Fail("neither listener nor error", "creating a %s listener at a path with %s gave neither a listener nor an error", network, pNames[c.kind])
	}
	switch {
	case protected:
		if err == nil {
			h.Fail("path taken over", "creating a %s listener succeeded at %s, which holds %s", network, c.path, pNames[c.kind])
		}
		c.untouched("after creating a listener failed")
	case changed || fired > 0:
		// either outcome
	case c.kind == pNoParent:
		if err == nil {
			h.Fail("listener nowhere", "creating a %s listener succeeded in a missing directory", network)
		}
	default:
		if err != nil {
			h.Fail("listener not created", "creating a %s listener failed at %s, which holds %s: %v", network, c.path, pNames[c.kind], err)
		}
	}
	if err != nil || changed {
		return
	}
	// the new listener works
	c.quiet = true
	c.kind = pLiveReceiver
	c.net = network
	h.S.GoOn(nd, "new owner", func() {
		r, _ := syslog.NewReceiver(lst, 5, syslog.TransportZeroEnded)
		c.rcv = r
		c.receive(r)
	})
	c.inode = c.fs.Get(c.path)
	if c.inode == nil {
		h.Fail("listener not reachable", "a %s listener was created but there is nothing at %s", network, c.path)
	}
	if e := c.serves(network); e != nil {
		h.Fail("listener not reachable", "a %s listener was created but a client at %s: %v", network, c.path, e)
	}
	// and is itself protected now
	c.quiet = false
	network = []string{"unix", "unixgram"}[h.G.N(2)]
	done := false
	var err2 error
	t = h.S.GoOn(&vsim.Node{Name: "late creator"}, "late creator", func() {
		_, err2 = create()
		done = true
	})
	h.Join(10*time.Minute, "creating a listener does not return", t)
	if !done || err2 == nil {
		h.Fail("path taken over", "creating a %s listener succeeded at %s, where a receiver is running", network, c.path)
	}
	c.untouched("after creating another listener failed")
}
