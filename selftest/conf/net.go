package conf

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
)

// Dir is where the programs make sockets.
var Dir string

func path(n string) string { return Dir + "/" + n }

// why tells what an error is, as far as a program can depend on it.
func why(err error) string {
	if err == nil {
		return "ok"
	}
	var s []string
	for _, k := range []struct {
		n string
		e error
	}{{"EOF", io.EOF}, {"closed", net.ErrClosed}, {"deadline", os.ErrDeadlineExceeded}, {"refused", syscall.ECONNREFUSED}, {"reset", syscall.ECONNRESET},
		{"pipe", syscall.EPIPE}, {"inuse", syscall.EADDRINUSE}, {"noent", syscall.ENOENT}, {"prototype", syscall.EPROTOTYPE}, {"msgsize", syscall.EMSGSIZE},
		{"inval", syscall.EINVAL}, {"notconn", syscall.ENOTCONN}, {"notempty", syscall.ENOTEMPTY}, {"exist", os.ErrExist}, {"notexist", os.ErrNotExist}, {"isconn", syscall.EISCONN}} {
		if errors.Is(err, k.e) {
			s = append(s, k.n)
		}
	}
	var op *net.OpError
	if errors.As(err, &op) {
		s = append(s, "op="+op.Op+" net="+op.Net)
		if op.Timeout() {
			s = append(s, "timeout")
		}
		if op.Temporary() {
			s = append(s, "temporary")
		}
		var se *os.SyscallError
		if errors.As(op.Err, &se) {
			s = append(s, "syscall="+se.Syscall)
		}
		s = append(s, fmt.Sprintf("src=%v dst=%v", op.Source != nil, op.Addr != nil))
	}
	var pe *os.PathError
	if errors.As(err, &pe) {
		s = append(s, "path op="+pe.Op)
	}
	s = append(s, fmt.Sprintf("%T", err))
	return strings.Join(s, ",")
}

func pause() { time.Sleep(30 * time.Millisecond) }

// pair gives two connected ends.
func pair2(network string) (net.Conn, net.Conn, net.Listener) {
	var l net.Listener
	var err error
	if network == "tcp" {
		l, err = net.Listen("tcp", "127.0.0.1:0")
	} else {
		os.Remove(path("pair"))
		l, err = net.Listen("unix", path("pair"))
	}
	if err != nil {
		panic(err)
	}
	got := make(chan net.Conn)
	go func() {
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		got <- c
	}()
	a, err := net.Dial(network, l.Addr().String())
	if err != nil {
		panic(err)
	}
	return a, <-got, l
}

func hide(s string) string { return strings.Replace(s, Dir, "DIR", -1) }

// NetCases lists the programs that use sockets and files.
func NetCases(dir string) (l []Case) {
	add := func(name string, f func() string) {
		l = append(l, Case{name, func() string { Dir = dir; return hide(f()) }})
	}
	for _, network := range []string{"tcp", "unix"} {
		network := network
		add("stream "+network, func() string {
			var out []string
			say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
			a, b, l := pair2(network)
			buf := make([]byte, 100)
			n, err := a.Write([]byte("hello"))
			say(n, why(err))
			n, err = io.ReadFull(b, buf[:5])
			say(n, why(err), string(buf[:n]))
			n, err = a.Write(nil)
			say("empty write ", n, why(err))
			n, err = b.Read(nil)
			say("empty read ", n, why(err))
			// deadlines
			b.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
			n, err = b.Read(buf)
			say("deadline ", n, why(err))
			a.Write([]byte("late"))
			pause()
			n, err = b.Read(buf)
			say("expired, data there ", n, why(err))
			b.SetReadDeadline(time.Time{})
			n, err = b.Read(buf)
			say("no deadline ", n, why(err))
			a.SetWriteDeadline(time.Now().Add(-time.Second))
			n, err = a.Write([]byte("x"))
			say("expired write ", n, why(err))
			a.SetWriteDeadline(time.Time{})
			// a deadline set while a read waits
			done := make(chan string)
			go func() { n, err := b.Read(buf); done <- fmt.Sprint(n, why(err)) }()
			pause()
			b.SetReadDeadline(time.Now())
			say("woken ", <-done)
			b.SetReadDeadline(time.Time{})
			// half close
			a.Write([]byte("last"))
			say(why(a.(interface{ CloseWrite() error }).CloseWrite()))
			n, err = a.Write([]byte("x"))
			say("after CloseWrite ", n, why(err))
			n, err = io.ReadFull(b, buf[:4])
			say(n, why(err))
			n, err = b.Read(buf)
			say(n, why(err))
			n, err = b.Read(buf)
			say(n, why(err))
			n, err = b.Write([]byte("answer"))
			say(n, why(err))
			n, err = io.ReadFull(a, buf[:6])
			say(n, why(err))
			// closing while a read waits
			go func() { n, err := a.Read(buf); done <- fmt.Sprint(n, why(err)) }()
			pause()
			say(why(a.Close()))
			say("read closed ", <-done)
			say("again ", why(a.Close()))
			n, err = a.Read(buf)
			say(n, why(err))
			n, err = a.Read(nil)
			say(n, why(err))
			n, err = a.Write([]byte("x"))
			say(n, why(err))
			say(why(a.SetDeadline(time.Now())), why(a.SetReadDeadline(time.Time{})))
			say(a.LocalAddr() != nil, a.RemoteAddr() != nil)
			say(why(b.Close()))
			// listener
			go func() { _, err := l.Accept(); done <- why(err) }()
			pause()
			say(why(l.Close()))
			say("accept closed ", <-done)
			_, err = l.Accept()
			say(why(err))
			say("again ", why(l.Close()))
			_, err = net.Dial(network, l.Addr().String())
			say("dial closed ", why(err))
			return strings.Join(out, "\n")
		})
		add("peer closes "+network, func() string {
			var out []string
			say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
			buf := make([]byte, 100)
			// what was written before the close arrives
			a, b, l := pair2(network)
			a.Write([]byte("bye"))
			a.Close()
			pause()
			n, err := b.Read(buf)
			say(n, why(err))
			n, err = b.Read(buf)
			say(n, why(err))
			b.Close()
			l.Close()
			// writing to a closed peer fails at last
			a, b, l = pair2(network)
			b.Close()
			pause()
			for i := 0; i < 3; i++ {
				n, err = a.Write([]byte("x"))
				pause()
			}
			say("write to closed ", n, why(err))
			n, err = a.Read(buf)
			say("read from closed ", n, err != nil)
			a.Close()
			l.Close()
			// close with unread data is a reset
			a, b, l = pair2(network)
			a.Write([]byte("unread"))
			pause()
			b.Close()
			pause()
			n, err = a.Read(buf)
			say("unread ", n, why(err))
			n, err = a.Read(buf)
			say("unread, again ", n, why(err))
			n, err = a.Write(buf)
			say("unread, write ", n, why(err))
			a.Close()
			l.Close()
			// CloseRead
			a, b, l = pair2(network)
			say(why(a.(interface{ CloseRead() error }).CloseRead()))
			n, err = a.Read(buf)
			say("CloseRead ", n, why(err))
			n, err = a.Write([]byte("x"))
			say("CloseRead, write ", n, why(err))
			a.Close()
			n, err = b.Read(buf)
			say(n, why(err))
			n, err = b.Read(buf)
			say(n, why(err))
			b.Close()
			l.Close()
			// waiting in the backlog when the listener closes
			l, err = net.Listen(network, map[string]string{"tcp": "127.0.0.1:0", "unix": path("backlog")}[network])
			say(why(err))
			a, err = net.Dial(network, l.Addr().String())
			say(why(err))
			l.Close()
			pause()
			n, err = a.Read(buf)
			say("never accepted ", n, why(err))
			a.Close()
			return strings.Join(out, "\n")
		})
		add("buffers "+network, func() string {
			var out []string
			say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
			a, b, l := pair2(network)
			bufs := net.Buffers{[]byte("one"), nil, []byte("two"), []byte{}, []byte("three")}
			n, err := bufs.WriteTo(a)
			say(n, why(err), len(bufs))
			p := make([]byte, 11)
			io.ReadFull(b, p)
			say(string(p))
			bufs = net.Buffers{}
			n, err = bufs.WriteTo(a)
			say(n, why(err), len(bufs))
			bufs = net.Buffers{[]byte("abc"), []byte("def")}
			k, err := bufs.Read(p[:4])
			say(k, why(err), len(bufs), string(p[:4]))
			a.Close()
			bufs = net.Buffers{[]byte("abc"), []byte("def")}
			n, err = bufs.WriteTo(a)
			say(n, why(err), len(bufs))
			var w strings.Builder
			n, err = bufs.WriteTo(&w)
			say(n, why(err), len(bufs), w.String(), bufs == nil)
			b.Close()
			l.Close()
			return strings.Join(out, "\n")
		})
		add("slow reader "+network, func() string {
			a, b, l := pair2(network)
			total := 1 << 20
			done := make(chan string)
			go func() {
				n, err := a.Write(make([]byte, total))
				a.Close()
				done <- fmt.Sprint(n, why(err))
			}()
			pause()
			sum := 0
			buf := make([]byte, 1<<20)
			for {
				n, err := b.Read(buf)
				sum += n
				if err != nil {
					b.Close()
					l.Close()
					return fmt.Sprint(sum, why(err), <-done)
				}
			}
		})
	}
	add("tcp addresses", func() string {
		var out []string
		say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
		l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
		say(why(err), l.Addr().Network(), l.Addr().(*net.TCPAddr).IP, l.Addr().(*net.TCPAddr).Port > 1000)
		_, err = net.ListenTCP("tcp", l.Addr().(*net.TCPAddr))
		say("listen twice ", why(err))
		_, err = net.Listen("tcp", l.Addr().String())
		say("listen twice ", why(err))
		c, err := net.DialTCP("tcp", nil, l.Addr().(*net.TCPAddr))
		say(why(err), c.RemoteAddr().String() == l.Addr().String(), c.RemoteAddr().Network(), c.LocalAddr().(*net.TCPAddr).IP)
		s, err := l.AcceptTCP()
		say(why(err), s.RemoteAddr().String() == c.LocalAddr().String(), s.LocalAddr().String() == c.RemoteAddr().String())
		say(why(c.SetNoDelay(true)), why(c.SetKeepAlive(true)), why(c.SetKeepAlivePeriod(time.Minute)), why(c.SetReadBuffer(4096)), why(c.SetWriteBuffer(4096)))
		say(why(c.SetLinger(0)))
		c.Close()
		pause()
		n, err := s.Read(make([]byte, 10))
		say("no linger ", n, why(err))
		say("options of a closed one ", why(c.SetNoDelay(true)))
		s.Close()
		say(why(l.SetDeadline(time.Now().Add(5 * time.Millisecond))))
		_, err = l.Accept()
		say("accept deadline ", why(err))
		c, err = net.DialTCP("tcp", nil, l.Addr().(*net.TCPAddr))
		say(why(err))
		_, err = l.AcceptTCP()
		say("expired, one there ", why(err))
		l.SetDeadline(time.Time{})
		s, err = l.AcceptTCP()
		say(why(err))
		s.Close()
		c.Close()
		l.Close()
		_, err = net.DialTCP("tcp", nil, nil)
		say("nil address ", err != nil)
		_, err = net.DialTCP("udp", nil, &net.TCPAddr{})
		say("wrong network ", err)
		_, err = net.DialTCP("tcp6", nil, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1})
		say("wrong family ", err != nil)
		_, err = net.ListenTCP("tcp6", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1})
		say("wrong family ", err != nil)
		_, err = net.DialTCP("tcp", nil, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 70000})
		say("wrong port ", err != nil)
		_, err = net.Dial("tcp", "127.0.0.1")
		say(why(err))
		_, err = net.Dial("nonsense", "127.0.0.1:1")
		say(err)
		for _, a := range []string{"127.0.0.1:80", "[::1]:90", "127.0.0.1:syslog-tls", ":5", "127.0.0.1:", "1.2.3.4", "127.0.0.1:bogus", "127.0.0.1:70000", "[::1", "::1:80", "127.0.0.1:-1"} {
			t, err := net.ResolveTCPAddr("tcp", a)
			if err != nil {
				say(a, " ", fmt.Sprintf("%T", err))
			} else {
				say(a, " ", t, len(t.IP))
			}
		}
		t, err := net.ResolveTCPAddr("tcp4", "[::1]:5")
		say(t, err)
		_, err = net.ResolveTCPAddr("udp", "127.0.0.1:5")
		say(err)
		return strings.Join(out, "\n")
	})
	add("address families", func() string {
		var out []string
		say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
		if l, err := net.Listen("tcp6", "[::1]:0"); err == nil {
			l.Close()
		} else {
			return "" // no IPv6 here
		}
		nets := []string{"tcp", "tcp4", "tcp6"}
		hosts := []string{"", "0.0.0.0", "::", "127.0.0.1", "::1"}
		for _, n := range nets {
			for _, h := range hosts {
				l, err := net.Listen(n, net.JoinHostPort(h, "0"))
				say(n, " ", h, ": ", why(err))
				if err != nil {
					continue
				}
				a := l.Addr().(*net.TCPAddr)
				port := fmt.Sprint(a.Port)
				say(a.IP)
				for _, n2 := range nets {
					for _, h2 := range hosts {
						l2, err := net.Listen(n2, net.JoinHostPort(h2, port))
						if err == nil {
							l2.Close()
						}
						say("  again ", n2, " ", h2, ": ", why(err))
					}
				}
				for _, n2 := range nets {
					for _, h2 := range []string{"", "127.0.0.1", "::1"} {
						c, err := net.Dial(n2, net.JoinHostPort(h2, port))
						if err == nil {
							say("  dial ", n2, " ", h2, ": ", c.RemoteAddr().(*net.TCPAddr).IP)
							c.Close()
						} else {
							say("  dial ", n2, " ", h2, ": ", why(err))
						}
					}
				}
				l.Close()
			}
		}
		return strings.Join(out, "\n")
	})
	add("dialing", func() string {
		var out []string
		say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
		l, err := net.Listen("tcp", "127.0.0.1:0")
		say(why(err))
		_, err = (&net.Dialer{Timeout: time.Nanosecond}).Dial("tcp", l.Addr().String())
		say(why(err))
		_, err = (&net.Dialer{Deadline: time.Now().Add(-time.Second)}).Dial("tcp", l.Addr().String())
		say(why(err))
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		_, err = (&net.Dialer{}).DialContext(ctx, "tcp", l.Addr().String())
		say(why(err), strings.Replace(err.Error(), l.Addr().String(), "ADDR", 1))
		c, err := net.DialTimeout("tcp", l.Addr().String(), time.Hour)
		for err != nil { // the simulated hour may pass at once
			c, err = net.DialTimeout("tcp", l.Addr().String(), time.Hour)
		}
		say(why(err), fmt.Sprintf("%T", c))
		pause()
		c.Close()
		l.Close()
		_, err = net.Dial("tcp", "[::1")
		say(why(err))
		_, err = net.Dial("tcp4", "[::1]:5")
		say(err)
		lc := &net.ListenConfig{}
		l, err = lc.Listen(context.Background(), "tcp", "127.0.0.1:0")
		say(why(err), fmt.Sprintf("%T", l))
		l.Close()
		l, err = lc.Listen(context.Background(), "unix", path("lc"))
		say(why(err), fmt.Sprintf("%T", l))
		c, err = net.Dial("unix", path("lc"))
		say(why(err), fmt.Sprintf("%T", c))
		c.Close()
		l.Close()
		pc, err := net.ListenPacket("unixgram", path("pc"))
		say(why(err), fmt.Sprintf("%T", pc))
		c, err = net.Dial("unixgram", path("pc"))
		say(why(err), fmt.Sprintf("%T", c))
		c.Write([]byte("x"))
		buf := make([]byte, 5)
		n, a, err := pc.ReadFrom(buf)
		say(n, a == nil, why(err))
		c.Close()
		pc.Close()
		os.Remove(path("pc"))
		_, err = net.Listen("nonsense", "x")
		say(why(err))
		_, err = net.Dial("unix", path("none"))
		say(why(err))
		ips, err := (&net.Resolver{PreferGo: true}).LookupIPAddr(context.Background(), "127.0.0.1")
		say(ips, err)
		ips, err = net.DefaultResolver.LookupIPAddr(context.Background(), "::1")
		say(ips, err)
		ips, err = net.DefaultResolver.LookupIPAddr(context.Background(), "fe80::1%eth0")
		say(ips, err)
		_, err = net.DefaultResolver.LookupIPAddr(context.Background(), "")
		say(err)
		names, err := net.LookupHost("192.0.2.1")
		say(names, err)
		p, err := net.LookupPort("tcp", "514")
		say(p, err)
		_, err = net.LookupPort("tcp", "70000")
		say(err)
		_, err = net.LookupPort("tcp", "no-such")
		say(err)
		return strings.Join(out, "\n")
	})
	add("unix sockets", func() string {
		var out []string
		say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
		p := path("sock")
		l, err := net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
		say(why(err))
		st, err := os.Stat(p)
		say(why(err), st.Mode()&os.ModeType == os.ModeSocket, st.IsDir(), st.Mode().IsRegular(), st.Name())
		st2, _ := os.Lstat(p)
		say(os.SameFile(st, st2))
		_, err = net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
		say("in use ", why(err))
		_, err = net.ListenUnixgram("unixgram", &net.UnixAddr{Name: p, Net: "unixgram"})
		say("in use ", why(err))
		_, err = net.DialUnix("unixgram", nil, &net.UnixAddr{Name: p, Net: "unixgram"})
		say("wrong type ", why(err))
		c, err := net.DialUnix("unix", nil, &net.UnixAddr{Name: p, Net: "unix"})
		say(why(err), c.RemoteAddr(), "|", c.RemoteAddr().Network(), "|", c.LocalAddr(), "|", c.LocalAddr().Network())
		s, err := l.AcceptUnix()
		say(why(err), s.RemoteAddr(), "|", s.LocalAddr(), "|", s.RemoteAddr().Network())
		say(l.Addr(), l.Addr().Network())
		say(why(l.Close()))
		_, err = os.Stat(p)
		say("removed ", why(err), os.IsNotExist(err))
		// what was accepted lives on
		c.Write([]byte("x"))
		n, err := s.Read(make([]byte, 5))
		say(n, why(err))
		c.Close()
		s.Close()
		_, err = net.DialUnix("unix", nil, &net.UnixAddr{Name: p, Net: "unix"})
		say("dial nothing ", why(err))
		// stale
		l, _ = net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
		l.SetUnlinkOnClose(false)
		l.Close()
		_, err = os.Stat(p)
		say("stale ", why(err))
		_, err = net.DialUnix("unix", nil, &net.UnixAddr{Name: p, Net: "unix"})
		say("stale ", why(err))
		_, err = net.DialUnix("unixgram", nil, &net.UnixAddr{Name: p, Net: "unixgram"})
		say("stale ", why(err))
		_, err = net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
		say("stale ", why(err))
		say(why(os.Remove(p)), why(os.Remove(p)))
		// the path of a listener removed by someone else
		l, _ = net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
		os.Remove(p)
		l2, err := net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
		say("taken over ", why(err))
		c, err = net.DialUnix("unix", nil, &net.UnixAddr{Name: p, Net: "unix"})
		say(why(err))
		_, err = l2.Accept()
		say(why(err))
		c.Close()
		say(why(l.Close()))
		_, err = os.Stat(p)
		say("closing the old one removes ", why(err))
		say(why(l2.Close()))
		// other things at the path
		_, err = net.DialUnix("unix", nil, &net.UnixAddr{Name: Dir, Net: "unix"})
		say("directory ", why(err))
		_, err = net.ListenUnix("unix", &net.UnixAddr{Name: Dir, Net: "unix"})
		say("directory ", why(err))
		_, err = net.ListenUnix("unix", &net.UnixAddr{Name: path("no/such"), Net: "unix"})
		say("no directory ", why(err))
		_, err = net.DialUnix("unix", nil, &net.UnixAddr{Name: path("no/such"), Net: "unix"})
		say("no directory ", why(err))
		_, err = net.DialUnix("nonsense", nil, &net.UnixAddr{Name: p})
		say(hide(fmt.Sprint(err)))
		_, err = net.DialUnix("unix", nil, nil)
		say("nil ", err != nil)
		_, err = net.ListenUnix("unix", nil)
		say("nil ", err != nil)
		a, err := net.ResolveUnixAddr("unix", p)
		say(a, a.Net, err)
		_, err = net.ResolveUnixAddr("tcp", p)
		say(err)
		ln, err := net.Listen("unix", p)
		say(why(err), fmt.Sprintf("%T", ln))
		ln.Close()
		return strings.Join(out, "\n")
	})
	add("datagrams", func() string {
		var out []string
		say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
		p := path("dgram")
		buf := make([]byte, 10)
		s, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: p, Net: "unixgram"})
		say(why(err), s.LocalAddr(), s.RemoteAddr() == nil)
		_, err = net.DialUnix("unix", nil, &net.UnixAddr{Name: p, Net: "unix"})
		say("wrong type ", why(err))
		c, err := net.DialUnix("unixgram", nil, &net.UnixAddr{Name: p, Net: "unixgram"})
		say(why(err), c.RemoteAddr(), c.LocalAddr() == nil)
		n, err := c.Write([]byte("abc"))
		say(n, why(err))
		n, err = c.Write([]byte("a long datagram"))
		say(n, why(err))
		n, err = c.Write(nil)
		say(n, why(err))
		n, err = c.Write([]byte("end"))
		say(n, why(err))
		n, a, err := s.ReadFromUnix(buf)
		say(n, why(err), a == nil, string(buf[:n]))
		n, err = s.Read(buf)
		say(n, why(err), string(buf[:n]))
		n, _, err = s.ReadFrom(buf)
		say(n, why(err))
		n, err = s.Read(buf)
		say(n, why(err), string(buf[:n]))
		s.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		n, _, err = s.ReadFrom(buf)
		say("deadline ", n, why(err))
		c.Write([]byte("x"))
		n, _, err = s.ReadFrom(buf)
		say("expired ", n, why(err))
		s.SetReadDeadline(time.Time{})
		n, _, err = s.ReadFrom(buf)
		say(n, why(err))
		n, err = c.Write(make([]byte, 1<<22))
		say("too long ", n, why(err))
		done := make(chan string)
		go func() { n, _, err := s.ReadFrom(buf); done <- fmt.Sprint(n, why(err)) }()
		pause()
		say(why(s.Close()))
		say(<-done)
		n, _, err = s.ReadFrom(buf)
		say(n, why(err))
		n, err = s.Read(buf)
		say(n, why(err))
		say("again ", why(s.Close()))
		_, err = os.Lstat(p)
		say("path stays ", why(err))
		n, err = c.Write([]byte("x"))
		say("server closed ", n, why(err))
		n, err = c.Write([]byte("x"))
		say("server closed, again ", n, why(err))
		_, err = net.DialUnix("unixgram", nil, &net.UnixAddr{Name: p, Net: "unixgram"})
		say("stale ", why(err))
		_, err = net.ListenUnixgram("unixgram", &net.UnixAddr{Name: p, Net: "unixgram"})
		say("stale ", why(err))
		c.Close()
		n, err = c.Write([]byte("x"))
		say(n, why(err))
		os.Remove(p)
		_, err = net.ListenUnixgram("unix", &net.UnixAddr{Name: p, Net: "unix"})
		say("wrong network ", err != nil)
		// the path renamed under the server
		s, _ = net.ListenUnixgram("unixgram", &net.UnixAddr{Name: p, Net: "unixgram"})
		say(why(os.Rename(p, path("elsewhere"))))
		c, err = net.DialUnix("unixgram", nil, &net.UnixAddr{Name: path("elsewhere"), Net: "unixgram"})
		say(why(err))
		c.Write([]byte("there"))
		n, err = s.Read(buf)
		say(n, why(err))
		c.Close()
		s.Close()
		os.Remove(path("elsewhere"))
		return strings.Join(out, "\n")
	})
	add("nobody", func() string {
		var out []string
		say := func(n string, f func() error) {
			out = append(out, n+" "+try(func() { out = append(out, why(f())) }))
		}
		var c *net.TCPConn
		var u *net.UnixConn
		var l *net.TCPListener
		var ul *net.UnixListener
		say("close", func() error { return c.Close() })
		say("write", func() error { _, err := u.Write([]byte("x")); return err })
		say("closeread", func() error { return c.CloseRead() })
		say("listener", func() error { return l.Close() })
		say("accept", func() error { _, err := l.Accept(); return err })
		say("unix listener", func() error { return ul.Close() })
		say("unix accept", func() error { _, err := ul.AcceptUnix(); return err })
		say("deadline", func() error { return ul.SetDeadline(time.Time{}) })
		c, u, l, ul = new(net.TCPConn), new(net.UnixConn), new(net.TCPListener), new(net.UnixListener)
		say("close", func() error { return c.Close() })
		say("write", func() error { _, err := u.Write([]byte("x")); return err })
		say("read", func() error { _, err := u.Read([]byte("x")); return err })
		say("readfrom", func() error { _, _, err := u.ReadFrom([]byte("x")); return err })
		say("closeread", func() error { return c.CloseRead() })
		say("nodelay", func() error { return c.SetNoDelay(true) })
		say("deadline", func() error { return c.SetDeadline(time.Now()) })
		say("listener", func() error { return l.Close() })
		say("unix accept", func() error { _, err := ul.AcceptUnix(); return err })
		return strings.Join(out, "\n")
	})
	add("files", func() string {
		var out []string
		say := func(a ...interface{}) { out = append(out, fmt.Sprint(a...)) }
		_, err := os.Stat(path("none"))
		say(why(err), os.IsNotExist(err))
		_, err = os.Lstat(path("none/none"))
		say(why(err))
		say(why(os.Remove(path("none"))))
		say(why(os.Rename(path("none"), path("other"))) != "ok")
		st, err := os.Stat(Dir)
		say(why(err), st.IsDir(), st.Mode().IsRegular())
		l, _ := net.Listen("unix", path("in"))
		say(why(os.Remove(Dir)))
		say(why(os.Chmod(path("in"), 0666)), why(os.Chmod(path("none"), 0666)))
		st, _ = os.Stat(path("in"))
		say(st.Mode().String()[:1], st.Size())
		l.Close()
		say(why(os.RemoveAll(path("none"))))
		return strings.Join(out, "\n")
	})
	return
}
