// Package net stands in for the standard net package under simulation: TCP and
// unix sockets between simulated processes, and name lookup.
package net

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

// World is the simulated network of one run.
type World struct {
	s          *vsim.Sim
	tcp        map[string]*lsock // "ip:port" or "*:port"
	conns      []*Sock
	nextPort   int
	down       map[string]bool // addresses that answer nothing
	Hosts      map[string]*Host
	Lat        func() time.Duration // latency of one TCP segment
	Seg        func(n int) int      // size of the next TCP segment of n bytes
	Window     int                  // bytes in flight and unread, per direction
	UnixBuf    int
	DgramQ     int
	DgramFull  error // nil: block when the queue is full
	DgramMax   int
	ConnectTO  time.Duration // connecting to a silent address
	RetransTO  time.Duration // a partition longer than this breaks connections
	Fault      func(op string) error
	ReadFault  func(c *Sock) error                       // of an accepted stream connection
	OnWrite    func(c *Sock, p []byte, n int, err error) // every write is told
	Opened     int
	Lookups    []time.Duration          // when names were looked up
	Slow       map[string]time.Duration // addresses that take their time to answer a connect
	LookupTime time.Duration            // a name server's answer takes at least
}

// Host is what the simulated DNS knows about a name.
type Host struct {
	IPs   []string
	Err   string        // lookup error text
	Delay time.Duration // time to answer
	Never bool          // no answer at all
}

// Net returns the network of the run in progress.
func Net() *World {
	s := vsim.Active()
	if s == nil {
		panic("snet: used outside of a simulation")
	}
	w, _ := s.Data["net"].(*World)
	if w == nil {
		w = &World{s: s, tcp: map[string]*lsock{}, nextPort: 40000, down: map[string]bool{}, Hosts: map[string]*Host{
			"localhost": {IPs: []string{"127.0.0.1", "::1"}},
		}, Window: 1 << 16, UnixBuf: 1 << 16, DgramQ: 10, DgramMax: 212000, LookupTime: 50 * time.Microsecond, ConnectTO: 127 * time.Second, RetransTO: 300 * time.Second}
		s.Data["net"] = w
	}
	return w
}

func (w *World) lat() time.Duration {
	if w.Lat == nil {
		return 50 * time.Microsecond
	}
	return w.Lat()
}

func (w *World) fault(op string) error {
	if w.Fault == nil {
		return nil
	}
	err := w.Fault(op)
	if err != nil {
		w.s.Count("fault.net_" + op)
		w.s.Ev("net fault", op, err.Error())
	}
	return err
}

// SetDown makes an address silent (partition) or reachable again.
func (w *World) SetDown(ip string, down bool) {
	if down == w.down[ip] {
		return
	}
	w.down[ip] = down
	w.s.Ev("net address", ip, map[bool]string{true: "unreachable", false: "reachable"}[down])
	if down {
		w.s.Count("fault.net_partition")
		return
	}
	w.s.Count("fault.net_heal")
	for _, c := range w.conns {
		c.pump()
	}
}

func (w *World) unreachable(ip string) bool { return w.down[ip] }

func opErr(op, network string, src, dst net.Addr, call string, errno error) error {
	var e error = errno
	if _, ok := errno.(syscall.Errno); ok && call != "" {
		e = &simos.SyscallError{Syscall: call, Err: errno}
	}
	return &net.OpError{Op: op, Net: network, Source: src, Addr: dst, Err: e}
}

// ---------------------------------------------------------------- stream sockets

type seg struct {
	data []byte
	fin  bool
	rst  bool
	at   time.Duration
}

// Sock is one end of a stream connection, or a datagram socket.
type Sock struct {
	w        *World
	network  string
	node     *vsim.Node
	peer     *Sock
	ip       string // of the remote end, for reachability
	local    net.Addr
	remote   net.Addr
	rbuf     []byte
	wire     []*seg // towards this end, in order
	lastAt   time.Duration
	eof      bool
	err      error // pending error (reset)
	broken   bool  // it has been told
	rdShut   bool
	wrShut   bool
	linger0  bool // Close resets
	closed   bool
	gone     bool // the process owning this end has crashed
	rdDead   time.Duration
	wrDead   time.Duration
	q        vsim.WaitQ
	Sent     int
	ID       int
	downAt   time.Duration
	sendPeer time.Duration
	accepted bool
	passive  bool // made by a listener
	Recvd    int  // what its owner has read

	// datagram
	dgram  bool
	bound  string
	dq     [][]byte
	target *Sock
}

func (c *Sock) pathDown() bool { return c.ip != "" && c.w.unreachable(c.ip) }

// pump delivers what is due.
func (c *Sock) pump() {
	ch := false
	for len(c.wire) > 0 && !c.pathDown() {
		g := c.wire[0]
		if g.at > c.w.s.Elapsed() {
			c.w.s.After(g.at-c.w.s.Elapsed(), c.pump)
			break
		}
		c.wire = c.wire[1:]
		ch = true
		switch {
		case g.rst:
			if c.err == nil && !c.broken {
				c.err = syscall.ECONNRESET
			}
			c.wire = nil // what has arrived can still be read
		case g.fin:
			c.eof = true
		case c.closed || c.gone:
			// data for a closed socket is answered by a reset
			if c.peer != nil {
				c.peer.push(&seg{rst: true})
			}
			c.wire = nil
		case c.rdShut:
			// discarded, as Linux does
		default:
			c.rbuf = append(c.rbuf, g.data...)
		}
	}
	if ch {
		c.q.WakeAll()
		if c.peer != nil {
			c.peer.q.WakeAll()
		}
	}
}

// push puts a segment on the way to this end.
func (c *Sock) push(g *seg) {
	d := time.Duration(0)
	if c.network != "unix" {
		d = c.w.lat()
	}
	g.at = c.w.s.Elapsed() + d
	if g.at < c.lastAt {
		g.at = c.lastAt
	}
	c.lastAt = g.at
	c.wire = append(c.wire, g)
	if d == 0 || len(c.wire) == 1 {
		c.pump()
	}
}

// load is what is on the way to or unread at this end.
func (c *Sock) load() int {
	n := len(c.rbuf)
	for _, g := range c.wire {
		n += len(g.data)
	}
	return n
}

func (c *Sock) limit() int {
	if c.network == "unix" {
		return c.w.UnixBuf
	}
	return c.w.Window
}

func (c *Sock) read(p []byte) (int, error) {
	vsim.Y()
	for {
		switch {
		case c.closed:
			return 0, opErr("read", c.network, c.local, c.remote, "", net.ErrClosed)
		case len(p) == 0:
			return 0, nil
		case c.rdDead > 0 && c.w.s.Elapsed() >= c.rdDead || c.rdDead < 0:
			return 0, opErr("read", c.network, c.local, c.remote, "", simos.ErrDeadlineExceeded)
		}
		if c.accepted && c.w.ReadFault != nil {
			if err := c.w.ReadFault(c); err != nil {
				c.w.s.Count("fault.net_read")
				c.w.s.Ev("net fault", "read", c.ID, err.Error())
				return 0, opErr("read", c.network, c.local, c.remote, "read", err)
			}
		}
		switch {
		case len(c.rbuf) > 0:
			n := copy(p, c.rbuf)
			if n > 1 && c.network != "unix" {
				n = c.w.segment(n)
			}
			c.rbuf = append([]byte(nil), c.rbuf[n:]...)
			c.Recvd += n
			c.w.s.Ev("sock read", c.ID, n)
			if c.peer != nil {
				c.peer.q.WakeAll()
			}
			return n, nil
		case c.err != nil: // told once
			return 0, opErr("read", c.network, c.local, c.remote, "read", c.told())
		case c.eof || c.rdShut:
			return 0, io.EOF
		}
		c.q.WaitUntil("socket read", c.rdDead)
	}
}

// told hands out the pending error: afterwards the connection is just over.
func (c *Sock) told() error {
	err := c.err
	c.err, c.eof, c.broken = nil, true, true
	return err
}

func (w *World) segment(n int) int {
	if w.Seg == nil {
		return n
	}
	k := w.Seg(n)
	if k < 1 {
		k = 1
	}
	if k > n {
		k = n
	}
	return k
}

func (c *Sock) write(p []byte) (int, error) {
	vsim.Y()
	if err := c.w.fault("write"); err != nil {
		return 0, opErr("write", c.network, c.local, c.remote, "write", err)
	}
	done := 0
	var downSince time.Duration = -1
	for {
		switch {
		case c.closed:
			return done, opErr("write", c.network, c.local, c.remote, "", net.ErrClosed)
		case c.wrDead > 0 && c.w.s.Elapsed() >= c.wrDead || c.wrDead < 0:
			return done, opErr("write", c.network, c.local, c.remote, "", simos.ErrDeadlineExceeded)
		case c.wrShut || c.broken:
			return done, opErr("write", c.network, c.local, c.remote, "write", syscall.EPIPE)
		case c.err != nil:
			return done, opErr("write", c.network, c.local, c.remote, "write", c.told())
		case c.network == "unix" && (c.peer.closed || c.peer.gone || c.peer.rdShut):
			return done, opErr("write", c.network, c.local, c.remote, "write", syscall.EPIPE)
		case done == len(p):
			return done, nil
		}
		free := c.peer.limit() - c.peer.load()
		if free <= 0 {
			at := c.wrDead
			if c.pathDown() {
				if downSince < 0 {
					downSince = c.w.s.Elapsed()
				} else if c.w.s.Elapsed() >= downSince+c.w.RetransTO {
					c.err = syscall.ETIMEDOUT
					c.peer.wire = nil // nobody sends again what was under way
					c.peer.push(&seg{rst: true})
					continue
				}
				if at == 0 || at > downSince+c.w.RetransTO {
					at = downSince + c.w.RetransTO
				}
			}
			c.w.s.Count("probe.socket_buffer_full")
			c.q.WaitUntil("socket write", at)
			continue
		}
		n := len(p) - done
		if n > free {
			n = free
		}
		n = c.w.segment(n)
		c.peer.push(&seg{data: append([]byte(nil), p[done:done+n]...)})
		done += n
		c.Sent += n
		vsim.Y()
	}
}

func (c *Sock) closeRead() error {
	vsim.Y()
	if c.closed {
		return opErr("close", c.network, c.local, c.remote, "", net.ErrClosed)
	}
	c.rdShut = true
	c.q.WakeAll()
	if c.peer != nil {
		c.peer.q.WakeAll()
	}
	return nil
}

func (c *Sock) closeWrite() error {
	vsim.Y()
	if c.closed {
		return opErr("close", c.network, c.local, c.remote, "", net.ErrClosed)
	}
	if c.dgram {
		c.wrShut = true
		return nil
	}
	if !c.wrShut {
		c.wrShut = true
		c.peer.push(&seg{fin: true})
	}
	return nil
}

// shut closes this end as the kernel does when the last descriptor goes.
func (c *Sock) shut(crashed bool) {
	if c.closed || c.gone {
		return
	}
	c.closed = true
	if crashed {
		c.gone = true
	}
	c.w.s.Ev("sock close", c.ID, crashed)
	if c.dgram {
		if n := simos.FS().Get(c.bound); c.bound != "" && n != nil && n.Sock == c {
			n.Sock = nil
		}
		c.dq = nil
		if c.target != nil {
			c.target.q.WakeAll()
		}
	} else if c.linger0 && !crashed {
		c.peer.wire = nil // unsent data is discarded
		c.peer.push(&seg{rst: true})
	} else if len(c.rbuf) > 0 && !c.rdShut || c.err != nil || c.broken { // a connection that failed has no regular end
		c.peer.push(&seg{rst: true})
	} else if !c.wrShut {
		c.peer.push(&seg{fin: true})
	}
	c.rbuf = nil
	c.q.WakeAll()
	if c.peer != nil {
		c.peer.q.WakeAll()
	}
}

func (c *Sock) close() error {
	vsim.Y()
	if c.closed {
		return opErr("close", c.network, c.local, c.remote, "", net.ErrClosed)
	}
	c.shut(false)
	return nil
}

func deadline(s *vsim.Sim, t time.Time) time.Duration {
	if t.IsZero() {
		return 0
	}
	d := t.Sub(s.NowMono())
	if d <= 0 {
		return -1
	}
	return s.Elapsed() + d
}

// Abort resets the connection (both ends fail with a reset).
func (c *Sock) Abort() {
	c.w.s.Count("fault.net_reset")
	c.w.s.Ev("sock reset", c.ID)
	for _, e := range []*Sock{c, c.peer} {
		if e != nil && e.err == nil && !e.broken {
			e.err = syscall.ECONNRESET
			e.wire = nil // what has arrived can still be read
			e.q.WakeAll()
		}
	}
}

// Peer is the other end, Node the process that owns this one.
func (c *Sock) Peer() *Sock      { return c.peer }
func (c *Sock) Node() *vsim.Node { return c.node }
func (c *Sock) IsClosed() bool   { return c.closed }
func (c *Sock) Accepted() bool   { return c.accepted }
func (c *Sock) Client() bool     { return !c.passive && c.bound == "" }
func (c *Sock) Network() string  { return c.network }
func (c *Sock) Unread() int      { return c.load() }
func (w *World) Socks() []*Sock  { return w.conns }

// Crash is what the kernel does to the sockets of a process that dies; power
// means that the machine dies: nothing is sent to the peers.
func (w *World) Crash(n *vsim.Node, power bool) {
	for _, l := range w.listeners() {
		if l.node == n {
			l.shut(false)
		}
	}
	for _, c := range w.conns {
		if c.node == n && !c.closed {
			if power && !c.dgram && c.network != "unix" {
				c.closed, c.gone = true, true
				c.rbuf = nil
				c.w.s.Ev("sock power loss", c.ID)
				c.q.WakeAll()
			} else {
				c.shut(true)
			}
		}
	}
}

func (w *World) newSock(network string, node *vsim.Node) *Sock {
	w.Opened++
	c := &Sock{w: w, network: network, node: node, ID: len(w.conns)}
	w.conns = append(w.conns, c)
	return c
}

// ---------------------------------------------------------------- listeners

type lsock struct {
	w       *World
	network string
	addr    net.Addr
	keys    []string
	path    string
	node    *vsim.Node
	backlog []*Sock
	closed  bool
	unlink  bool
	dead    time.Duration
	q       vsim.WaitQ
	all     *lsock
}

const maxBacklog = 128

func (w *World) listeners() []*lsock {
	m := map[*lsock]bool{}
	var out []*lsock
	var keys []string
	for k := range w.tcp {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if l := w.tcp[k]; !m[l] {
			m[l] = true
			out = append(out, l)
		}
	}
	fs := simos.FS()
	for _, p := range fs.Paths() {
		if l, ok := fs.Get(p).Sock.(*lsock); ok && !m[l] {
			m[l] = true
			out = append(out, l)
		}
	}
	if u, ok := w.s.Data["unlinked"].([]*lsock); ok {
		for _, l := range u {
			if !m[l] {
				m[l] = true
				out = append(out, l)
			}
		}
	}
	return out
}

func (l *lsock) accept(op string) (*Sock, error) {
	vsim.Y()
	for {
		switch {
		case l.closed:
			return nil, opErr("accept", l.network, nil, l.addr, "", net.ErrClosed)
		case l.dead > 0 && l.w.s.Elapsed() >= l.dead || l.dead < 0:
			return nil, opErr("accept", l.network, nil, l.addr, "", simos.ErrDeadlineExceeded)
		case len(l.backlog) > 0:
			if err := l.w.fault("accept"); err != nil {
				return nil, opErr("accept", l.network, nil, l.addr, "accept4", err)
			}
			c := l.backlog[0]
			c.accepted = true
			l.backlog = l.backlog[1:]
			l.q.WakeAll()
			l.w.s.Ev("sock accept", c.ID)
			return c, nil
		}
		l.q.WaitUntil("accept", l.dead)
	}
}

func (l *lsock) shut(unlink bool) {
	if l.closed {
		return
	}
	l.closed = true
	for _, k := range l.keys {
		delete(l.w.tcp, k)
	}
	if l.path != "" {
		fs := simos.FS()
		for _, p := range fs.Paths() {
			if n := fs.Get(p); n.Sock == l {
				n.Sock = nil
			}
		}
		if unlink && l.unlink {
			fs.Del(l.path)
		}
	}
	for _, c := range l.backlog {
		c.closed = true
		c.peer.push(&seg{rst: true})
	}
	l.backlog = nil
	l.w.s.Ev("listener close", l.addr.String())
	l.q.WakeAll()
}

func (l *lsock) close() error {
	vsim.Y()
	if l.closed {
		return opErr("close", l.network, nil, l.addr, "", net.ErrClosed)
	}
	l.shut(true)
	return nil
}

// connect builds a connection to l and puts its far end on the backlog.
func (w *World) connect(l *lsock, network string, laddr, raddr net.Addr, ip string) *Sock {
	a := w.newSock(network, w.s.Cur().Node)
	b := w.newSock(network, l.node)
	a.peer, b.peer = b, a
	b.passive = true
	a.local, a.remote = laddr, raddr
	b.local, b.remote = raddr, laddr
	a.ip, b.ip = ip, ip
	l.backlog = append(l.backlog, b)
	l.q.WakeAll()
	w.s.Ev("sock connect", a.ID, b.ID, raddr.String())
	return a
}

// ---------------------------------------------------------------- TCP

type conn struct{ s *Sock }

func (c *conn) Read(p []byte) (int, error) {
	if c.s == nil {
		return 0, syscall.EINVAL
	}
	if c.s.dgram {
		n, _, err := c.s.recvFrom(p)
		return n, err
	}
	return c.s.read(p)
}
func (c *conn) Write(p []byte) (int, error) {
	if c.s == nil {
		return 0, syscall.EINVAL
	}
	if c.s.dgram {
		n, err := c.s.sendDgram(p)
		if f := c.s.w.OnWrite; f != nil {
			f(c.s, p, n, err)
		}
		return n, err
	}
	n, err := c.s.write(p)
	if f := c.s.w.OnWrite; f != nil {
		f(c.s, p, n, err)
	}
	return n, err
}
func (c *conn) Close() error {
	if c.s == nil {
		return syscall.EINVAL
	}
	return c.s.close()
}
func (c *conn) LocalAddr() net.Addr {
	if c.s == nil {
		return nil
	}
	return c.s.local
}
func (c *conn) RemoteAddr() net.Addr {
	if c.s == nil {
		return nil
	}
	return c.s.remote
}
func (c *conn) SetDeadline(t time.Time) error {
	if c.s == nil {
		return syscall.EINVAL
	}
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	if c.s == nil {
		return syscall.EINVAL
	}
	vsim.Y()
	if c.s.closed {
		return opErr("set", c.s.network, nil, c.s.local, "", net.ErrClosed)
	}
	c.s.rdDead = deadline(c.s.w.s, t)
	c.s.q.WakeAll()
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error {
	if c.s == nil {
		return syscall.EINVAL
	}
	vsim.Y()
	if c.s.closed {
		return opErr("set", c.s.network, nil, c.s.local, "", net.ErrClosed)
	}
	c.s.wrDead = deadline(c.s.w.s, t)
	c.s.q.WakeAll()
	return nil
}
func (c *conn) opt() error {
	if c.s == nil {
		return syscall.EINVAL
	}
	vsim.Y()
	if c.s.closed {
		return opErr("set", c.s.network, c.s.local, c.s.remote, "", net.ErrClosed)
	}
	return nil
}
func (c *conn) SetReadBuffer(int) error  { return c.opt() }
func (c *conn) SetWriteBuffer(int) error { return c.opt() }
func (c *conn) CloseRead() error {
	if c.s == nil {
		return syscall.EINVAL
	}
	return c.s.closeRead()
}
func (c *conn) CloseWrite() error {
	if c.s == nil {
		return syscall.EINVAL
	}
	return c.s.closeWrite()
}

// Sock gives the harness access to the simulated socket.
func (c *conn) Sock() *Sock { return c.s }

// TCPConn is net.TCPConn.
type TCPConn struct{ conn }

func (c *TCPConn) SetLinger(sec int) error {
	if c.s != nil {
		c.s.linger0 = sec == 0
	}
	return c.opt()
}
func (c *TCPConn) SetNoDelay(bool) error                    { return c.opt() }
func (c *TCPConn) SetKeepAlive(bool) error                  { return c.opt() }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error   { return c.opt() }
func (c *TCPConn) SetKeepAliveConfig(KeepAliveConfig) error { return c.opt() }
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error)      { return io.Copy(struct{ io.Writer }{c}, r) }
func (c *TCPConn) WriteTo(w io.Writer) (int64, error)       { return io.Copy(w, struct{ io.Reader }{c}) }
func (c *TCPConn) SyscallConn() (syscall.RawConn, error)    { return nil, syscall.EOPNOTSUPP }

// The keys of World.tcp are "*4:port" and "*6:port" for every address of a
// family and "ip:port" for one.

func wildKey(ip net.IP) string {
	if ip.To4() != nil {
		return "*4:"
	}
	return "*6:"
}

// wildOf is the family of a key.
func wildOf(key string) byte {
	if key[0] == '*' {
		return key[1]
	}
	if strings.Count(key, ":") == 1 {
		return '4'
	}
	return '6'
}

// tcpKeys gives what a listener occupies; without an address it listens on
// those of both families, unless the network names one.
func tcpKeys(network string, ip net.IP, port string) []string {
	if ip != nil && !ip.IsUnspecified() {
		return []string{ip.String() + ":" + port}
	}
	switch network {
	case "tcp4":
		return []string{"*4:" + port}
	case "tcp6":
		return []string{"*6:" + port}
	}
	return []string{"*4:" + port, "*6:" + port}
}

func okNet(network string, ip net.IP) bool {
	switch network {
	case "tcp4":
		return ip == nil || ip.To4() != nil
	case "tcp6":
		return ip == nil || ip.To4() == nil
	}
	return true
}

// DialTCP is net.DialTCP.
func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	return dialTCP(context.Background(), network, laddr, raddr)
}

func dialTCP(ctx context.Context, network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	vsim.Y()
	var la net.Addr
	if laddr != nil {
		la = laddr
	}
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &net.OpError{Op: "dial", Net: network, Source: la, Addr: raddr, Err: net.UnknownNetworkError(network)}
	}
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Source: la, Addr: nil, Err: errors.New("missing address")}
	}
	if !okNet(network, raddr.IP) {
		return nil, &net.OpError{Op: "dial", Net: network, Source: la, Addr: raddr, Err: &net.AddrError{Err: "non-matching address family", Addr: raddr.IP.String()}}
	}
	if raddr.Port < 0 || raddr.Port > 65535 {
		return nil, &net.OpError{Op: "dial", Net: network, Source: la, Addr: raddr, Err: &net.AddrError{Err: "invalid port", Addr: strconv.Itoa(raddr.Port)}}
	}
	w := Net()
	if err := w.fault("connect"); err != nil {
		return nil, opErr("dial", network, la, raddr, "connect", err)
	}
	ip := raddr.IP
	if ip == nil || ip.IsUnspecified() {
		ip = net.IPv4(127, 0, 0, 1)
		if network == "tcp6" {
			ip = net.IPv6loopback
		}
	}
	ips := ip.String()
	w.s.Ev("tcp dial", ips, raddr.Port)
	start := w.s.Elapsed()
	if slow := w.Slow[ips]; slow > 0 {
		w.s.Count("fault.slow_connect")
	}
	if ctx.Err() != nil || sleepCtx(ctx, w.lat()+w.lat()+w.Slow[ips]) || ctx.Err() != nil {
		return nil, opErr("dial", network, la, raddr, "", ctxErr(ctx))
	}
	for w.unreachable(ips) {
		w.s.Count("probe.connect_to_silent_address")
		if w.s.Elapsed()-start >= w.ConnectTO {
			return nil, opErr("dial", network, la, raddr, "connect", syscall.ETIMEDOUT)
		}
		if sleepCtx(ctx, time.Second) {
			return nil, opErr("dial", network, la, raddr, "", ctxErr(ctx))
		}
	}
	p := strconv.Itoa(raddr.Port)
	l := w.tcp[ips+":"+p]
	if l == nil {
		l = w.tcp[wildKey(ip)+p]
	}
	if l == nil || len(l.backlog) >= maxBacklog {
		w.s.Count("probe.connection_refused")
		return nil, opErr("dial", network, la, raddr, "connect", syscall.ECONNREFUSED)
	}
	w.nextPort++
	src := &net.TCPAddr{IP: ip, Port: w.nextPort}
	c := &TCPConn{conn{w.connect(l, network, src, raddr, ips)}}
	vsim.Y()
	return c, nil
}

// what package net makes of the end of a context
type (
	canceledError struct{}
	timeoutError  struct{}
)

func (canceledError) Error() string     { return "operation was canceled" }
func (canceledError) Is(err error) bool { return err == context.Canceled }
func (*timeoutError) Error() string     { return "i/o timeout" }
func (*timeoutError) Timeout() bool     { return true }
func (*timeoutError) Temporary() bool   { return true }
func (*timeoutError) Is(err error) bool { return err == context.DeadlineExceeded }

func ctxErr(ctx context.Context) error {
	if ctx.Err() == context.Canceled {
		return canceledError{}
	}
	return &timeoutError{}
}

// sleepCtx sleeps; true if the context ended first.
func sleepCtx(ctx context.Context, d time.Duration) bool {
	s := vsim.Active()
	if ctx == nil || ctx.Done() == nil {
		s.Sleep(d)
		return false
	}
	t := make(chan struct{}, 1)
	tm := s.After(d, func() { vsim.TrySend((chan<- struct{})(t), struct{}{}) })
	r := vsim.Select(false, vsim.RecvCase((<-chan struct{})(t)), vsim.RecvCase(ctx.Done()))
	tm.Stop()
	return r == 1
}

// TCPListener is net.TCPListener.
type TCPListener struct{ l *lsock }

func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	vsim.Y()
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: net.UnknownNetworkError(network)}
	}
	if laddr == nil {
		laddr = &TCPAddr{}
	}
	if !okNet(network, laddr.IP) {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: &net.AddrError{Err: "non-matching address family", Addr: laddr.IP.String()}}
	}
	if laddr.Port < 0 || laddr.Port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: &net.AddrError{Err: "invalid port", Addr: strconv.Itoa(laddr.Port)}}
	}
	w := Net()
	if err := w.fault("listen"); err != nil {
		return nil, opErr("listen", network, nil, laddr, "bind", err)
	}
	a := *laddr
	if a.Port == 0 {
		w.nextPort++
		a.Port = w.nextPort
	}
	p := strconv.Itoa(a.Port)
	keys := tcpKeys(network, a.IP, p)
	switch {
	case a.IP != nil && !a.IP.IsUnspecified():
	case network == "tcp4":
		a.IP = net.IPv4zero
	default:
		a.IP = net.IPv6unspecified
	}
	for _, k := range keys {
		for o := range w.tcp { // nothing depends on the order
			if !strings.HasSuffix(o, ":"+p) {
				continue
			}
			if o == k || strings.HasPrefix(k, "*") && wildOf(o) == wildOf(k) || strings.HasPrefix(o, "*") && wildOf(o) == wildOf(k) {
				return nil, opErr("listen", network, nil, &a, "bind", syscall.EADDRINUSE)
			}
		}
	}
	l := &lsock{w: w, network: network, addr: &a, keys: keys, node: w.s.Cur().Node}
	for _, k := range keys {
		w.tcp[k] = l
	}
	w.s.Ev("tcp listen", strings.Join(keys, " "))
	return &TCPListener{l}, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if l == nil || l.l == nil {
		return nil, syscall.EINVAL
	}
	c, err := l.l.accept("accept")
	if err != nil {
		return nil, err
	}
	return &TCPConn{conn{c}}, nil
}

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) Close() error {
	if l == nil || l.l == nil {
		return syscall.EINVAL
	}
	return l.l.close()
}
func (l *TCPListener) Addr() net.Addr { return l.l.addr }
func (l *TCPListener) SetDeadline(t time.Time) error {
	if l == nil || l.l == nil {
		return syscall.EINVAL
	}
	l.l.dead = deadline(l.l.w.s, t)
	l.l.q.WakeAll()
	return nil
}

// ---------------------------------------------------------------- unix

// UnixConn is net.UnixConn.
type UnixConn struct{ conn }

func (c *UnixConn) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EOPNOTSUPP }

func (c *UnixConn) ReadFrom(p []byte) (int, net.Addr, error) {
	n, a, err := c.ReadFromUnix(p)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}
func (c *UnixConn) ReadFromUnix(p []byte) (int, *UnixAddr, error) {
	if c.s == nil {
		return 0, nil, syscall.EINVAL
	}
	if c.s.dgram {
		return c.s.recvFrom(p)
	}
	n, err := c.s.read(p)
	return n, nil, err
}
func (c *UnixConn) ReadMsgUnix(p, oob []byte) (int, int, int, *UnixAddr, error) {
	n, a, err := c.ReadFromUnix(p)
	return n, 0, 0, a, err
}
func (c *UnixConn) WriteMsgUnix(p, oob []byte, addr *UnixAddr) (int, int, error) {
	n, err := c.Write(p)
	return n, 0, err
}
func (c *UnixConn) WriteTo(p []byte, addr net.Addr) (int, error)      { return c.Write(p) }
func (c *UnixConn) WriteToUnix(p []byte, addr *UnixAddr) (int, error) { return c.Write(p) }

func (c *Sock) recvFrom(p []byte) (int, *UnixAddr, error) {
	vsim.Y()
	for {
		switch {
		case c.closed:
			return 0, nil, opErr("read", c.network, c.local, nil, "", net.ErrClosed)
		case c.rdDead > 0 && c.w.s.Elapsed() >= c.rdDead || c.rdDead < 0:
			return 0, nil, opErr("read", c.network, c.local, nil, "", simos.ErrDeadlineExceeded)
		case len(c.dq) > 0:
			if err := c.w.fault("recvfrom"); err != nil {
				return 0, nil, opErr("read", c.network, c.local, nil, "recvfrom", err)
			}
			d := c.dq[0]
			c.dq = c.dq[1:]
			n := copy(p, d) // the rest of the datagram is lost
			if n < len(d) {
				c.w.s.Count("probe.datagram_truncated")
			}
			c.w.s.Ev("dgram read", c.ID, n)
			c.q.WakeAll()
			return n, nil, nil
		case c.rdShut:
			return 0, nil, nil
		}
		c.q.WaitUntil("datagram read", c.rdDead)
	}
}

func (c *Sock) sendDgram(p []byte) (int, error) {
	vsim.Y()
	if err := c.w.fault("write"); err != nil {
		return 0, opErr("write", c.network, c.local, c.remote, "write", err)
	}
	for {
		switch {
		case c.closed:
			return 0, opErr("write", c.network, c.local, c.remote, "", net.ErrClosed)
		case c.wrDead > 0 && c.w.s.Elapsed() >= c.wrDead || c.wrDead < 0:
			return 0, opErr("write", c.network, c.local, c.remote, "", simos.ErrDeadlineExceeded)
		case c.target == nil:
			return 0, opErr("write", c.network, c.local, c.remote, "write", syscall.ENOTCONN)
		case c.wrShut:
			return 0, opErr("write", c.network, c.local, c.remote, "write", syscall.EPIPE)
		case c.target.closed: // told once: then the socket is not connected anymore
			c.target = nil
			return 0, opErr("write", c.network, c.local, c.remote, "write", syscall.ECONNREFUSED)
		case len(p) > c.w.DgramMax:
			return 0, opErr("write", c.network, c.local, c.remote, "write", syscall.EMSGSIZE)
		case len(c.target.dq) < c.w.DgramQ:
			c.target.dq = append(c.target.dq, append([]byte(nil), p...))
			c.target.q.WakeAll()
			c.w.s.Ev("dgram send", c.ID, len(p))
			return len(p), nil
		}
		c.w.s.Count("probe.datagram_queue_full")
		if c.w.DgramFull != nil {
			c.w.s.Count("fault.enobufs")
			c.w.s.Sleep(100 * time.Microsecond) // never a loop without time passing
			return 0, opErr("write", c.network, c.local, c.remote, "write", c.w.DgramFull)
		}
		c.target.q.WaitUntil("datagram write", c.wrDead)
	}
}

func ua(network string, a *UnixAddr) string {
	if a == nil {
		return ""
	}
	return a.Name
}

// DialUnix is net.DialUnix.
func DialUnix(network string, laddr, raddr *UnixAddr) (*UnixConn, error) {
	vsim.Y()
	var la, ra net.Addr
	if laddr != nil {
		la = laddr
	}
	if raddr != nil {
		ra = raddr
	}
	switch network {
	case "unix", "unixgram", "unixpacket":
	default:
		return nil, &net.OpError{Op: "dial", Net: network, Source: la, Addr: ra, Err: net.UnknownNetworkError(network)}
	}
	w := Net()
	fail := func(e error) (*UnixConn, error) {
		return nil, opErr("dial", network, la, ra, "connect", e)
	}
	if err := w.fault("connect"); err != nil {
		return fail(err)
	}
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	for {
		n := simos.FS().Get(raddr.Name)
		if n == nil {
			return fail(syscall.ENOENT)
		}
		if n.Mode&simos.ModeSocket == 0 {
			return fail(syscall.ECONNREFUSED)
		}
		switch k := n.Sock.(type) {
		case *lsock:
			if network != "unix" {
				return fail(syscall.EPROTOTYPE)
			}
			if k.closed {
				return fail(syscall.ECONNREFUSED)
			}
			if len(k.backlog) >= maxBacklog {
				return fail(syscall.EAGAIN)
			}
			c := &UnixConn{conn{w.connect(k, network, &net.UnixAddr{Name: "@", Net: network}, raddr, "")}}
			vsim.Y()
			return c, nil
		case *Sock:
			if network != "unixgram" {
				return fail(syscall.EPROTOTYPE)
			}
			if k.closed {
				return fail(syscall.ECONNREFUSED)
			}
			c := w.newSock(network, w.s.Cur().Node)
			c.dgram, c.target = true, k
			c.local, c.remote = &net.UnixAddr{Net: network}, raddr
			w.s.Ev("dgram connect", c.ID, raddr.Name)
			vsim.Y()
			return &UnixConn{conn{c}}, nil
		default:
			return fail(syscall.ECONNREFUSED)
		}
	}
}

// UnixListener is net.UnixListener.
type UnixListener struct{ l *lsock }

func bind(network string, a *UnixAddr) (*simos.Inode, error) {
	vsim.Y()
	if a == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("missing address")}
	}
	w := Net()
	fs := simos.FS()
	fail := func(e error) (*simos.Inode, error) { return nil, opErr("listen", network, nil, a, "bind", e) }
	if err := fs.Enter("bind", a.Name); err != nil {
		return fail(err)
	}
	if err := w.fault("listen"); err != nil {
		return fail(err)
	}
	if fs.Get(a.Name) != nil {
		w.s.Ev("unix bind: in use", a.Name)
		return fail(syscall.EADDRINUSE)
	}
	if !fs.ParentOK(a.Name) {
		return fail(syscall.ENOENT)
	}
	n := fs.Put(a.Name, simos.ModeSocket|0o755, nil)
	w.s.Ev("unix bind", network, a.Name)
	return n, nil
}

func ListenUnix(network string, laddr *UnixAddr) (*UnixListener, error) {
	if network != "unix" && network != "unixpacket" {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: net.UnknownNetworkError(network)}
	}
	n, err := bind(network, laddr)
	if err != nil {
		return nil, err
	}
	w := Net()
	l := &lsock{w: w, network: network, addr: laddr, path: laddr.Name, node: w.s.Cur().Node, unlink: true}
	n.Sock = l
	u, _ := w.s.Data["unlinked"].([]*lsock)
	w.s.Data["unlinked"] = append(u, l)
	return &UnixListener{l}, nil
}

func (l *UnixListener) AcceptUnix() (*UnixConn, error) {
	if l == nil || l.l == nil {
		return nil, syscall.EINVAL
	}
	c, err := l.l.accept("accept")
	if err != nil {
		return nil, err
	}
	return &UnixConn{conn{c}}, nil
}
func (l *UnixListener) Accept() (net.Conn, error) {
	c, err := l.AcceptUnix()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *UnixListener) Close() error {
	if l == nil || l.l == nil {
		return syscall.EINVAL
	}
	return l.l.close()
}
func (l *UnixListener) Addr() net.Addr { return l.l.addr }
func (l *UnixListener) SetDeadline(t time.Time) error {
	if l == nil || l.l == nil {
		return syscall.EINVAL
	}
	l.l.dead = deadline(l.l.w.s, t)
	l.l.q.WakeAll()
	return nil
}
func (l *UnixListener) SetUnlinkOnClose(b bool) { l.l.unlink = b }

func ListenUnixgram(network string, laddr *UnixAddr) (*UnixConn, error) {
	if network != "unixgram" {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: net.UnknownNetworkError(network)}
	}
	n, err := bind(network, laddr)
	if err != nil {
		return nil, err
	}
	w := Net()
	c := w.newSock(network, w.s.Cur().Node)
	c.dgram, c.bound = true, laddr.Name
	c.local = laddr
	n.Sock = c
	return &UnixConn{conn{c}}, nil
}

// ---------------------------------------------------------------- names

// Resolver is net.Resolver over the simulated DNS.
type Resolver struct {
	PreferGo     bool
	StrictErrors bool
	Dial         func(ctx context.Context, network, address string) (net.Conn, error)
}

var DefaultResolver = &Resolver{}

func (r *Resolver) LookupIPAddr(ctx context.Context, host string) ([]IPAddr, error) {
	vsim.Y()
	s := vsim.Active()
	if host == "" {
		return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	zone := ""
	h := host
	for i := range h {
		if h[i] == '%' {
			h, zone = host[:i], host[i+1:]
			break
		}
	}
	if ip := net.ParseIP(h); ip != nil {
		return []IPAddr{{IP: ip, Zone: zone}}, nil
	}
	w := Net()
	e := w.Hosts[host]
	s.Ev("dns lookup", host)
	w.Lookups = append(w.Lookups, s.Elapsed())
	if w.LookupTime > 0 && sleepCtx(ctx, w.LookupTime) {
		return nil, &net.DNSError{Err: "i/o timeout", Name: host, IsTimeout: true, IsTemporary: true}
	}
	if e == nil {
		return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	e2 := *e
	if e2.Never {
		s.Count("fault.dns_no_answer")
		if ctx == nil || ctx.Done() == nil {
			for {
				s.Block("name lookup without a time limit")
			}
		}
		vsim.Recv(ctx.Done())
		return nil, &net.DNSError{Err: "i/o timeout", Name: host, IsTimeout: true, IsTemporary: true}
	}
	if e2.Delay > 0 && sleepCtx(ctx, e2.Delay) {
		s.Count("fault.dns_late_answer")
		return nil, &net.DNSError{Err: "i/o timeout", Name: host, IsTimeout: true, IsTemporary: true}
	}
	if ctx != nil && ctx.Err() != nil {
		return nil, &net.DNSError{Err: "operation was canceled", Name: host, IsTimeout: true}
	}
	if e2.Err != "" {
		s.Count("fault.dns_error")
		return nil, &net.DNSError{Err: e2.Err, Name: host, IsTemporary: true}
	}
	var out []IPAddr
	for _, a := range e2.IPs {
		out = append(out, IPAddr{IP: net.ParseIP(a)})
	}
	if len(out) == 0 {
		return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return out, nil
}

func (r *Resolver) LookupHost(ctx context.Context, host string) ([]string, error) {
	l, err := r.LookupIPAddr(ctx, host)
	var out []string
	for _, a := range l {
		out = append(out, a.String())
	}
	return out, err
}

func (r *Resolver) LookupIP(ctx context.Context, network, host string) ([]IP, error) {
	l, err := r.LookupIPAddr(ctx, host)
	if err != nil {
		return nil, err
	}
	var out []IP
	for _, a := range l {
		is4 := a.IP.To4() != nil
		if network == "ip" || network == "ip4" && is4 || network == "ip6" && !is4 {
			out = append(out, a.IP)
		}
	}
	if len(out) == 0 {
		return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return out, nil
}

func (r *Resolver) LookupPort(ctx context.Context, network, service string) (int, error) {
	return LookupPort(network, service)
}

var ports = map[string]int{"syslog": 514, "syslog-tls": 6514, "http": 80, "domain": 53}

func LookupPort(network, service string) (int, error) {
	if service == "" {
		return 0, nil
	}
	if n, err := strconv.Atoi(service); err == nil {
		if n < 0 || n > 65535 {
			return 0, &net.AddrError{Err: "invalid port", Addr: service}
		}
		return n, nil
	}
	if n, ok := ports[service]; ok {
		return n, nil
	}
	return 0, &net.DNSError{Err: "unknown port", Name: network + "/" + service, IsNotFound: true}
}

func LookupHost(host string) ([]string, error) {
	return DefaultResolver.LookupHost(context.Background(), host)
}

func LookupIP(host string) ([]IP, error) {
	return DefaultResolver.LookupIP(context.Background(), "ip", host)
}

func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	case "":
		network = "tcp"
	default:
		return nil, net.UnknownNetworkError(network)
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	p, err := LookupPort(network, port)
	if err != nil {
		return nil, err
	}
	if host == "" {
		return &TCPAddr{Port: p}, nil
	}
	l, err := DefaultResolver.LookupIPAddr(context.Background(), host)
	if err != nil {
		return nil, err
	}
	if len(l) == 1 && l[0].IP.Equal(net.IPv6unspecified) { // net does so, too
		l = append(l, net.IPAddr{IP: net.IPv4zero})
	}
	var first *TCPAddr
	for _, a := range l {
		is4 := a.IP.To4() != nil
		if network == "tcp4" && !is4 || network == "tcp6" && is4 {
			continue
		}
		t := &TCPAddr{IP: a.IP, Port: p, Zone: a.Zone}
		if is4 {
			return t, nil
		}
		if first == nil {
			first = t
		}
	}
	if first == nil {
		return nil, &net.AddrError{Err: "no suitable address found", Addr: host}
	}
	return first, nil
}

// ---------------------------------------------------------------- generic entry points

// Dialer is net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
	Resolver        *Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

// timeoutCtx is a context that ends at a simulated instant.
type timeoutCtx struct {
	context.Context
	done chan struct{}
	over bool
}

func (c *timeoutCtx) Done() <-chan struct{} { return c.done }
func (c *timeoutCtx) Err() error {
	if c.over {
		return context.DeadlineExceeded
	}
	return c.Context.Err()
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	s := vsim.Active()
	to := d.Timeout
	if !d.Deadline.IsZero() {
		x := d.Deadline.Sub(s.NowMono())
		if x <= 0 {
			x = 1
		}
		if to == 0 || x < to {
			to = x
		}
	}
	if to > 0 {
		tc := &timeoutCtx{Context: ctx, done: make(chan struct{})}
		stop := s.After(to, func() { tc.over = true; vsim.CloseNow(tc.done) })
		defer stop.Stop()
		ctx = tc
	}
	switch network {
	case "tcp", "tcp4", "tcp6":
		host, port, err := net.SplitHostPort(address)
		if err != nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: err}
		}
		p, err := LookupPort(network, port)
		if err != nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: err}
		}
		if host == "" {
			host = "127.0.0.1"
			if network == "tcp6" {
				host = "::1"
			}
		}
		l, err := DefaultResolver.LookupIPAddr(ctx, host)
		if err != nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: err}
		}
		var last error = &net.OpError{Op: "dial", Net: network, Err: &net.AddrError{Err: "no suitable address found", Addr: host}}
		for _, a := range l {
			if !okNet(network, a.IP) {
				continue
			}
			c, err := dialTCP(ctx, network, nil, &TCPAddr{IP: a.IP, Port: p, Zone: a.Zone})
			if err == nil {
				return c, nil
			}
			last = err
		}
		return nil, last
	case "unix", "unixgram", "unixpacket":
		c, err := DialUnix(network, nil, &UnixAddr{Name: address, Net: network})
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	return nil, &net.OpError{Op: "dial", Net: network, Err: net.UnknownNetworkError(network)}
}

func Dial(network, address string) (net.Conn, error) { return (&Dialer{}).Dial(network, address) }
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: d}).Dial(network, address)
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	switch network {
	case "unix", "unixpacket":
		l, err := ListenUnix(network, &UnixAddr{Name: address, Net: network})
		if err != nil {
			return nil, err
		}
		return l, nil
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	if network != "unixgram" {
		return nil, fmt.Errorf("snet: ListenPacket %s is not simulated", network)
	}
	return ListenUnixgram(network, &UnixAddr{Name: address, Net: network})
}

func Listen(network, address string) (net.Listener, error) {
	return (&ListenConfig{}).Listen(context.Background(), network, address)
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	return (&ListenConfig{}).ListenPacket(context.Background(), network, address)
}

func (l *TCPListener) SyscallConn() (syscall.RawConn, error)  { return nil, syscall.EOPNOTSUPP }
func (l *UnixListener) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EOPNOTSUPP }
