package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"strings"
	"syscall"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"

	simnet "verif.local/sim/snet"
	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

// ---------------------------------------------------------------- stub listener

// slistener is a Listener the harness controls.
type slistener struct {
	r       *rrun
	pending []*sreader
	closed  bool
	closes  int
	q       vsim.WaitQ
	accErr  int // per 1000
	budget  int
	failing bool // every Accept fails
	nerr    int
	errs    []error // injected
	fails   int
}

var acceptErrnos = []syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.ECONNABORTED, syscall.ENOMEM, syscall.ENOBUFS, syscall.EPERM, syscall.EAGAIN, syscall.EINTR, syscall.EPROTO, syscall.EINVAL}

func (r *rrun) inject(what string) error {
	r.nerr++
	txt := fmt.Sprintf("injected %s failure #%d", what, r.nerr)
	var err error
	switch r.h.F.N(6) {
	case 0:
		err = errors.New(txt)
	case 4:
		err = knownErrs[r.h.F.N(len(knownErrs))]
		r.h.S.Ev("injected", r.nerr, what, err.Error())
	case 5:
		err = &stdnet.OpError{Op: what, Net: txt, Err: &simos.SyscallError{Syscall: what, Err: acceptErrnos[r.h.F.N(len(acceptErrnos))]}}
	case 1:
		err = &stdnet.OpError{Op: what, Net: "sim", Err: errors.New(txt)}
	case 2:
		err = &stdnet.OpError{Op: what, Net: "sim", Err: &simos.SyscallError{Syscall: txt, Err: syscall.EMFILE}}
	case 3:
		err = &tempError{txt}
	}
	r.injected = append(r.injected, err)
	return err
}

type tempError struct{ s string }

func (e *tempError) Error() string   { return e.s }
func (e *tempError) Timeout() bool   { return true }
func (e *tempError) Temporary() bool { return true }

func (l *slistener) Accept() (syslog.DataReader, error) {
	vsim.Y()
	for {
		switch {
		case l.closed:
			return nil, &stdnet.OpError{Op: "accept", Net: "sim", Err: stdnet.ErrClosed}
		case l.failing || l.budget > 0 && l.r.h.F.P(l.accErr, 1000):
			if !l.failing {
				l.budget--
			}
			err := l.r.inject("accept")
			l.fails++
			l.r.h.S.Count("fault.accept_error")
			l.r.h.S.Ev("accept failed", err.Error())
			if l.failing {
				l.r.h.S.Sleep(50 * time.Microsecond)
			}
			return nil, err
		case len(l.pending) > 0:
			c := l.pending[0]
			l.pending = l.pending[1:]
			c.accepted = true
			l.r.h.S.Ev("accepted", c.id)
			return c, nil
		}
		l.q.Wait("accept")
	}
}

func (l *slistener) Close() error {
	vsim.Y()
	l.closes++
	l.r.h.S.Ev("listener closed")
	if l.closed {
		return errors.New("already closed")
	}
	l.closed = true
	l.q.WakeAll()
	return nil
}

// sreader is a connection the harness controls.
type sreader struct {
	r        *rrun
	id       int
	buf      []byte
	fin      bool
	finErr   error
	withLast bool // the end is reported together with the last bytes
	mode     int
	accepted bool
	closed   bool
	told     bool // the end has been reported
	q        vsim.WaitQ
}

type sAddr string

func (a sAddr) Network() string { return "sim" }
func (a sAddr) String() string  { return string(a) }

func (c *sreader) RemoteAddr() stdnet.Addr { return sAddr(fmt.Sprint("peer", c.id)) }

func (c *sreader) Read(p []byte) (int, error) {
	vsim.Y()
	s := c.r.h.S
	for {
		switch {
		case c.closed:
			return 0, &stdnet.OpError{Op: "read", Net: "sim", Err: stdnet.ErrClosed}
		case c.told:
			if c.r.life && c.finErr != io.EOF {
				c.r.h.Fail("failed connection read again", "connection %d was read again after its read had failed with %v", c.id, c.finErr)
			}
			s.Sleep(100 * time.Microsecond)
			return 0, c.finErr
		case len(p) == 0:
			return 0, nil
		case len(c.buf) > 0:
			n := c.r.cut(c.mode, len(c.buf))
			if n > len(p) {
				n = len(p)
			}
			copy(p, c.buf[:n])
			c.buf = c.buf[n:]
			if len(c.buf) == 0 && c.fin && c.withLast {
				c.told = true
				s.Ev("read with end", c.id, n)
				return n, c.finErr
			}
			s.Ev("read", c.id, n)
			return n, nil
		case c.fin:
			c.told = true
			s.Ev("read end", c.id, c.finErr.Error())
			return 0, c.finErr
		}
		c.q.Wait("read")
	}
}

// cut chooses the size of a read.
func (r *rrun) cut(mode, n int) int {
	f := r.h.F
	k := n
	if r.cuts++; r.cuts > 1500 { // enough of small reads
		mode = 0
	}
	switch mode {
	case 1:
		k = 1
	case 2:
		k = f.Range(1, 16)
	case 3:
		k = 1 + f.N(n)
	case 4:
		k = f.Range(1, 3000)
	case 5:
		k = 65536 - f.N(3)
	}
	if k > n {
		k = n
	}
	return k
}

func (c *sreader) Close() error {
	vsim.Y()
	c.r.h.S.Ev("connection closed", c.id)
	if c.closed {
		return errors.New("already closed")
	}
	c.closed = true
	c.q.WakeAll()
	return nil
}

// ---------------------------------------------------------------- receiver under load

type rmsg struct {
	msg      syslog.MessageImmutable
	err      error
	inv, ret int64
	who      int
	at       time.Duration
}

type rrun struct {
	h         *H
	k         kind
	net       string // stub, tcp, unix, unixgram
	stub      *slistener
	lst       syslog.Listener
	rcv       *syslog.Receiver
	errc      <-chan error
	peers     []*peer
	got       []*rmsg
	ended     int // consumers that saw the end
	errs      []error
	poll      time.Duration // the application looks for errors from time to time
	injected  []error
	nerr      int
	life      bool
	n         int
	consumers []*vsim.Task
	world     *simnet.World
	onGot     func(*rmsg)
	longs     []int
	cuts      int
	limit     int // consumers stop after so many
	inst      int // of several receivers
	ip        string
	tasks     []*vsim.Task
}

func (r *rrun) path() string {
	if r.inst == 0 {
		return "/run/log.sock"
	}
	return fmt.Sprintf("/run/log%d.sock", r.inst)
}

// peer sends to the receiver.
type peer struct {
	r    *rrun
	id   int
	st   *sreader
	c    io.WriteCloser
	sock *simnet.Sock
	msgs []*Msg
	gone bool
	mode int
}

func newRRun(h *H, network string) *rrun {
	r := &rrun{h: h, net: network, k: pickKind(h)}
	if network == "unixgram" && h.G.P(1, 2) {
		r.k = kNUL
	}
	r.world = simnet.Net()
	r.world.DgramQ = []int{1, 3, 10, 10}[h.G.N(4)]
	r.world.UnixBuf = []int{1 << 16, 3000, 200}[h.G.N(3)]
	r.world.Window = []int{1 << 16, 1 << 16, 1500}[h.G.N(3)]
	if lat := []int{0, 20, 300}[h.G.N(3)]; lat > 0 {
		r.world.Lat = func() time.Duration { return time.Duration(h.F.N(lat)) * time.Microsecond }
	}
	if m := h.G.N(6); network == "tcp" && m != 0 {
		r.world.Seg = func(n int) int { return r.cut(m, n) }
	}
	return r
}

var recvNets = []string{"stub", "tcp", "unix", "unixgram"}

// start creates listener and receiver; qlen is the length of the queue.
func (r *rrun) start() {
	h := r.h
	var err error
	switch r.net {
	case "stub":
		r.stub = &slistener{r: r}
		r.lst = r.stub
	case "tcp":
		r.ip = "127.0.0.1"
		network, host := "tcp", r.ip
		switch h.G.N(4) {
		case 0:
			network, host = []string{"tcp", "tcp4"}[h.G.N(2)], []string{"", r.ip}[h.G.N(2)]
		case 1:
			r.ip = "::1"
			network, host = []string{"tcp", "tcp6"}[h.G.N(2)], []string{"", r.ip}[h.G.N(2)]
		}
		address := stdnet.JoinHostPort(host, fmt.Sprint(1514+r.inst))
		if h.G.P(1, 2) {
			r.lst, err = syslog.GuessListener(network, address)
		} else {
			r.lst, err = syslog.TCPListener(network, address)
		}
	case "unix":
		r.lst, err = syslog.UnixListener(r.path())
	case "unixgram":
		r.lst, err = syslog.UnixgramListener(r.path())
	}
	if err != nil {
		h.Fail("listener not created", "%s listener: %v", r.net, err)
	}
	q := []int{-1, 0, 1, 3, 50}[h.G.N(5)]
	r.rcv, r.errc = syslog.NewReceiver(r.lst, q, r.k.transport())
	h.Say("net=%s transport=%v queue=%d", r.net, r.k, q)
}

// connect makes a peer.
func (r *rrun) connect() *peer {
	p := &peer{r: r, id: len(r.peers)}
	r.peers = append(r.peers, p)
	switch r.net {
	case "stub":
		p.st = &sreader{r: r, id: p.id, mode: r.h.F.N(6), withLast: r.h.F.P(1, 3)}
		r.h.S.Ev("peer connects", p.id)
		r.stub.pending = append(r.stub.pending, p.st)
		r.stub.q.WakeAll()
	case "tcp":
		c, err := simnet.DialTCP("tcp", nil, &simnet.TCPAddr{IP: stdnet.ParseIP(r.ip), Port: 1514 + r.inst})
		if err != nil {
			p.gone = true
			return p
		}
		p.c, p.sock = c, c.Sock()
	case "unix", "unixgram":
		c, err := simnet.DialUnix(r.net, nil, &simnet.UnixAddr{Name: r.path(), Net: r.net})
		if err != nil {
			p.gone = true
			return p
		}
		p.c, p.sock = c, c.Sock()
	}
	return p
}

func (p *peer) send(b []byte) error {
	if p.gone {
		return io.ErrClosedPipe
	}
	if p.st != nil {
		if p.st.closed {
			return io.ErrClosedPipe
		}
		p.st.buf = append(p.st.buf, b...)
		p.r.h.S.Ev("peer sends", p.id, len(b))
		p.st.q.WakeAll()
		vsim.Y()
		return nil
	}
	_, err := p.c.Write(b)
	return err
}

// end is a regular end of the stream.
func (p *peer) end() { p.fail(io.EOF) }

// fail ends the connection with an error (of the reader).
func (p *peer) fail(err error) {
	if p.gone {
		return
	}
	p.gone = true
	p.r.h.S.Ev("peer ends", p.id, err.Error())
	if p.st != nil {
		p.st.fin, p.st.finErr = true, err
		p.st.q.WakeAll()
		vsim.Y()
		return
	}
	if err != io.EOF {
		p.sock.Abort()
	}
	p.c.Close()
}

// srvClosed tells whether the receiver's end of the connection is closed (or was
// never accepted).
func (p *peer) srvClosed() bool {
	if p.st != nil {
		return p.st.closed || !p.st.accepted
	}
	if p.sock == nil || p.r.net == "unixgram" {
		return true
	}
	return p.sock.Peer().IsClosed()
}

func (r *rrun) consume(n int, slow time.Duration) {
	for i := 0; i < n; i++ {
		r.consumers = append(r.consumers, r.h.Go(fmt.Sprintf("consumer%d", i), func() {
			for {
				m := &rmsg{who: i, inv: r.h.S.Seq()}
				var ok bool
				m.msg, m.err, ok = r.rcv.Receive()
				if !ok {
					r.ended++
					r.h.S.Ev("receive: end")
					return
				}
				m.ret = r.h.S.Seq()
				m.at = r.h.S.Elapsed()
				if m.err != nil {
					r.h.S.Ev("receive: error", m.err.Error())
				} else {
					r.h.S.Ev("receive", m.msg.String())
				}
				r.got = append(r.got, m)
				if r.limit > 0 && len(r.got) >= r.limit {
					r.h.S.Ev("the consumer stops")
					return
				}
				r.h.Work++
				if r.onGot != nil {
					r.onGot(m)
				}
				if slow > 0 && r.h.F.P(1, 2) {
					r.h.S.Sleep(time.Duration(r.h.F.N(int(slow/time.Microsecond))) * time.Microsecond)
				}
			}
		}))
	}
}

func (r *rrun) readErrors() {
	r.h.Go("error reader", func() {
		for {
			e, ok, done := error(nil), false, r.poll == 0
			if done {
				e, ok = vsim.Recv2(r.errc)
			} else if e, ok, done = vsim.TryRecv(r.errc); !done {
				r.h.S.Sleep(r.poll)
				continue
			}
			if !ok {
				return
			}
			r.errs = append(r.errs, e)
			r.h.S.Ev("error delivered", r.h.errText(e))
		}
	})
}

// ---------------------------------------------------------------- messages on the wire

var sdNames = []string{"a@1", "exampleSDID@32473", "origin", "x", "meta-1"}
var sdValues = []string{"", "v", "with space", `q\"uote`, `back\\slash`, `br\]acket`, "é日本", "=", "[", "<12>1 - - -", `\\\"`, "1234567890"}

// sd generates canonical structured data.
func (h *H) sd() string {
	if h.G.P(1, 2) {
		return "-"
	}
	var b strings.Builder
	n := h.G.Range(1, 3)
	if h.G.P(1, 150) {
		n = h.G.Range(4, 70)
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "[%s", fmt.Sprintf("%s%d", sdNames[h.G.N(len(sdNames))], i))
		for j, m := 0, h.G.N(4); j < m; j++ {
			fmt.Fprintf(&b, ` k%d="%s"`, j, sdValues[h.G.N(len(sdValues))])
		}
		b.WriteString("]")
	}
	return b.String()
}

var tokens = []string{"-", "a", "host.example.org", "prog/sub", "1234", "[x]", "<1>", "\"q\"", "name=v", "{}"}

// token is a header field of at most max bytes.
func (h *H) token(max int) string {
	if h.G.P(1, 8) { // long ones
		n := []int{max, max - 1, max/2 + 1, h.G.Range(max/4, max)}[h.G.N(4)]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + (i*7+n)%94)
		}
		return string(b)
	}
	return tokens[h.G.N(len(tokens))]
}

// wire generates a message as a foreign sender may write it.
func (r *rrun) wire() *Msg {
	g := r.h.G
	r.n++
	m := &Msg{ID: fmt.Sprintf("m%d!", r.n), Prio: g.N(192)}
	t := time.Date(2020+g.N(10), time.Month(1+g.N(12)), 1+g.N(28), g.N(24), g.N(60), g.N(60), 0, time.UTC).Add(tsPool[g.N(len(tsPool))])
	if g.P(1, 3) {
		t = t.In(time.FixedZone("", (g.N(27)-12)*3600+g.N(2)*1800))
	}
	m.TS = t.Format(tsFormat)
	m.Host, m.App, m.Pid, m.MsgID = r.h.token(255), r.h.token(48), r.h.token(128), r.h.token(32)
	m.SD = r.h.sd()
	m.Text = r.h.text(m.ID, r.k)
	if g.P(1, 10) { // nothing but the header
		m.Text, m.Host = "", m.ID
		if g.P(1, 2) {
			m.TS, m.App, m.Pid, m.MsgID, m.SD = "-", "-", "-", "-", "-"
		}
	}
	if len(r.longs) > 0 && g.P(1, 3) {
		m.Text = m.ID + strings.Repeat("0123456789abcdef", r.longs[g.N(len(r.longs))]/16+1) + "."
	}
	if m.Text != "" && g.P(1, 12) {
		m.Text += []string{" \t", "\r", " ", "\x7f", "\u00a0"}[g.N(5)]
	}
	if m.Text != "" && g.P(1, 12) {
		m.Text = " \t"[:1+g.N(2)] + m.Text
	}
	return m
}

// fit sets the text so that the frame has n bytes in all.
func (m *Msg) fit(k kind, n int) {
	for i := 0; i < 4; i++ {
		d := n - len(k.frame(m.line(m.TS)))
		if d == 0 {
			return
		}
		if d < 0 {
			if len(m.Text)+d < len(m.ID)+6 {
				return
			}
			m.Text = m.Text[:len(m.Text)+d]
			if i := strings.IndexFunc(m.Text, func(c rune) bool { return c == 0xfffd }); i >= 0 {
				m.Text = strings.ToValidUTF8(m.Text, "?")
			}
			continue
		}
		m.Text += strings.Repeat("x", d)
	}
}

// sameFields compares what the accessors of a received message say.
func sameFields(m *Msg, g syslog.MessageImmutable) string {
	ts, _ := time.Parse(tsFormat, m.TS)
	if m.TS == "-" {
		ts = time.Time{}
	}
	sd := g.StructuredData().String()
	switch {
	case g.Priority() != syslog.Priority(m.Prio):
		return fmt.Sprintf("priority %d instead of %d", g.Priority(), m.Prio)
	case m.TS != "" && !g.TimeStamp().Equal(ts):
		return fmt.Sprintf("time %v instead of %v", g.TimeStamp(), ts)
	case g.Hostname() != m.Host:
		return fmt.Sprintf("host %q instead of %q", g.Hostname(), m.Host)
	case g.AppName() != m.App:
		return fmt.Sprintf("application %q instead of %q", g.AppName(), m.App)
	case g.ProcID() != m.Pid:
		return fmt.Sprintf("process id %q instead of %q", g.ProcID(), m.Pid)
	case g.MsgID() != m.MsgID:
		return fmt.Sprintf("message id %q instead of %q", g.MsgID(), m.MsgID)
	case sd != m.SD:
		return fmt.Sprintf("structured data %s instead of %s", clip([]byte(sd)), clip([]byte(m.SD)))
	case g.Text() != m.Text:
		return fmt.Sprintf("text %s instead of %s", clip([]byte(g.Text())), clip([]byte(m.Text)))
	}
	return ""
}

// checkMsg: the received message is m, byte for byte.
func (r *rrun) checkMsg(m *Msg, g syslog.MessageImmutable, when string) {
	if want := string(m.line(m.TS)); g.String() != want {
		r.h.Fail("message altered", "%s: message %s received as %s, sent was %s", when, m.ID, clip([]byte(g.String())), clip([]byte(want)))
	}
	if d := sameFields(m, g); d != "" {
		r.h.Fail("message altered", "%s: message %s: %s", when, m.ID, d)
	}
}

// copies is how often the message is sent.
func (m *Msg) copies() int {
	if m.times == 0 {
		return 1
	}
	return m.times
}

// again makes the peer send the message several times in a row, now and then.
func (r *rrun) again(m *Msg) {
	if r.h.G.P(1, 20) {
		r.h.S.Count("probe.same_again")
		m.times = r.h.G.Range(2, 4)
	}
}

// wireFrames are the frames of the message, one per copy.
func (r *rrun) wireFrames(m *Msg) []byte {
	return bytes.Repeat(r.k.frame(m.line(m.TS)), m.copies())
}

// owner finds the message a received one is.
func (r *rrun) owner(g syslog.MessageImmutable) (*peer, *Msg) {
	id := findID([]byte(g.String()))
	for _, p := range r.peers {
		for _, m := range p.msgs {
			if m.ID == id {
				return p, m
			}
		}
	}
	return nil, nil
}

// checkGot: what was received is what the peers sent: each message unaltered,
// once, in the order of its peer.  It returns the messages received.
func (r *rrun) checkGot(when string, errsOK bool) map[*Msg]*rmsg {
	seen := map[*Msg]*rmsg{}
	all := map[*Msg][]*rmsg{}
	byID := map[string]*Msg{}
	for _, p := range r.peers {
		for _, m := range p.msgs {
			byID[m.ID] = m
		}
	}
	for _, g := range r.got {
		if g.err != nil {
			if !errsOK {
				r.h.Fail("spurious error", "%s: Receive gave the error %q although every message sent is well-formed", when, g.err)
			}
			continue
		}
		m := byID[findID([]byte(g.msg.String()))]
		if m == nil {
			r.h.Fail("message never sent", "%s: received %s, which no peer sent", when, clip([]byte(g.msg.String())))
		}
		r.checkMsg(m, g.msg, when)
		if seen[m] != nil || len(all[m]) >= m.copies() {
			r.h.Fail("delivered twice", "%s: message %s, sent %d times, was received %d times", when, m.ID, m.copies(), len(all[m])+1)
		}
		if all[m] = append(all[m], g); len(all[m]) == m.copies() {
			seen[m] = g
		}
	}
	for _, p := range r.peers {
		var last *rmsg // received message of this peer with the latest invocation
		var lm *Msg
		for _, m := range p.msgs {
			for _, g := range all[m] {
				if lm != m && last != nil && (g.who == last.who && g.ret < last.ret || g.ret < last.inv) {
					r.h.Fail("reordered", "%s: peer %d sent %s before %s, but the latter was received first", when, p.id, lm.ID, m.ID)
				}
			}
			for _, g := range all[m] {
				if last == nil || g.inv > last.inv {
					last, lm = g, m
				}
			}
		}
	}
	return seen
}

// missing is the first of the messages not among those received.
func missing(seen map[*Msg]*rmsg, ms []*Msg) *Msg {
	for _, m := range ms {
		if seen[m] == nil && !m.Maybe {
			return m
		}
	}
	return nil
}

func (r *rrun) count() int {
	n := 0
	for _, g := range r.got {
		if g.err == nil {
			n++
		}
	}
	return n
}
