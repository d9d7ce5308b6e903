package harness

import (
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"strings"
	"syscall"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"

	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

// ---------------------------------------------------------------- destination stub

// dest is a destination the harness controls: a Connector and the connections
// it makes.
type dest struct {
	h          *H
	k          kind
	conns      []*sconn
	down       bool
	refuse     int // per 1000 connects
	fail       int // per 1000 writes
	nobuf      int // per 1000 writes
	budget     int // faults left
	clat       int // latency of a connect, at most so many microseconds
	wlat       int
	dgram      bool // writes take all or nothing
	open       int
	nerr       int
	errs       map[error]int // injected errors and when
	errl       []error       // the same, in order
	seen       map[error]bool
	nobufs     int
	nobufUntil time.Duration
	whole      bool // a failing write takes no byte
	life       bool // the life cycle of connections is judged
	writing    int  // writes in progress
}

type sconn struct {
	d      *dest
	id     int
	data   []byte
	writes [][]byte
	closed bool
	failed bool
	midway bool            // a slow write is between its two steps
	at     []time.Duration // time of each write
	upto   []int           // bytes taken by then
}

func newDest(h *H, k kind) *dest {
	return &dest{h: h, k: k, errs: map[error]int{}, seen: map[error]bool{}}
}

func (d *dest) lat(max int, min int) {
	if max > 0 {
		if n := min + d.h.F.N(max); n > 0 {
			d.h.S.Sleep(time.Duration(n) * time.Microsecond)
		}
	} else if min > 0 {
		d.h.S.Sleep(time.Duration(min) * time.Microsecond)
	}
}

var knownErrs = []error{io.ErrShortWrite, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, stdnet.ErrClosed, simos.ErrDeadlineExceeded, syscall.EPIPE, syscall.ENOBUFS, syscall.EAGAIN, simos.ErrClosed, &tempError{"injected timeout"}}
var knownErrnos = []syscall.Errno{syscall.EAGAIN, syscall.EINTR, syscall.EMSGSIZE, syscall.ENOSPC, syscall.ENOMEM, syscall.EIO, syscall.ETIMEDOUT, syscall.ECONNREFUSED, syscall.ENOTCONN, syscall.EBADF}

func (d *dest) inject(what string) error {
	d.nerr++
	var err error
	txt := fmt.Sprintf("injected %s failure #%d", what, d.nerr)
	switch d.h.F.N(6) {
	case 0:
		err = errors.New(txt)
	case 4: // one that a program may know
		err = knownErrs[d.h.F.N(len(knownErrs))]
		d.h.S.Ev("injected", d.nerr, what, err.Error())
	case 5:
		err = &stdnet.OpError{Op: what, Net: txt, Err: &simos.SyscallError{Syscall: what, Err: syscall.Errno(knownErrnos[d.h.F.N(len(knownErrnos))])}}
	case 1:
		err = &stdnet.OpError{Op: what, Net: "sim", Err: errors.New(txt)}
	case 2:
		err = &stdnet.OpError{Op: what, Net: "sim", Err: &simos.SyscallError{Syscall: txt, Err: syscall.EPIPE}}
	case 3:
		err = &stdnet.OpError{Op: what, Net: "sim", Err: &simos.SyscallError{Syscall: txt, Err: syscall.ECONNRESET}}
	}
	d.errs[err] = d.nerr
	d.errl = append(d.errl, err)
	return err
}

// Connect implements Connector.
func (d *dest) Connect() (syslog.WriteCloser, error) {
	vsim.Y()
	s := d.h.S
	if d.down || d.budget > 0 && d.h.F.P(d.refuse, 1000) {
		if !d.down {
			d.budget--
		}
		d.lat(d.clat, 150) // a refusal takes time
		err := d.inject("connect")
		s.Count("fault.connect_refused")
		s.Ev("connect refused", err.Error())
		if d.h.F.P(1, 4) { // as a function that returns a *Conn does
			return &sconn{d: d, id: -1}, err
		}
		return nil, err
	}
	d.lat(d.clat, 0)
	c := &sconn{d: d, id: len(d.conns)}
	d.conns = append(d.conns, c)
	d.open++
	s.Ev("connected", c.id)
	if d.open > 1 && d.life {
		var l []string
		for _, o := range d.conns {
			if !o.closed {
				l = append(l, fmt.Sprint(o.id))
			}
		}
		d.h.Fail("two connections open", "connections %s are open at the same time", strings.Join(l, ", "))
	}
	vsim.Y()
	return c, nil
}

func (c *sconn) Write(p []byte) (int, error) {
	vsim.Y()
	d, s := c.d, c.d.h.S
	if c.id < 0 {
		d.h.Fail("unusable connection used", "%d bytes written to what Connect returned together with an error", len(p))
	}
	if c.closed || c.failed {
		if d.life && c.closed {
			d.h.Fail("write after close", "connection %d: %d bytes written after it was closed", c.id, len(p))
		}
		if d.life {
			d.h.Fail("write after failure", "connection %d: %d bytes written after a write on it failed", c.id, len(p))
		}
		d.lat(d.wlat, 100)
		return 0, io.ErrClosedPipe
	}
	d.writing++
	defer func() { d.writing-- }()
	if d.nobufUntil > s.Elapsed() || d.budget > 0 && d.h.F.P(d.nobuf, 1000) {
		if d.nobufUntil <= s.Elapsed() {
			d.budget--
		}
		d.lat(d.wlat, 120)
		k := 0
		if !d.dgram && len(p) > 0 && d.h.F.P(1, 3) {
			k = d.h.F.N(len(p))
		}
		c.take(p[:k])
		d.nobufs++
		s.Count("fault.enobufs")
		s.Ev("write ENOBUFS", c.id, k, len(p))
		return k, &stdnet.OpError{Op: "write", Net: "sim", Err: &simos.SyscallError{Syscall: "write", Err: syscall.ENOBUFS}}
	}
	if d.budget > 0 && d.h.F.P(d.fail, 1000) {
		d.budget--
		k := 0
		if !d.dgram && !d.whole && len(p) > 0 {
			switch d.h.F.N(5) {
			case 0:
			case 1:
				k = 1
			case 2:
				k = len(p) - 1
			case 3:
				k = len(p)
			case 4:
				k = d.h.F.N(len(p) + 1)
			}
		}
		d.lat(d.wlat, 0)
		c.take(p[:k])
		c.failed = true
		err := d.inject("write")
		s.Count("fault.write_error")
		if k > 0 && k < len(p) {
			s.Count("fault.torn_write")
		}
		s.Ev("write failed", c.id, k, len(p), err.Error())
		return k, err
	}
	n := len(p)
	if !d.dgram && d.wlat > 0 && n > 1 && d.h.F.P(1, 4) { // a slow write: bytes leave in two steps
		k := d.h.F.N(n)
		c.midway = true
		c.take(p[:k])
		d.lat(d.wlat, 1)
		c.take(p[k:])
		c.midway = false
	} else {
		d.lat(d.wlat, 0)
		c.take(p)
	}
	c.writes = append(c.writes, append([]byte(nil), p...))
	s.Ev("write", c.id, p)
	return n, nil
}

func (c *sconn) take(p []byte) {
	c.data = append(c.data, p...)
	c.at = append(c.at, c.d.h.S.Elapsed())
	c.upto = append(c.upto, len(c.data))
}

func (c *sconn) Close() error {
	vsim.Y()
	s := c.d.h.S
	s.Ev("close", c.id)
	if c.id < 0 {
		return errors.New("not a connection")
	}
	if c.closed {
		return errors.New("already closed")
	}
	c.closed = true
	c.d.open--
	return nil
}

// ---------------------------------------------------------------- workload

// srun is one sender under load.
type srun struct {
	h      *H
	k      kind
	d      *dest
	snd    *syslog.Sender
	errc   <-chan error
	sl     *syslog.Syslog
	msgs   []*Msg
	tick   chan time.Time
	tasks  []*vsim.Task
	ending bool
	endInv int64
	errs   []error

	poll   time.Duration // the application looks for errors from time to time
	closed bool          // the error reader saw the channel closed
	n      int
	app    string
	host   string
	fac    int
	minSev int
	sizes  int // 0 normal, 1 with large messages
	atEnd  func()
	shared interface{ Print(...any) } // a Logger used by several goroutines
}

func newSRun(h *H, k kind, d *dest) *srun {
	r := &srun{h: h, k: k, d: d, host: simos.HostnameValue, app: "app"}
	r.atEnd = func() { r.checkWritten("when End has returned", true) }
	return r
}

// start makes the Sender.
func (r *srun) start(c syslog.Connector) {
	g := r.h.G
	r.tick = make(chan time.Time, g.N(2))
	r.snd, r.errc = syslog.NewSender(c, r.k.transport(), r.tick)
	r.mkSyslog()
}

func (r *srun) mkSyslog() {
	g := r.h.G
	r.fac = g.N(24)
	r.minSev = 7
	sl, err := syslog.New(r.snd, syslog.Priority(r.fac<<3|7), r.app)
	if err != nil {
		r.h.Fail("New failed", "New: %v", err)
	}
	r.sl = sl
}

// ticker sends ticks as a real ticker would, without ever blocking.
func (r *srun) ticker(every time.Duration) {
	s := r.h.S
	var f func()
	f = func() {
		if r.closed {
			return
		}
		vsim.TrySend((chan<- time.Time)(r.tick), s.Now())
		s.After(every, f)
	}
	s.After(every, f)
}

// readErrors reads the error channel as an attentive application does.
func (r *srun) readErrors() *vsim.Task {
	return r.h.Go("error reader", func() {
		for {
			e, ok, done := error(nil), false, r.poll == 0
			if done {
				e, ok = vsim.Recv2(r.errc)
			} else if e, ok, done = vsim.TryRecv(r.errc); !done {
				r.h.S.Sleep(r.poll)
				continue
			}
			if !ok {
				r.closed = true
				return
			}
			r.errs = append(r.errs, e)
			r.h.S.Ev("error delivered", r.h.errText(e))
		}
	})
}

var tsPool = []time.Duration{0, 1, 999, 1000, 1001, 500000, 999999000, 123456789}

// newMsg generates a message and how it will be logged.
func (r *srun) newMsg() *Msg {
	m := r.plainMsg()
	g := r.h.G
	if !g.P(1, 25) {
		return m
	}
	// no text: what tells the message is elsewhere
	r.h.S.Count("probe.no_text")
	blank := []string{"", " ", "\t \n", "\r\n"}[g.N(4)]
	switch m.How {
	case "send":
		m.Text, m.blank, m.MsgID = "", blank, m.ID
	case "log", "write":
		m.Text, m.blank = "", blank
		if m.How == "log" && g.P(1, 2) {
			s := hsd(`[id x="` + m.ID + `"]`)
			if m.SD == "-" {
				m.SD = ""
			}
			m.SD, m.sds = m.SD+string(s), append(m.sds, s)
			return m
		}
		m.MsgID = m.ID
	}
	return m
}

// plainMsg generates one that has a text.
func (r *srun) plainMsg() *Msg {
	g := r.h.G
	r.n++
	m := &Msg{ID: fmt.Sprintf("m%d!", r.n), SD: "-", MsgID: "-", Host: r.host, App: r.app, Pid: "4242"}
	m.Text = r.h.text(m.ID, r.k)
	if r.sizes == 1 && g.P(1, 10) {
		m.Text = m.ID + strings.Repeat("0123456789abcdef", g.Range(10, 5000)) + "."
	}
	switch g.Weighted(4, 3, 2, 2) {
	case 0:
		m.How = "send"
		m.Prio = g.N(192)
		t := time.Date(2020, 5, 17, 10, 20, 30, 0, time.UTC).Add(tsPool[g.N(len(tsPool))])
		if g.P(1, 3) {
			t = t.In(zoneOf(g))
		}
		m.TS = t.Format(tsFormat)
		m.Host, m.App, m.Pid, m.MsgID = "host", "prog", "77", "id"+fmt.Sprint(g.N(3))
		if g.P(1, 8) {
			m.Host, m.App, m.Pid, m.MsgID = r.h.token(255), r.h.token(48), r.h.token(128), r.h.token(32)
		}
		m.T0 = t
	case 1:
		m.How = "log"
	case 2:
		m.How = "write"
	case 3:
		m.How = "logger"
	}
	if m.TS == "" {
		sev := g.N(8)
		m.Prio = r.fac<<3 | sev
		if sev == 7 && m.How == "logger" {
			m.Loose = true
		}
	}
	if (m.How == "send" || m.How == "log") && g.P(1, 5) {
		r.h.sds(m)
	}
	return m
}

// emit logs the message; it returns when the library has accepted it.
func (r *srun) emit(m *Msg) {
	s := r.h.S
	if r.ending {
		m.Maybe = true
	}
	r.msgs = append(r.msgs, m)
	s.Ev("log", m.ID, m.How)
	m.Inv = s.Seq()
	switch m.How {
	case "send":
		t, _ := time.Parse(tsFormat, m.TS)
		msg := syslog.CreateWholeMessage(syslog.Priority(m.Prio), t, m.Host, m.App, m.Pid, m.MsgID, m.Text+m.blank)
		if len(m.sds) > 0 {
			msg = msg.StructuredData(m.sds...)
		}
		if r.h.F.P(1, 20) { // one that cannot be encoded is not accepted, and nothing else is changed by it
			if r.snd.Send(msg.Msg("rejected").StructuredData(sdBad{})) == nil {
				r.h.Fail("failure hidden", "Send accepts a message whose structured data cannot be encoded")
			}
			r.h.S.Count("probe.rejected")
		}
		if err := r.snd.Send(msg); err != nil {
			r.h.Fail("send rejected", "Send(%s): %v", m.ID, err)
		}
	case "log":
		r.channel(m).Log(m.Text+m.blank, m.sds...)
	case "write":
		buf := []byte(m.Text + m.blank)
		n, err := r.channel(m).Write(buf)
		if err != nil || n != len(buf) {
			r.h.Fail("write rejected", "Write(%s) = %d, %v", m.ID, n, err)
		}
		for i := range buf { // the buffer is the caller's again
			buf[i] = '~'
		}
	case "logger":
		r.sl.Channel(syslog.Priority(m.Prio)).Logger("").Print(m.Text)
	case "shared":
		r.shared.Print(m.Text)
	}
	m.Ret = s.Seq()
	m.reuse()
	if r.ending {
		m.Maybe = true
	}
	s.Ev("accepted", m.ID)
	r.h.Work++
}

// channel to log m on.
func (r *srun) channel(m *Msg) syslog.Channel {
	c := r.sl.Channel(syslog.Priority(m.Prio))
	if m.MsgID == m.ID {
		c = c.Msgid(m.MsgID)
	}
	return c
}

// load starts tasks that log; they end by themselves.
func (r *srun) load(tasks, ops int, gap time.Duration) {
	// one logger shared by all tasks, now and then
	for i := 0; i < tasks; i++ {
		n := r.h.G.N(ops + 1)
		var ms []*Msg
		var ps []time.Duration
		for j := 0; j < n; j++ {
			ms = append(ms, r.newMsg())
			p := time.Duration(0)
			if r.h.G.P(1, 2) {
				p = time.Duration(r.h.G.N(int(gap/time.Microsecond)+1)) * time.Microsecond
			}
			ps = append(ps, p)
			if len(ms[len(ms)-1].sds) == 0 && r.h.G.P(1, 15) { // the same message again and again
				for c := r.h.G.Range(1, 3); c > 0; c-- {
					t := *ms[len(ms)-1]
					ms, ps = append(ms, &t), append(ps, p*time.Duration(r.h.G.N(2)))
				}
				r.h.S.Count("probe.equal_messages")
			}
		}
		r.tasks = append(r.tasks, r.h.Go(fmt.Sprintf("logger%d", i), func() {
			for j, m := range ms {
				if ps[j] > 0 {
					r.h.S.Sleep(ps[j])
				}
				r.emit(m)
			}
		}))
	}
}

func (r *srun) burstSize() int {
	if r.h.G.P(1, 12) {
		r.h.S.Count("probe.big_burst")
		return r.h.G.Range(2500, 12000)
	}
	return r.h.G.Range(200, 2500)
}

// burst starts a task that logs very much in a row.
func (r *srun) burst(n int) {
	sizes := r.sizes
	r.sizes = 0
	var ms []*Msg
	for j := 0; j < n; j++ {
		m := r.plainMsg()
		m.SD, m.sds, m.after = "-", nil, nil
		ms = append(ms, m)
	}
	r.sizes = sizes
	r.tasks = append(r.tasks, r.h.Go("burst", func() {
		for _, m := range ms {
			r.emit(m)
		}
	}))
}

// end calls End and waits for it to return.
func (r *srun) end(limit time.Duration) {
	s := r.h.S
	t := r.h.Go("ender", func() {
		r.ending = true
		for _, m := range r.msgs {
			if m.Ret == 0 {
				m.Maybe = true
			}
		}
		r.endInv = s.Seq()
		s.Ev("End called")
		r.snd.End()
		s.Ev("End returned")
		r.atEnd()
	})
	r.h.Join(limit, "End does not return", t)
}

// ---------------------------------------------------------------- oracles

type placed struct {
	m    *Msg
	conn int
	pos  int
}

// frames interprets what the connections got; it fails on anything that is not
// whole frames of logged messages, except a cut at the end of a failed one.
func (r *srun) frames(when string) []placed {
	h := r.h
	var out []placed
	byID := map[string][]*Msg{} // equal messages share an ID: in the order of logging
	for _, m := range r.msgs {
		byID[m.ID] = append(byID[m.ID], m)
	}
	seen := map[*Msg]placed{}
	for _, c := range r.d.conns {
		fr, rest := r.k.split(c.data)
		for i, f := range fr {
			var m *Msg
			if id := findID(f); id != "" {
				for _, m = range byID[id] {
					if _, used := seen[m]; !used {
						break
					}
				}
			}
			if m == nil || !m.matches(f) {
				want := ""
				if m != nil {
					want = fmt.Sprintf(", expected %s", clip(m.line("<time>")))
					if m.TS != "" {
						want = fmt.Sprintf(", expected %s", clip(m.line(m.TS)))
					}
				}
				h.Fail("garbled frame", "%s: connection %d, frame %d is not a logged message: %s%s", when, c.id, i, clip(f), want)
			}
			if p, dup := seen[m]; dup {
				h.Fail("duplicate message", "%s: message %s written twice: connection %d frame %d and connection %d frame %d", when, m.ID, p.conn, p.pos, c.id, i)
			}
			p := placed{m, c.id, i}
			seen[m] = p
			out = append(out, p)
		}
		if len(rest) > 0 {
			if !c.failed && !c.midway {
				h.Fail("torn frame", "%s: connection %d ends with an incomplete frame although no write on it failed: %s", when, c.id, clip(rest))
			}
			ok := false
			for _, m := range r.msgs {
				if m.cutOf(r.k, rest) {
					ok = true
					break
				}
			}
			if !ok {
				h.Fail("garbled frame", "%s: connection %d ends with bytes that begin no logged message: %s", when, c.id, clip(rest))
			}
			h.S.Count("probe.connection_ended_in_mid_frame")
		}
	}
	return out
}

// findID extracts the identifier mN! from a frame.
func findID(f []byte) string {
	s := string(f)
	for i := 0; i < len(s); i++ {
		if s[i] == 'm' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j < len(s) && s[j] == '!' {
				return s[i : j+1]
			}
		}
	}
	return ""
}

// checkOrder: a message accepted before another one's logging call began is
// written before it.
func (r *srun) checkOrder(ps []placed, when string) {
	var max *placed
	for i := range ps {
		p := &ps[i]
		if max != nil && p.m.Ret > 0 && p.m.Ret < max.m.Inv {
			r.h.Fail("reordered", "%s: message %s was accepted before the logging of %s began, but is written after it (connection %d frame %d; connection %d frame %d)",
				when, p.m.ID, max.m.ID, p.conn, p.pos, max.conn, max.pos)
		}
		if max == nil || p.m.Inv > max.m.Inv {
			max = p
		}
	}
}

// checkWritten: everything accepted is written exactly once, in order.
func (r *srun) checkWritten(when string, all bool) []placed {
	ps := r.frames(when)
	r.checkOrder(ps, when)
	if all {
		seen := map[*Msg]bool{}
		for _, p := range ps {
			seen[p.m] = true
		}
		for _, m := range r.msgs {
			if !m.Maybe && m.Ret > 0 && !seen[m] {
				r.h.Fail("lost message", "%s: message %s, accepted before, is not written", when, m.ID)
			}
		}
	}
	return ps
}

func (r *srun) describe() {
	r.h.Say("transport=%v tasks=%d refuse=%d fail=%d enobufs=%d budget=%d connlat<=%dus writelat<=%dus", r.k, len(r.tasks), r.d.refuse, r.d.fail, r.d.nobuf, r.d.budget, r.d.clat, r.d.wlat)
}

func pickKind(h *H) kind { return kind(h.G.N(3)) }

var micros = []int{0, 0, 30, 400, 5000}

func (r *srun) latencies() {
	r.d.clat = micros[r.h.G.N(len(micros))]
	r.d.wlat = micros[r.h.G.N(len(micros))]
}

// loadShape draws a workload shape.
func (r *srun) loadShape() {
	g := r.h.G
	tasks := g.Range(1, 5)
	ops := []int{3, 6, 12, 30}[g.N(4)]
	if g.P(1, 200) { // more than any queue was made for
		r.h.S.Count("probe.burst")
		r.burst(r.burstSize())
	}
	gap := []time.Duration{0, time.Millisecond, 10 * time.Millisecond}[g.N(3)]
	r.load(tasks, ops, gap)
}

// tickShape draws how the flush ticks come.
func (r *srun) tickShape() {
	switch g := r.h.G; g.N(5) {
	case 0: // never
		r.h.Say("no ticks")
	case 1:
		r.ticker(100 * time.Microsecond)
	case 2:
		r.ticker(time.Millisecond)
	case 3:
		r.ticker(7 * time.Millisecond)
	case 4:
		r.ticker(time.Duration(g.Range(50, 3000)) * time.Microsecond)
	}
}

// runAndEnd is the common course: load, then End at some instant.
func (r *srun) runAndEnd(limit time.Duration) {
	h := r.h
	r.describe()
	switch h.G.Weighted(3, 1, 1) {
	case 0:
		h.Join(5*time.Minute, "logging blocked", r.tasks...)
		h.Pause(3 * time.Millisecond)
	case 1: // End while others still log
		h.Pause(8 * time.Millisecond)
	case 2:
		h.Join(5*time.Minute, "logging blocked", r.tasks...)
	}
	r.end(limit)
	h.Join(5*time.Minute, "logging blocked", r.tasks...)
}

var senderReal = []string{"syslog5424: Sender, channels, messages, transports (instrumented, unmodified logic)", "net.Buffers"}
var senderStub = []string{"Connector and connections (harness)", "flush ticker (simulated clock)", "goroutine scheduler, channels, sync, time, log.Logger locking (simulator)"}

var senderNetReal = append([]string{"syslog5424: Dialer and connectors (tcp, unix, unixgram, local) in a sixth of the runs"}, senderReal...)
var senderNetStub = append([]string{"sockets, resolver, file system in a sixth of the runs (simulated)"}, senderStub...)

const netRule = "; a sixth of the runs: a sender made with Dial (tcp to a name with 1-3 addresses, unix, unixgram, local), whose sockets are reset, refuse, block, are partitioned or whose server goes and comes, everything written to the sockets recorded; distinct by event history"

func init() {
	register(&Scenario{ID: "C01", Quick: 300000, Deep: 12000000, Real: senderReal, Stub: senderStub,
		Rule: "one run = one seed: 1-5 logging goroutines (Send, Channel.Log, Channel.Write, Logger), a healthy connection with random latency, random flush ticks, End at a random instant; non-trivial: at least one message and one task switch, distinct by hash of the event history",
		Run:  runC01})
	register(&Scenario{ID: "C02", Quick: 300000, Deep: 12000000, Real: senderNetReal, Stub: senderNetStub,
		Rule: "as C01, with failing and torn writes at random byte offsets, refused reconnects; non-trivial: at least one fault fired" + netRule,
		Run:  runC02})
	register(&Scenario{ID: "C03", Calm: true, Quick: 100000, Deep: 4000000, Real: senderReal, Stub: senderStub,
		Rule: "1-4 outages of random length, beginning with or without a broken connection, under load; distinct by event history",
		Run:  runC03})
	register(&Scenario{ID: "C04", Quick: 400000, Deep: 16000000, Real: senderNetReal, Stub: senderNetStub,
		Rule: "End called in every state: at once, without a flush, with a backlog, during an outage, during a write" + netRule,
		Run:  runC04})
	register(&Scenario{ID: "C06", Quick: 400000, Deep: 16000000, Real: senderNetReal, Stub: senderNetStub,
		Rule: "as C02, checking the life cycle of every connection" + netRule,
		Run:  runC06})
}

func runC01(h *H) {
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	r.sizes = h.G.N(2)
	r.latencies()
	r.start(r.d)
	r.tickShape()
	if h.G.P(3, 4) {
		r.readErrors()
	}
	if h.G.P(1, 3) { // a single Logger used by several goroutines
		sev := h.G.N(7)
		r.shared = r.sl.Channel(syslog.Priority(sev)).Logger("")
		for i := 0; i < 2; i++ {
			n := h.G.Range(1, 5)
			var ms []*Msg
			for j := 0; j < n; j++ {
				m := r.plainMsg()
				m.How, m.Prio, m.TS, m.Loose = "shared", r.fac<<3|sev, "", false
				m.SD, m.sds, m.after = "-", nil, nil
				m.Host, m.App, m.Pid, m.MsgID = r.host, r.app, "4242", "-"
				ms = append(ms, m)
			}
			r.tasks = append(r.tasks, h.Go(fmt.Sprintf("shared logger %d", i), func() {
				for _, m := range ms {
					r.emit(m)
				}
			}))
		}
	}
	r.loadShape()
	r.runAndEnd(5 * time.Minute)
}

// faults draws a fault plan.
func (r *srun) faults(refuse, fail, nobuf bool) {
	g, d := r.h.G, r.d
	rate := []int{0, 30, 150, 500, 1000}
	d.budget = []int{1, 1, 2, 4, 9, 25}[g.N(6)]
	if g.P(1, 100) {
		d.budget = g.Range(25, 1200)
	}
	if refuse {
		d.refuse = rate[g.N(5)]
	}
	if fail {
		d.fail = rate[1+g.N(4)]
	}
	if nobuf {
		d.nobuf = rate[1+g.N(4)]
	}
	d.whole = g.P(1, 6)
}

func runC02(h *H) {
	if h.G.P(1, 6) {
		runNetLife(h, "C02")
		return
	}
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	r.sizes = h.G.N(2)
	r.latencies()
	r.faults(h.G.P(1, 2), true, h.G.P(1, 4))
	r.start(r.d)
	r.tickShape()
	if h.G.P(3, 4) {
		r.readErrors()
	}
	r.loadShape()
	r.runAndEnd(5 * time.Minute)
}

func runC06(h *H) {
	if h.G.P(1, 6) {
		runNetLife(h, "C06")
		return
	}
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	r.d.life = true
	r.latencies()
	if h.G.P(5, 6) {
		r.faults(h.G.P(2, 3), h.G.P(4, 5), h.G.P(1, 4))
	}
	r.start(r.d)
	r.tickShape()
	if h.G.P(3, 4) {
		r.readErrors()
	}
	// every connection it ever opened is closed when End returns
	r.atEnd = func() {
		for _, c := range r.d.conns {
			if !c.closed {
				h.Fail("connection leaked", "End has returned but connection %d (of %d) was never closed", c.id, len(r.d.conns))
			}
		}
	}
	r.loadShape()
	r.runAndEnd(5 * time.Minute)
	h.Settle(time.Second)
	for _, c := range r.d.conns {
		if !c.closed {
			h.Fail("connection leaked", "connection %d (of %d), opened after End, was never closed", c.id, len(r.d.conns))
		}
	}
}

func runC03(h *H) {
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	r.latencies()
	d := r.d
	r.start(d)
	r.readErrors()
	every := time.Duration(h.G.Range(200, 4000)) * time.Microsecond
	if h.G.P(1, 20) { // outages of hours, days, months
		every *= []time.Duration{1000, 100000, 10000000}[h.G.N(3)]
		h.S.Count("probe.outage_of_hours")
	}
	r.ticker(every)
	n := h.G.Range(1, 4)
	big := h.G.P(1, 60)
	if big { // a big backlog is written at once, or the run takes too long
		d.clat, d.wlat = 0, 0
	}
	if h.G.P(1, 6) { // one failure at most per tick: there is time to handle each
		d.clat, d.wlat = 0, 0
		r.poll = every * time.Duration(h.G.Range(1, 3)) / 4
		h.S.Count("probe.errors_polled")
	}
	h.Say("outages=%d tick=%v", n, every)
	lat := time.Duration(d.clat+d.wlat*40+200) * time.Microsecond
	for i := 0; i < n; i++ {
		r.load(h.G.Range(1, 3), 4, 5*time.Millisecond)
		h.Pause(6 * time.Millisecond)
		// the outage begins
		d.down = true
		h.S.Ev("outage begins", i)
		first := d.nerr
		if h.G.P(2, 3) { // ... and breaks the connection
			d.budget, d.fail = 1, 1000
		}
		seen := len(r.errs)
		if h.G.P(2, 3) {
			r.load(h.G.Range(1, 3), 4, 5*time.Millisecond)
		}
		if big && h.G.P(1, 2) {
			h.S.Count("probe.burst")
			r.burst(r.burstSize())
		}
		if h.G.P(1, 60) {
			h.S.Count("probe.long_outage")
			h.S.Sleep(time.Duration(h.G.N(3000)) * every)
		}
		switch h.G.N(4) {
		case 0:
		case 1:
			h.S.Sleep(time.Duration(h.G.N(20)) * every)
		case 2:
			h.S.Sleep(time.Duration(h.G.N(200)) * every)
		case 3:
			h.Pause(20 * time.Millisecond)
		}
		if h.G.P(1, 2) {
			h.Join(time.Minute, "logging blocked by an outage", r.tasks...)
		}
		// the destination is back
		d.fail = 0
		d.down = false
		h.S.Ev("outage ends", i)
		injected := d.nerr
		// everything accepted by now is written at the first flush that follows
		var acc []*Msg
		for _, m := range r.msgs {
			if m.Ret > 0 {
				acc = append(acc, m)
			}
		}
		// one flush may be in progress and fail still; the next one must do
		within := 2*every + lat*time.Duration(len(r.msgs)+2)
		if d.clat == 0 && d.wlat == 0 { // writing takes no time
			within = every + 200*time.Microsecond
			h.S.Count("probe.first_flush")
		}
		h.S.Sleep(within)
		ps := r.checkWritten("after an outage", false)
		got := map[*Msg]bool{}
		for _, p := range ps {
			got[p.m] = true
		}
		for _, m := range acc {
			if !got[m] {
				h.Fail("not written after an outage", "the destination accepts again since %v (flush every %v) but message %s is not written", within, every, m.ID)
			}
		}
		if injected > first {
			h.S.Count("probe.outage_hit_the_sender")
			if e, n, k := untold(d.errl, r.errs); e != nil {
				h.Fail("failure not reported", "outage %d: of %d failures %q only %d were delivered on the error channel although the application reads it all the time", i, n, e, k)
			}
			if len(r.errs) == seen {
				h.Fail("outage not reported", "outage %d made %d attempts fail, the application read the error channel all the time, but got none of the errors", i, injected-first)
			}
		}
	}
	h.Join(time.Minute, "logging blocked", r.tasks...)
	r.end(time.Minute)
}

func runC04(h *H) {
	if h.G.P(1, 6) {
		runNetLife(h, "C04")
		return
	}
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	d := r.d
	r.latencies()
	mode := h.G.N(6)
	if mode >= 3 {
		r.faults(true, true, h.G.P(1, 3))
	}
	d.down = h.G.P(1, 4)
	r.start(d)
	reading := h.G.P(1, 2)
	if reading {
		r.readErrors()
	}
	switch {
	case mode == 0: // at once
	case mode == 1: // never a tick
		r.loadShape()
	default:
		r.tickShape()
		if mode != 2 {
			r.loadShape()
		}
	}
	h.Say("mode=%d down=%v reading=%v", mode, d.down, reading)
	r.describe()
	if h.G.P(1, 2) {
		h.Join(time.Minute, "logging blocked", r.tasks...)
	}
	h.Pause(5 * time.Millisecond)
	if d.down { // the destination comes back some time
		wait := time.Duration(h.G.N(30000)) * time.Microsecond
		h.S.After(wait, func() { d.down = false })
	} else if h.G.P(1, 4) { // or goes away for a while
		a := time.Duration(h.G.N(5000)) * time.Microsecond
		h.S.After(a, func() { d.down = true })
		h.S.After(a+time.Duration(1+h.G.N(9000))*time.Microsecond, func() { d.down = false })
	}
	r.atEnd = func() {
		r.checkWritten("when End has returned", true)
		if n := len(d.conns); n > 0 && !d.conns[n-1].closed {
			h.Fail("connection open after End", "End has returned but the connection is still open")
		}
		for !r.closed && !reading { // what it still holds, and then its end
			if _, ok, done := vsim.TryRecv(r.errc); !done {
				h.Fail("error channel not closed", "End has returned but the error channel is not closed")
			} else if !ok {
				r.closed = true
			}
		}
	}
	r.end(time.Minute)
	// the error channel is closed, after what it still holds
	if !reading && !r.closed {
		t := h.Go("late error reader", func() {
			for {
				if _, ok := vsim.Recv2(r.errc); !ok {
					return
				}
			}
		})
		h.Join(time.Minute, "error channel not closed", t)
	} else if !h.Wait(time.Minute, func() bool { return r.closed }) {
		h.Fail("error channel not closed", "End has returned but the error channel is not closed")
	}
	h.Join(5*time.Minute, "logging blocked", r.tasks...)
	h.Settle(time.Second)
	if l := h.S.LibTasksAlive(nil); len(l) > 0 {
		h.Fail("goroutine leaked", "End has returned but a goroutine of the sender remains: %s", l[0].Desc())
	}
}
