package harness

import (
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"

	simnet "verif.local/sim/snet"
	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

var recvReal = []string{"syslog5424: Receiver, tokenizer, Parse, MessageImmutable, sdata decoding, listeners (instrumented, unmodified logic)"}
var recvStub = []string{"stub Listener/DataReader with arbitrary segmentation, or simulated tcp/unix/unixgram sockets", "peers and consumers (harness)", "goroutine scheduler, channels, sync, time (simulator)"}

func init() {
	register(&Scenario{ID: "C09", Quick: 130000, Deep: 5200000, Real: recvReal, Stub: recvStub, Need: "probe.messages_received",
		Rule: "one run = one seed: a peer's stream of generated messages (some longer than the read buffer, some ending exactly at its edges) cut into random reads, pauses at frame boundaries, end of stream with or after the last bytes; non-trivial: messages received; distinct by event history",
		Run:  runC09})
	register(&Scenario{ID: "C10", Quick: 220000, Deep: 8800000, Real: recvReal, Stub: recvStub, Need: "probe.simultaneous_peers",
		Rule: "2-5 simultaneous peers (stub, tcp, unix, unixgram), stalled peers, 1-3 consumers, slow or not; non-trivial: at least two peers sent; distinct by event history",
		Run:  runC10})
	register(&Scenario{ID: "C11", Quick: 400000, Deep: 16000000, Real: recvReal, Stub: recvStub, Need: "fault.",
		Rule: "failing accepts, read errors at random places of the stream, connections cut within a message or reset, failing system calls of tcp, unix and unixgram listeners; non-trivial: a fault fired; distinct by event history",
		Run:  runC11})
	register(&Scenario{ID: "C12", Quick: 150000, Deep: 6000000, Real: recvReal, Stub: recvStub, Need: "fault.hostile",
		Rule: "a hostile peer sends well-formed, mutated, truncated and random frames and headers, cut into random reads, while others are served; non-trivial: hostile bytes were sent; distinct by event history",
		Run:  runC12})
	register(&Scenario{ID: "C13", Quick: 600000, Deep: 24000000, Real: recvReal, Stub: recvStub,
		Rule: "End at a random instant: no peer, peers reading, queue full, consumer absent or slow; distinct by event history",
		Run:  runC13})
	register(&Scenario{ID: "C14", Quick: 90000, Deep: 3600000, Real: recvReal, Stub: recvStub, Need: "probe.messages_kept",
		Rule: "every received message is kept and compared again and again while the receiver reads on and the application derives from and uses other messages; distinct by event history",
		Run:  runC14})
}

// lengths around the edges of the read buffer
var edges = []int{65536, 65535, 65537, 65036, 65037, 64, 500, 131072, 70000, 200000, 66036}

func runC09(h *H) {
	r := newRRun(h, recvNets[h.G.Weighted(12, 4, 2, 3)])
	r.start()
	r.consume(1, []time.Duration{0, 0, 2 * time.Millisecond}[h.G.N(3)])
	long := h.G.P(1, 8)
	huge := h.G.P(1, 300)
	pauses := h.G.P(1, 30)
	dgram := r.net == "unixgram"
	for c, nc := 0, h.G.Range(1, 2); c < nc; c++ {
		p := r.connect()
		if p.gone {
			h.Fail("peer refused", "a peer could not connect")
		}
		if long && p.st != nil {
			p.st.mode = []int{0, 3, 4, 5}[h.F.N(4)]
		}
		if huge && p.st != nil {
			p.st.mode = []int{0, 5}[h.F.N(2)]
		}
		n := h.G.Range(1, []int{4, 20, 60}[h.G.N(3)])
		if huge {
			n = h.G.Range(1, 4)
		}
		sent := 0 // bytes of this stream
		var pend []byte
		for i := 0; i < n; i++ {
			m := r.wire()
			if !long && !huge {
				r.again(m)
			}
			if long && h.G.P(1, 4) {
				want := edges[h.G.N(len(edges))]
				if h.G.P(1, 2) && sent%65536 != 0 { // end exactly at an edge of the stream
					want = 65536 - (sent+len(pend))%65536 + h.G.N(3) - 1
				}
				if dgram && want > 190000 { // more than a datagram takes
					want = h.G.Range(60000, 210000)
				}
				if want > len(m.ID)+120 {
					if dgram && len(pend) > 0 {
						p.send(pend)
						sent += len(pend)
						pend = nil
					}
					m.fit(r.k, want)
				}
			}
			if huge && p.st != nil && h.G.P(1, 2) {
				h.S.Count("probe.huge_message")
				m.fit(r.k, h.G.Range(200000, []int{600000, 2500000, 9000000}[h.G.N(3)]))
			}
			p.msgs = append(p.msgs, m)
			b := r.wireFrames(m)
			if i == n-1 && r.k == kNUL && h.G.P(1, 3) {
				b = b[:len(b)-1] // the end of the stream is its terminator
				pend = append(pend, b...)
				break
			}
			pend = append(pend, b...)
			cut := h.G.N(4)
			if dgram && len(pend) > 40000 {
				cut = 0
			}
			switch cut {
			case 0: // a frame at a time
				p.send(pend)
				sent += len(pend)
				pend = nil
				if h.G.P(1, 3) {
					if !h.Wait(20*time.Second, func() bool { return r.allGot(p) }) {
						r.checkGot("while the peer pauses", false)
						h.Fail("complete message not delivered", "peer paused at the end of a frame, but of %d messages only %d were received within 20 s", r.n, r.count())
					}
				}
			case 1: // in pieces
				for len(pend) > 0 && h.G.P(3, 4) {
					k := 1 + h.G.N(len(pend))
					if dgram {
						k = len(pend)
					}
					p.send(pend[:k])
					sent += k
					pend = pend[k:]
					switch {
					case pauses && h.G.P(1, 3): // minutes, hours, days
						h.S.Count("fault.long_pause")
						h.S.Sleep(time.Duration(h.G.Range(1, 4000)) * []time.Duration{time.Second, time.Minute}[h.G.N(2)])
					case h.G.P(1, 4):
						h.Pause(500 * time.Microsecond)
					}
				}
			}
		}
		if len(pend) > 0 {
			p.send(pend)
		}
		if h.G.P(1, 2) {
			h.Pause(time.Millisecond)
		}
		p.end()
	}
	h.Wait(60*time.Second, func() bool {
		for _, p := range r.peers {
			if !r.allGot(p) {
				return false
			}
		}
		return true
	})
	h.Settle(time.Second)
	seen := r.checkGot("after the end of the stream", false)
	for _, p := range r.peers {
		if m := missing(seen, p.msgs); m != nil {
			h.Fail("message lost", "message %s (frame of %d bytes) of peer %d was never received", m.ID, len(r.k.frame(m.line(m.TS))), p.id)
		}
	}
	if len(seen) > 0 {
		h.S.Stats["probe.messages_received"] += len(seen)
	}
}

// allGot: everything the peer sent was received (cheap, for polling).
func (r *rrun) allGot(p *peer) bool {
	return r.allGotFrom(func(q *peer) bool { return q == p })
}

// allGotFrom: the same of each of the peers selected (nil: all).
func (r *rrun) allGotFrom(which func(*peer) bool) bool {
	n := 0
	for _, p := range r.peers {
		if which != nil && !which(p) {
			continue
		}
		for _, m := range p.msgs {
			if !m.Maybe {
				n += m.copies()
			}
		}
	}
	if r.count() < n {
		return false
	}
	ids := map[string]bool{}
	for _, g := range r.got {
		if g.err == nil {
			ids[findID([]byte(g.msg.String()))] = true
		}
	}
	for _, p := range r.peers {
		if which != nil && !which(p) {
			continue
		}
		for _, m := range p.msgs {
			if !m.Maybe && !ids[m.ID] {
				return false
			}
		}
	}
	return true
}

func runC10(h *H) {
	r := newRRun(h, recvNets[h.G.Weighted(3, 2, 2, 3)])
	r.start()
	var slow time.Duration
	if h.G.P(1, 3) {
		slow = time.Duration(h.G.Range(1, 5)) * time.Millisecond
	}
	r.consume(h.G.Range(1, 3), slow)
	np := h.G.Range(2, 5)
	many := h.G.P(1, 120)
	crowd := false
	if many { // more than a few
		np = h.G.Range(6, 60)
		if h.G.P(1, 10) {
			np = h.G.Range(60, 160)
			if crowd = h.G.P(1, 3); crowd { // nearly all of them stall
				np = h.G.Range(100, 400)
			}
		}
		h.S.Count("probe.many_peers")
	}
	h.S.Count("probe.simultaneous_peers")
	var tasks []*vsim.Task
	release := false
	var long time.Duration // stalled for minutes, hours, days
	if h.G.P(1, 40) {
		long = time.Duration(h.G.Range(1, 4000)) * []time.Duration{time.Second, time.Minute}[h.G.N(2)]
	}
	stalled := 0
	for i := 0; i < np; i++ {
		stall := h.G.P(1, 4) && i > 0 && r.net != "unixgram"
		if crowd {
			stall = i < np-2 && r.net != "unixgram"
		}
		n := h.G.Range(1, 8)
		if many {
			n = h.G.Range(1, 2)
		}
		wait := time.Duration(h.G.N(3000)) * time.Microsecond * time.Duration(h.G.N(2))
		type step struct {
			b []byte
			d time.Duration
			m *Msg
		}
		var steps []step
		var frames []byte
		var ms []*Msg
		for j := 0; j < n; j++ {
			m := r.wire()
			if r.net == "unixgram" && len(frames) == 0 && h.G.P(1, 100) {
				m.fit(r.k, h.G.Range(60000, 210000))
			}
			ms = append(ms, m)
			if r.net != "unixgram" || len(m.Text) < 5000 {
				r.again(m)
			}
			b := r.wireFrames(m)
			if r.net == "unixgram" && r.k != kRFC && h.G.P(1, 6) {
				m.times = 0
				b = r.k.frame(m.line(m.TS))
				b = b[:len(b)-1] // a datagram without its terminator
				m.Maybe = true
				h.S.Count("fault.unterminated_datagram")
			}
			frames = append(frames, b...)
			if m.Maybe || len(frames) > 25000 || h.G.P(2, 3) {
				steps = append(steps, step{frames, time.Duration(h.G.N(800)) * time.Microsecond * time.Duration(h.G.N(2)), m})
				frames = nil
			}
		}
		if len(frames) > 0 {
			steps = append(steps, step{frames, 0, nil})
		}
		cutAt := -1
		if stall {
			stalled++
			cutAt = h.G.N(len(steps))
			h.S.Count("fault.stalled_peer")
		}
		tasks = append(tasks, h.Go(fmt.Sprintf("peer%d", i), func() {
			h.S.Sleep(wait)
			p := r.connect()
			for k := 0; p.gone && np > 60 && k < 200; k++ { // the queue of the listening socket may be full
				h.S.Sleep(10 * time.Millisecond)
				p = r.connect()
			}
			if p.gone {
				h.Fail("peer refused", "a peer could not connect")
			}
			p.msgs = ms
			for j, st := range steps {
				b := st.b
				if st.d > 0 {
					h.S.Sleep(st.d)
				}
				if j == cutAt { // in the midst of a message
					k := len(b) / 2
					p.send(b[:k])
					b = b[k:]
					for !release {
						if crowd {
							h.S.Sleep(250 * time.Millisecond)
						}
						if long > 0 {
							h.S.Sleep(long / 4)
						}
						h.S.Sleep(time.Millisecond)
					}
				}
				for len(b) > 0 && r.net != "unixgram" && h.F.P(1, 2) {
					k := 1 + h.F.N(len(b))
					p.send(b[:k])
					b = b[k:]
				}
				if len(b) > 0 {
					if err := p.send(b); err != nil {
						h.Fail("peer disconnected", "peer %d: the receiver dropped the connection of a well-behaved peer: %v", p.id, err)
					}
				}
			}
			p.end()
		}))
		if stall {
			tasks = tasks[:len(tasks)-1]
		}
	}
	h.Join(2*time.Minute, "a peer is held up", tasks...)
	// the others do not wait for the stalled ones
	ok := h.Wait(2*time.Minute, func() bool {
		return r.allGotFrom(func(p *peer) bool { return p.gone })
	})
	if !ok {
		seen := r.checkGot("with stalled peers", r.net == "unixgram")
		for _, p := range r.peers {
			if m := missing(seen, p.msgs); p.gone && m != nil {
				h.Fail("message not delivered", "message %s of peer %d was not received within 2 minutes (%d other peers stalled)", m.ID, p.id, stalled)
			}
		}
	}
	if stalled > 0 && long > 0 {
		h.S.Count("fault.long_pause")
		h.S.Sleep(long)
	}
	release = true
	if stalled > 0 {
		h.Wait(2*time.Minute+long, func() bool {
			for _, p := range r.peers {
				if !p.gone {
					return false
				}
			}
			return r.allGotFrom(nil)
		})
	}
	h.Settle(2 * time.Second)
	maybe := false
	for _, p := range r.peers {
		for _, m := range p.msgs {
			maybe = maybe || m.Maybe
		}
	}
	seen := r.checkGot("at the end", maybe)
	for _, p := range r.peers {
		if m := missing(seen, p.msgs); m != nil {
			h.Fail("message not delivered", "message %s of peer %d was never received", m.ID, p.id)
		}
	}
}

func runC11(h *H) {
	if h.G.P(1, 3) {
		runC11net(h)
		return
	}
	r := newRRun(h, "stub")
	r.life = true
	r.start()
	attentive := h.G.P(3, 4)
	if attentive {
		if h.G.P(1, 3) {
			r.poll = time.Duration(h.G.Range(20, 200)) * time.Millisecond
		}
		r.readErrors()
	}
	l := r.stub
	if h.G.P(1, 2) {
		l.accErr = []int{100, 500, 1000}[h.G.N(3)]
		l.budget = h.G.Range(1, 4)
		if h.G.P(1, 100) {
			l.budget = h.G.Range(4, 300)
		}
	}
	r.consume(h.G.Range(1, 2), []time.Duration{0, 0, time.Millisecond}[h.G.N(3)])
	np := h.G.Range(1, 4)
	crowd := h.G.P(1, 400)
	if crowd { // one failure after the other
		np = h.G.Range(20, []int{150, 150, 400}[h.G.N(3)])
		h.S.Count("probe.crowd")
	}
	var failErrs []error
	var tasks []*vsim.Task
	if h.G.P(1, 4) { // accepting fails for a while
		l.failing = true
		dur := time.Duration(h.G.N(400)) * time.Millisecond
		if h.G.P(1, 100) {
			dur *= 100
		}
		h.S.After(dur, func() { l.failing = false; l.q.WakeAll() })
		h.S.Ev("accepting fails")
		l.q.WakeAll()
	}
	type plan struct {
		cut      bool
		err      error
		complete []*Msg
		p        *peer
	}
	var plans []*plan
	for i := 0; i < np; i++ {
		n := h.G.Range(1, 6)
		if crowd {
			n = h.G.Range(1, 2)
		}
		pl := &plan{}
		plans = append(plans, pl)
		var stream []byte
		var ms []*Msg
		for j := 0; j < n; j++ {
			m := r.wire()
			ms = append(ms, m)
			stream = append(stream, r.k.frame(m.line(m.TS))...)
		}
		end := len(stream)
		regular := h.G.P(1, 3)
		if h.G.P(2, 3) {
			end = h.G.N(len(stream) + 1)
			if r.k == kNUL && regular && h.G.P(1, 2) { // just the terminator is missing
				end = len(stream) - 1
			}
			pl.cut = true
			h.S.Count("fault.cut_connection")
		}
		// what has arrived completely
		left := end
		for _, m := range ms {
			b := len(r.k.frame(m.line(m.TS)))
			if left >= b || r.k == kNUL && regular && left == b-1 {
				pl.complete = append(pl.complete, m)
			}
			left -= b
			if left <= 0 {
				break
			}
		}
		// a part of a message is a malformed message to the NUL transport at a
		// regular end; it must not look like one of ours
		pl.err = io.EOF
		if !regular {
			switch h.G.N(5) {
			case 4: // the same words for all
				pl.err = errReset
			case 0:
				pl.err = fmt.Errorf("injected read failure of peer %d", i)
			case 1:
				pl.err = &stdnet.OpError{Op: "read", Net: "sim", Err: &simos.SyscallError{Syscall: fmt.Sprint("read", i), Err: syscall.ECONNRESET}}
			case 2:
				pl.err = io.ErrUnexpectedEOF
			case 3:
				pl.err = &tempError{fmt.Sprintf("injected timeout of peer %d", i)}
			}
			h.S.Count("fault.read_error")
			failErrs = append(failErrs, pl.err)
		}
		wait := time.Duration(h.G.N(3000)) * time.Microsecond
		if crowd {
			wait = time.Duration(i) * 100 * time.Microsecond
		}
		tasks = append(tasks, h.Go(fmt.Sprintf("peer%d", i), func() {
			h.S.Sleep(wait)
			p := r.connect()
			if i > 20 {
				p.st.mode = 0
			}
			pl.p = p
			p.msgs = ms
			b := stream[:end]
			for len(b) > 0 && h.F.P(2, 3) {
				k := 1 + h.F.N(len(b))
				p.send(b[:k])
				b = b[k:]
				if h.F.P(1, 3) {
					h.S.Sleep(time.Duration(h.F.N(500)) * time.Microsecond)
				}
			}
			p.send(b)
			p.fail(pl.err)
		}))
	}
	h.Join(time.Minute, "peers", tasks...)
	// later peers are still served
	if h.G.P(1, 2) {
		h.Pause(5 * time.Millisecond)
		m := r.wire()
		p := r.connect()
		p.msgs = []*Msg{m}
		p.send(r.k.frame(m.line(m.TS)))
		p.end()
		plans = append(plans, &plan{p: p, complete: p.msgs, err: io.EOF})
	}
	done := func() bool {
		for _, pl := range plans {
			if !pl.p.st.closed {
				return false
			}
			for _, m := range pl.complete {
				if !r.has(m) {
					return false
				}
			}
		}
		return true
	}
	ok := h.Wait(2*time.Minute, done)
	h.Settle(2 * time.Second)
	seen := map[*Msg]bool{}
	for _, g := range r.got {
		if g.err != nil {
			continue
		}
		p, m := r.owner(g.msg)
		var pl *plan
		for _, x := range plans {
			if x.p == p {
				pl = x
			}
		}
		if m == nil {
			if r.isPart(g.msg.String()) {
				continue
			}
			h.Fail("message never sent", "received %s, which no peer sent", clip([]byte(g.msg.String())))
		}
		if g.msg.String() != string(m.line(m.TS)) {
			if strings.HasPrefix(string(m.line(m.TS)), g.msg.String()) {
				if r.k == kNUL && pl.err == io.EOF {
					continue // the regular end is a terminator
				}
				h.Fail("cut message delivered", "message %s was cut off by the end of its connection (%v) but is delivered as the message %s", m.ID, pl.err, clip([]byte(g.msg.String())))
			}
			r.checkMsg(m, g.msg, "at the end")
		}
		if seen[m] {
			h.Fail("delivered twice", "message %s was received twice", m.ID)
		}
		seen[m] = true
		whole := false
		for _, c := range pl.complete {
			whole = whole || c == m
		}
		if !whole {
			h.Fail("cut message delivered", "message %s had not arrived completely but is delivered", m.ID)
		}
	}
	for _, pl := range plans {
		for _, m := range pl.complete {
			if !seen[m] {
				h.Fail("complete message not delivered", "message %s of peer %d had arrived completely before its connection ended (%v) but was not received; accepted=%v", m.ID, pl.p.id, pl.err, pl.p.st.accepted)
			}
		}
		if !pl.p.st.closed {
			h.Fail("connection not closed", "connection %d ended (%v) long ago but the receiver has not closed it; accepted=%v", pl.p.id, pl.err, pl.p.st.accepted)
		}
	}
	_ = ok
	if attentive {
		want := append(append([]error(nil), failErrs...), r.injected...)
		if len(want) <= 9 {
			if e, n, k := untold(want, r.errs); e != nil {
				h.Fail("failure not reported", "of %d failures %q only %d were delivered on the error channel, which the application reads (%d errors in all)", n, e, k, len(r.errs))
			}
		} else if len(r.errs) == 0 {
			h.Fail("failure not reported", "%d failures, but nothing was delivered on the error channel, which the application reads", len(want))
		}
	}
}

var netAcceptErrs = []syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.ENOBUFS, syscall.EPERM, syscall.EPROTO}
var netReadErrs = []syscall.Errno{syscall.ECONNRESET, syscall.EIO, syscall.ETIMEDOUT, syscall.EHOSTUNREACH, syscall.ENOMEM, syscall.ENOBUFS, syscall.EINTR}

// runC11net is C11 with the listeners of the library: the system calls fail.
func runC11net(h *H) {
	r := newRRun(h, []string{"tcp", "unix", "unixgram"}[h.G.N(3)])
	gram := r.net == "unixgram"
	r.start()
	attentive := h.G.P(4, 5)
	if attentive {
		if h.G.P(1, 3) {
			r.poll = time.Duration(h.G.Range(20, 200)) * time.Millisecond
		}
		r.readErrors()
	}
	h.S.Count("probe.real_listener_" + r.net)
	var want []error // failures, to be reported
	budget := h.G.N(5)
	accP, readP := []int{0, 200, 500, 1000}[h.G.N(4)], []int{0, 0, 30, 200}[h.G.N(4)]
	failing := false // every accept (datagram: read) fails
	if h.G.P(1, 4) {
		failing = true
		h.S.After(time.Duration(h.G.N(300))*time.Millisecond, func() { failing = false })
	}
	r.world.Fault = func(op string) error {
		var e syscall.Errno
		switch {
		case op == "accept" && (failing || budget > 0 && h.F.P(accP, 1000)):
			e = netAcceptErrs[h.F.N(len(netAcceptErrs))]
		case op == "recvfrom" && (failing || budget > 0 && h.F.P(accP, 1000)):
			e = netReadErrs[h.F.N(len(netReadErrs))]
		default:
			return nil
		}
		if !failing {
			budget--
		}
		want = append(want, e)
		return e
	}
	failed := map[*simnet.Sock]error{}
	r.world.ReadFault = func(c *simnet.Sock) error {
		if e := failed[c]; e != nil {
			h.Fail("failed connection read again", "connection %d was read again after its read had failed with %v", c.ID, e)
		}
		if budget > 0 && h.F.P(readP, 1000) {
			budget--
			e := netReadErrs[h.F.N(len(netReadErrs))]
			failed[c] = e
			want = append(want, e)
			return e
		}
		return nil
	}
	r.consume(h.G.Range(1, 2), []time.Duration{0, 0, time.Millisecond}[h.G.N(3)])
	type plan struct {
		p      *peer
		ms     []*Msg
		stream []byte // to be sent
		reset  bool
	}
	var plans []*plan
	var tasks []*vsim.Task
	np := h.G.Range(1, 4)
	for i := 0; i < np; i++ {
		pl := &plan{}
		plans = append(plans, pl)
		var steps [][]byte
		for j, n := 0, h.G.Range(1, 5); j < n; j++ {
			m := r.wire()
			pl.ms = append(pl.ms, m)
			steps = append(steps, r.k.frame(m.line(m.TS)))
		}
		pl.reset = !gram && h.G.P(1, 3)
		if !gram && h.G.P(1, 2) { // cut in the last message that is sent
			k := h.G.N(len(steps))
			steps = append(steps[:k], steps[k][:h.G.N(len(steps[k])+1)])
			h.S.Count("fault.cut_connection")
		}
		for _, b := range steps {
			pl.stream = append(pl.stream, b...)
		}
		wait := time.Duration(h.G.N(3000)) * time.Microsecond
		linger := time.Duration(h.G.N(3000)) * time.Microsecond * time.Duration(h.G.N(2))
		tasks = append(tasks, h.Go(fmt.Sprintf("peer%d", i), func() {
			h.S.Sleep(wait)
			p := r.connect()
			pl.p = p
			if p.gone {
				h.Fail("peer refused", "a peer could not connect")
			}
			p.msgs = pl.ms
			for _, b := range steps {
				for !gram && len(b) > 0 && h.F.P(1, 2) {
					k := 1 + h.F.N(len(b))
					if p.send(b[:k]) != nil {
						break
					}
					b = b[k:]
				}
				if err := p.send(b); err != nil {
					if gram {
						h.Fail("datagram refused", "peer %d: a datagram of %d bytes could not be sent: %v", i, len(b), err)
					}
					break
				}
				if h.F.P(1, 3) {
					h.S.Sleep(time.Duration(h.F.N(500)) * time.Microsecond)
				}
			}
			h.S.Sleep(linger)
			if pl.reset {
				p.fail(errReset)
			} else {
				p.end()
			}
		}))
	}
	h.Join(5*time.Minute, "peers", tasks...)
	if h.G.P(1, 2) { // later peers are still served
		h.Pause(5 * time.Millisecond)
		m := r.wire()
		p := r.connect()
		if p.gone {
			h.Fail("peer refused", "a later peer could not connect")
		}
		p.msgs = []*Msg{m}
		pl := &plan{p: p, ms: p.msgs}
		plans = append(plans, pl)
		b := r.k.frame(m.line(m.TS))
		pl.stream = b
		if p.send(b) != nil && gram {
			h.Fail("datagram refused", "a later peer could not send")
		}
		p.end()
	}
	// what has arrived completely
	complete := func(pl *plan) (out []*Msg) {
		b := pl.stream
		regular := true
		if !gram {
			c := pl.p.sock.Peer()
			if pl.reset || failed[c] != nil {
				b, regular = b[:c.Recvd], false
			}
		}
		for _, m := range pl.ms {
			n := len(r.k.frame(m.line(m.TS)))
			if len(b) >= n || r.k == kNUL && regular && len(b) == n-1 {
				out = append(out, m)
			}
			if len(b) <= n {
				break
			}
			b = b[n:]
		}
		return
	}
	done := func() bool {
		for _, pl := range plans {
			if !pl.p.srvClosed() {
				return false
			}
			for _, m := range complete(pl) {
				if !r.has(m) {
					return false
				}
			}
		}
		return true
	}
	h.Wait(2*time.Minute, done)
	h.Settle(2 * time.Second)
	seen := map[*Msg]bool{}
	for _, g := range r.got {
		if g.err != nil {
			continue
		}
		p, m := r.owner(g.msg)
		if m == nil {
			if !gram && r.isPart(g.msg.String()) {
				continue
			}
			h.Fail("message never sent", "received %s, which no peer sent", clip([]byte(g.msg.String())))
		}
		var pl *plan
		for _, x := range plans {
			if x.p == p {
				pl = x
			}
		}
		if g.msg.String() != string(m.line(m.TS)) {
			if strings.HasPrefix(string(m.line(m.TS)), g.msg.String()) && !gram {
				if r.k == kNUL && !pl.reset && failed[p.sock.Peer()] == nil {
					continue // the regular end is a terminator
				}
				h.Fail("cut message delivered", "message %s was cut off by the end of its connection but is delivered as the message %s", m.ID, clip([]byte(g.msg.String())))
			}
			r.checkMsg(m, g.msg, "at the end")
		}
		if seen[m] {
			h.Fail("delivered twice", "message %s was received twice", m.ID)
		}
		seen[m] = true
		whole := false
		for _, c := range complete(pl) {
			whole = whole || c == m
		}
		if !whole {
			h.Fail("cut message delivered", "message %s had not arrived completely but is delivered", m.ID)
		}
	}
	for _, pl := range plans {
		for _, m := range complete(pl) {
			if !seen[m] {
				h.Fail("complete message not delivered", "message %s of %s peer %d had arrived completely but was not received", m.ID, r.net, pl.p.id)
			}
		}
		if !pl.p.srvClosed() {
			h.Fail("connection not closed", "connection %d ended long ago but the receiver has not closed it; accepted=%v", pl.p.id, pl.p.sock.Peer().Accepted())
		}
	}
	for _, pl := range plans {
		if pl.reset && failed[pl.p.sock.Peer()] == nil {
			want = append(want, syscall.ECONNRESET)
		}
	}
	if attentive {
		if len(want) <= 9 {
			if e, n, k := untold(want, r.errs); e != nil {
				h.Fail("failure not reported", "%s: of %d failures %q only %d were delivered on the error channel, which the application reads (%d errors in all)", r.net, n, e, k, len(r.errs))
			}
		} else if len(r.errs) == 0 {
			h.Fail("failure not reported", "%d failures, but nothing was delivered on the error channel, which the application reads", len(want))
		}
	}
}

var errReset error = &stdnet.OpError{Op: "read", Net: "sim", Err: &simos.SyscallError{Syscall: "read", Err: syscall.ECONNRESET}}

// untold finds a failure that was told less often than it happened.
func untold(want, told []error) (err error, n, k int) {
	same := map[error]int{}
	for _, e := range want {
		same[e]++
	}
	exact := map[error]int{}
	for _, x := range told {
		if reflect.TypeOf(x).Comparable() {
			exact[x]++
		}
	}
	for _, e := range want {
		if exact[e] >= same[e] {
			continue
		}
		k := 0
		for _, x := range told {
			if hasErr([]error{x}, e) {
				k++
			}
		}
		if k < same[e] {
			return e, same[e], k
		}
	}
	return nil, 0, 0
}

func hasErr(l []error, e error) bool {
	for _, x := range l {
		if x == e || errors.Is(x, e) || strings.Contains(x.Error(), e.Error()) {
			return true
		}
	}
	return false
}

func (r *rrun) has(m *Msg) bool {
	want := ""
	for _, g := range r.got {
		if g.err == nil {
			if want == "" {
				want = string(m.line(m.TS))
			}
			if g.msg.String() == want {
				return true
			}
		}
	}
	return false
}

// isPart: s is a beginning of some message without its identifier.
func (r *rrun) isPart(s string) bool {
	if r.k != kNUL {
		return false
	}
	for _, p := range r.peers {
		for _, m := range p.msgs {
			if strings.HasPrefix(string(m.line(m.TS)), s) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- hostile input

const (
	fGood   = iota // exactly this message
	fBad           // an error
	fEither        // the message byte for byte, or an error
	fEmpty         // nothing or an error
	fStop          // an error and nothing afterwards
	fCut           // at the end of the stream: nothing or an error
)

type hframe struct {
	what int
	line []byte
	raw  []byte
}

var junk = []string{"", " ", "<", "<>", "<1>", "<34>1", "<34>1 ", "-", "[", "]", "\\", "\"", "<34>1 - - - - -", "<34>1 - - - - - ", "<34>1 - - - - - [", "<34>1 - - - - - [a", "<34>1 - - - - - [a b=\"c\"", "<34>1 - - - - - [a b=\"c]",
	"<34>1 - - - - - [a b=\"c\\", "<34>1 - - - - - []", "<34>1 - - - - - [] x", "<34>1 - - - - - [=]", "<34>1 - - - - - [a =\"\"]", "<34>1 - - - - - [a b]", "<34>1 - - - - - [a b=]", "<34>1 - - - - - [a b=\"]",
	"<34>1 - - - - - [ ]", "<34>1 - - - - - [a ]", "<34>1 - - - - - [a  b=\"c\"]", "<34>1 - - - - - [a b=\"c\" ]", "<34>1 - - - - - [a][", "<34>1 - - - - - x", "<34>1 - - - - - -x", "<34>1  - - - - - -", "<999>1 - - - - - -", "<-1>1 - - - - - -", "<a>1 - - - - - -",
	"34>1 - - - - - -", "<34 1 - - - - - -", "<34>2 - - - - - -", "<34> - - - - - -", "\xff\xfe\xfd", "<34>1 \xff \xff \xff \xff \xff [\xff \xff=\"\xff\"] \xff", "\xef\xbb\xbf", "<34>1 - - - - - [a b=\"\\]\"] t", "<34>1 2020-13-45T99:99:99Z h a p m - text", "<34>1 garbage h a p m [a b=\"c\"][d e=\"f\"] text", "<18446744073709551616>1 - - - - - -", "<00000034>1 - - - - - -", "<34>1 - - - - - - ", "<34>1 - - - - - -  "}

var defined = []string{"[origin]", "[origi]", "[originx]", "[origin ]", "[origin x]", "[o]", "[t]", "[timeQuality ]", "[timeQuality tzKnown]", "[timeQuality tzKnown=]", "[timeQuality tzKnown=\"]", "[timeQuality tzKnown=\"1]", "[timeQuality tzKnown=\"1\"", "[timeQuality  tzKnown=\"1\" ]", "[timeQuality=\"1\"]", "[timeQuality =\"1\"]", "[timeQuality tzKnown=\"1\"isSynced=\"1\"]", "[timeQuality syncAccuracy=\"\"]", "[timeQuality tzKnown=\"1\" isSynced=\"1\" syncAccuracy=\"-1\"]", "[timeQuality tzKnown=\"1\" isSynced=\"1\" syncAccuracy=\"99999999999999999999\"]"}

// badPri: what lies before the first space cannot be a priority and version.
func badPri(b []byte) bool {
	i := strings.IndexByte(string(b), ' ')
	if i < 0 {
		return true
	}
	p := string(b[:i])
	if !strings.HasPrefix(p, "<") {
		return true
	}
	j := strings.IndexByte(p, '>')
	if j < 2 || j > 12 {
		return true
	}
	n := 0
	for _, c := range p[1:j] {
		if c < '0' || c > '9' {
			return true
		}
		n = n*10 + int(c-'0')
	}
	return n > 255
}

// classify tells what must come of a frame.
func classify(b []byte) int {
	if len(b) == 0 {
		return fEmpty
	}
	if badPri(b) {
		return fBad
	}
	p := strings.SplitN(string(b), " ", 7)
	if len(p) < 7 {
		return fBad
	}
	for _, f := range p[:6] {
		if f == "" {
			return fBad
		}
	}
	rest := p[6]
	if rest == "" || rest[0] != '-' && rest[0] != '[' {
		return fBad
	}
	if rest[0] == '-' {
		if rest != "-" && rest[1] != ' ' {
			return fBad
		}
		return fEither
	}
	// an element that never ends
	q := false
	depth := false
	i := 0
	for ; i < len(rest); i++ {
		c := rest[i]
		switch {
		case q && c == '\\':
			i++
		case depth && c == '"':
			q = !q
		case !q && depth && c == ']':
			depth = false
		case !q && !depth && c == '[':
			depth = true
		case !depth && c == ' ':
			return fEither
		case !depth:
			return fEither
		}
	}
	if depth {
		return fBad
	}
	return fEither
}

// hostile generates the stream of a hostile peer and what it must yield.
func (r *rrun) hostile() (frames []*hframe) {
	g := r.h.G
	n := g.Range(1, 10)
	many := g.P(1, 400)
	if many {
		n = g.Range(50, []int{300, 300, 2500}[g.N(3)])
		r.h.S.Count("probe.many_frames")
	}
	if g.P(1, 2) {
		sdata.Register(sdata.GenericSD(genName("origin")).SDID())
	}
	for i := 0; i < n; i++ {
		if i > 0 && g.P(1, 15) { // the same again
			f := *frames[i-1]
			frames = append(frames, &f)
			continue
		}
		f := &hframe{}
		kind := g.Weighted(3, 4, 3, 1, 1, 1)
		if many && kind == 5 {
			kind = 1
		}
		switch kind {
		case 0: // a good one
			m := r.wireBad()
			f.what, f.line = fGood, m.line(m.TS)
		case 1:
			f.line = []byte(junk[g.N(len(junk))])
			if g.P(1, 4) { // elements the registered definitions look at
				e := defined[g.N(len(defined))]
				if g.P(1, 4) {
					e = tqElems[g.N(len(tqElems))].text
				}
				f.line = []byte("<34>1 - - - - - " + e + []string{"", " text", "[timeQuality] x"}[g.N(3)])
			}
			f.what = classify(f.line)
		case 2: // a mutation of a good one
			m := r.wireBad()
			b := m.line(m.TS)
			for j, k := 0, g.Range(1, 4); j < k && len(b) > 1; j++ {
				switch g.N(4) {
				case 0:
					b[g.N(len(b))] = byte(g.N(256))
				case 1:
					b = b[:g.N(len(b))]
				case 2:
					a := g.N(len(b))
					b = append(b[:a:a], b[a+1:]...)
				case 3:
					b[g.N(len(b))] = "[]\"\\ <>=-"[g.N(9)]
				}
			}
			f.line = r.clean(b)
			f.what = classify(f.line)
		case 3: // random bytes
			b := make([]byte, g.Range(1, 60))
			for j := range b {
				b[j] = byte(g.N(256))
			}
			f.line = r.clean(b)
			f.what = classify(f.line)
		case 4:
			f.what = fEmpty
		case 5: // large
			f.line = []byte("<34>1 - - - - - [a b=\"" + strings.Repeat("x ", g.Range(100, 40000)))
			f.what = classify(f.line)
		}
		if f.what == fEmpty && r.k == kRFC {
			f.line, f.what = []byte("<1"), fBad
		}
		f.raw = r.k.frame(f.line)
		frames = append(frames, f)
	}
	// how it ends
	switch g.N(3) {
	case 0:
		if r.k == kRFC { // a header that makes no sense
			hd := []string{"x ", " ", "-1 ", "99999999999999999999 ", "1x ", "abcdefghijklmnopqrstuvwxyzabcdef", "4294967296 ", "9223372036854775807 ", "\n<34>1 ", "0x10 ", "1.5 ", "+5 ", "0 ", "99999999999999999999999999999", "-9223372036854775808 x", "\x00\x00\x00 "}[g.N(16)]
			if hd != "0 " && g.P(1, 2) {
				hd += "12 <34>1 - - - - - - more text that must not be taken for a message"
			}
			frames = append(frames, &hframe{what: fStop, raw: []byte(hd)})
			if hd == "0 " {
				frames[len(frames)-1].what = fCut
			}
		}
	case 1: // cut
		m := r.wireBad()
		b := r.k.frame(m.line(m.TS))
		b = b[:1+g.N(len(b)-1)]
		f := &hframe{what: fCut, raw: b}
		if r.k == kNUL {
			f.what, f.line = classify(b), b
		}
		if r.k == kRFC && g.P(1, 3) {
			f.raw = []byte([]string{"2147483647 <34>1 - - - - - - x", "123", "500000000 ", "99999999 x"}[g.N(4)])
		}
		frames = append(frames, f)
	}
	return frames
}

// wireBad is a message that cannot be taken for one of another peer.
func (r *rrun) wireBad() *Msg {
	m := r.wire()
	m.Text = strings.Replace(m.Text, m.ID, "bad peer", 1)
	m.Host = strings.Replace(m.Host, m.ID, "bad", 1)
	m.ID = ""
	return m
}

// clean removes delimiters that would end the frame early.
func (r *rrun) clean(b []byte) []byte {
	out := append([]byte(nil), b...)
	for i := range out {
		if r.k == kLF && out[i] == '\n' || r.k == kNUL && out[i] == 0 {
			out[i] = '?'
		}
	}
	if len(out) == 0 && r.k == kRFC {
		out = []byte("?")
	}
	return out
}

// touch calls every accessor.
func touch(g syslog.MessageImmutable) {
	_ = g.Priority().String()
	_ = g.Priority().Facility()
	_ = g.Priority().Severity()
	_ = g.TimeStamp().String()
	_ = g.Hostname()
	_ = g.AppName()
	_ = g.ProcID()
	_ = g.MsgID()
	l := g.StructuredData()
	_ = l.String()
	for _, sd := range l {
		sd.Marshal5424()
		sd.SDID()
	}
	_ = g.Text()
	w := g.Writable()
	_ = w.String()
	_, _ = w.Marshal5424()
	_ = g.String()
	g.WriteTo(io.Discard)
}

func runC12(h *H) {
	r := newRRun(h, recvNets[h.G.Weighted(5, 2, 1, 2)])
	r.start()
	if h.G.P(1, 2) {
		r.readErrors()
	}
	r.onGot = func(m *rmsg) {
		if m.err == nil {
			touch(m.msg)
		} else {
			_ = m.err.Error()
		}
	}
	r.consume(1, 0)
	hs := r.hostile()
	h.S.Count("fault.hostile_peer")
	hostIDs := r.n
	var tasks []*vsim.Task
	var bad *peer
	dg := r.net == "unixgram"
	tasks = append(tasks, h.Go("hostile peer", func() {
		p := r.connect()
		bad = p
		if dg { // some frames to a datagram
			for i := 0; i < len(hs); {
				n := 1
				size := len(hs[i].raw)
				for i+n < len(hs) && size+len(hs[i+n].raw) < 120000 && h.F.P(1, 3) {
					size += len(hs[i+n].raw)
					n++
				}
				var b []byte
				for _, f := range hs[i : i+n] {
					b = append(b, f.raw...)
				}
				p.send(b)
				i += n
			}
			p.end()
			return
		}
		var b []byte
		for _, f := range hs {
			b = append(b, f.raw...)
		}
		for len(b) > 0 && h.F.P(3, 4) {
			k := 1 + h.F.N(len(b))
			if p.send(b[:k]) != nil {
				break
			}
			b = b[k:]
			if h.F.P(1, 4) {
				h.S.Sleep(time.Duration(h.F.N(300)) * time.Microsecond)
			}
		}
		p.send(b)
		p.end()
	}))
	for i, n := 0, h.G.N(3); i < n; i++ { // the others
		var ms []*Msg
		for j, k := 0, h.G.Range(1, 4); j < k; j++ {
			ms = append(ms, r.wire())
		}
		wait := time.Duration(h.G.N(1500)) * time.Microsecond
		tasks = append(tasks, h.Go(fmt.Sprintf("peer%d", i), func() {
			h.S.Sleep(wait)
			p := r.connect()
			if p.gone {
				h.Fail("peer refused", "a peer could not connect")
			}
			p.msgs = ms
			for _, m := range ms {
				if err := p.send(r.k.frame(m.line(m.TS))); err != nil {
					h.Fail("peer disconnected", "a well-behaved peer was disconnected: %v", err)
				}
				if h.F.P(1, 2) {
					h.S.Sleep(time.Duration(h.F.N(300)) * time.Microsecond)
				}
			}
			p.end()
		}))
	}
	h.Join(2*time.Minute, "peers", tasks...)
	good := func() bool {
		for _, p := range r.peers {
			if !r.allGot(p) || !p.srvClosed() {
				return false
			}
		}
		return true
	}
	h.Wait(2*time.Minute, good)
	h.Settle(2 * time.Second)
	// the well-behaved ones
	var rest []*rmsg
	seen := map[*Msg]*rmsg{}
	for _, g := range r.got {
		if g.err == nil {
			if p, m := r.owner(g.msg); m != nil && p != bad {
				r.checkMsg(m, g.msg, "next to a hostile peer")
				if seen[m] != nil {
					h.Fail("delivered twice", "message %s was received twice", m.ID)
				}
				seen[m] = g
				continue
			}
		}
		rest = append(rest, g)
	}
	for _, p := range r.peers {
		if m := missing(seen, p.msgs); m != nil {
			h.Fail("peer not served", "message %s of a well-behaved peer was not received while another one was hostile", m.ID)
		}
		if !p.srvClosed() {
			h.Fail("connection not closed", "peer %d has disconnected but its connection is not closed", p.id)
		}
	}
	_ = hostIDs
	// the frames of the hostile one, one by one
	for i, f := range hs {
		h.Say("frame %d %s %s", i, [...]string{"good", "bad", "either", "empty", "stop", "cut"}[f.what], clip(f.raw))
	}
	if dg {
		r.matchFramesDgram(hs, rest)
	} else {
		r.matchFrames(hs, rest)
	}
}

func show(g *rmsg) string {
	if g.err != nil {
		return "the error " + clip([]byte(g.err.Error()))
	}
	return "the message " + clip([]byte(g.msg.String()))
}

// matchFrames aligns what was received with the frames sent.
func (r *rrun) matchFrames(hs []*hframe, got []*rmsg) {
	h := r.h
	j := 0
	for i, f := range hs {
		var g *rmsg
		if j < len(got) {
			g = got[j]
		}
		switch f.what {
		case fGood:
			if g == nil {
				h.Fail("frame without result", "frame %d, well-formed: %s: nothing was received for it", i, clip(f.line))
			}
			if g.err != nil || g.msg.String() != string(f.line) {
				h.Fail("wrong result of a frame", "frame %d, well-formed: %s: received %s", i, clip(f.line), show(g))
			}
			j++
		case fBad:
			if g == nil {
				h.Fail("frame without result", "frame %d, malformed: %s: no error was received for it", i, clip(f.line))
			}
			if g.err == nil {
				h.Fail("wrong result of a frame", "frame %d, malformed: %s: received %s", i, clip(f.line), show(g))
			}
			j++
		case fEither:
			if g == nil {
				h.Fail("frame without result", "frame %d: %s: nothing was received for it", i, clip(f.line))
			}
			if g.err == nil && g.msg.String() != string(f.line) {
				h.Fail("wrong result of a frame", "frame %d: %s: received %s", i, clip(f.line), show(g))
			}
			j++
		case fEmpty:
			// skipped, or an error: look ahead
			if g != nil && g.err != nil && r.emptyGivesError(hs, got) {
				j++
			}
		case fStop:
			if g == nil || g.err == nil {
				w := "nothing"
				if g != nil {
					w = show(g)
				}
				h.Fail("wrong result of a header", "the header %s cannot be decoded: received %s", clip(f.raw), w)
			}
			j++
		case fCut:
			if g != nil && g.err != nil {
				j++
			}
		}
	}
	if j < len(got) {
		h.Fail("result without a frame", "received %s beyond what the frames of the stream give", show(got[j]))
	}
}

// emptyGivesError: the number of results tells whether empty frames count.
func (r *rrun) emptyGivesError(hs []*hframe, got []*rmsg) bool {
	n, e := 0, 0
	cut := false
	for _, f := range hs {
		switch f.what {
		case fEmpty:
			e++
		case fCut:
			cut = true
		default:
			n++
		}
	}
	return len(got) == n+e || cut && len(got) == n+e+1 || len(got) > n+e
}

// matchFramesDgram: datagrams cannot be told apart, so only what must and must
// not come is checked: good frames in order, at least as many errors as bad
// frames, nothing else.
func (r *rrun) matchFramesDgram(hs []*hframe, got []*rmsg) {
	h := r.h
	r.matchFrames(hs, got)
	_ = h
}

func runC13(h *H) {
	r := newRRun(h, recvNets[h.G.N(4)])
	r.start()
	if h.G.P(1, 2) {
		r.readErrors()
	}
	if r.stub != nil && h.G.P(1, 3) {
		r.stub.accErr, r.stub.budget = 300, h.G.Range(1, 5)
	}
	mode := h.G.N(4)
	if mode == 3 { // consumers that stop
		r.limit = h.G.Range(1, 6)
	}
	if mode > 0 {
		r.consume(h.G.Range(1, 2), []time.Duration{0, 3 * time.Millisecond}[h.G.N(2)])
	}
	ending := false
	np := h.G.N(4)
	crowd := h.G.P(1, 800)
	if crowd {
		np = h.G.Range(20, 300)
		h.S.Count("probe.crowd")
	}
	var tasks []*vsim.Task
	for i := 0; i < np; i++ {
		var ms []*Msg
		n := h.G.N(8)
		if crowd {
			n = h.G.N(2)
		}
		for j := 0; j < n; j++ {
			ms = append(ms, r.wire())
		}
		wait := time.Duration(h.G.N(2000)) * time.Microsecond * time.Duration(h.G.N(2))
		stay := h.G.P(1, 2)
		fails := h.G.P(1, 4)
		tasks = append(tasks, h.Go(fmt.Sprintf("peer%d", i), func() {
			h.S.Sleep(wait)
			p := r.connect()
			if p.gone {
				return
			}
			p.msgs = ms
			for _, m := range ms {
				b := r.k.frame(m.line(m.TS))
				if r.net != "unixgram" && h.F.P(1, 3) {
					k := 1 + h.F.N(len(b))
					p.send(b[:k])
					b = b[k:]
				}
				if len(b) > 0 && p.send(b) != nil {
					return
				}
				if h.F.P(1, 2) {
					h.S.Sleep(time.Duration(h.F.N(800)) * time.Microsecond)
				}
			}
			if stay {
				return
			}
			if fails {
				p.fail(errors.New("injected read failure"))
			} else {
				p.end()
			}
		}))
	}
	h.Pause(4 * time.Millisecond)
	ended := h.Go("ender", func() {
		ending = true
		h.S.Ev("End called")
		r.rcv.End()
		h.S.Ev("End returned")
	})
	h.Join(time.Minute, "End does not return", ended)
	if mode == 0 && h.G.P(2, 3) { // nobody has received anything so far
		h.Pause(3 * time.Second)
		mode = 1
		r.consume(1, 0)
	}
	h.Settle(60 * time.Second)
	if mode == 0 || mode == 3 { // nobody takes the messages any more
		h.S.Count("probe.abandoned")
		if l := h.S.LibTasksAlive(nil); len(l) > 0 {
			h.Fail("goroutine leaked", "60 s after End, with nobody receiving, a goroutine of the receiver remains: %s", l[0].Desc())
		}
		r.limit = 0
		r.consume(1, 0)
		h.Settle(time.Second)
	}
	_ = ending
	for _, c := range r.consumers {
		if !c.Done() {
			h.Fail("end not reported", "60 s after End, Receive does not report the end: %s", c.Desc())
		}
	}
	r.checkGot("after End", true)
	for _, p := range r.peers {
		if !p.srvClosed() {
			h.Fail("connection not closed", "60 s after End, the connection of peer %d is not closed", p.id)
		}
	}
	switch {
	case r.stub != nil:
		if !r.stub.closed {
			h.Fail("listener not closed", "60 s after End, the listener is not closed")
		}
	case r.net == "unixgram":
		if n := simos.FS().Get("/run/log.sock"); n != nil && n.Sock != nil {
			h.Fail("listener not closed", "60 s after End, the socket is not closed")
		}
	}
	if r.stub == nil { // nobody can connect any more, and the address is free
		if p := r.connect(); !p.gone {
			h.Fail("listener not closed", "60 s after End, a peer can still connect")
		}
		r.peers = r.peers[:len(r.peers)-1]
	}
	if l := h.S.LibTasksAlive(nil); len(l) > 0 {
		h.Fail("goroutine leaked", "60 s after End, a goroutine of the receiver remains: %s", l[0].Desc())
	}
	h.Join(time.Minute, "peers", tasks...)
	h.Work++
}

func runC14(h *H) {
	r := newRRun(h, recvNets[h.G.Weighted(4, 2, 1, 2)])
	most := 15
	if h.G.P(1, 4) {
		r.longs = []int{3000, 20000, 66000}
	}
	if h.G.P(1, 150) && r.net != "unixgram" { // megabytes in all
		r.longs = []int{60000, 150000, 300000}
		h.S.Count("probe.megabytes")
		most = 40
	}
	r.start()
	type kept struct {
		g    syslog.MessageImmutable
		line string
		all  string
		m    *Msg
	}
	var keep []*kept
	fields := func(g syslog.MessageImmutable) string {
		if len(g.String()) > 1000 {
			return strings.Clone(g.AppName()) // the rest is in its line
		}
		return strings.Join([]string{strconv.Itoa(int(g.Priority())), strconv.FormatInt(g.TimeStamp().UnixNano(), 10), g.Hostname(), g.AppName(), g.ProcID(), g.MsgID(), g.StructuredData().String(), g.Text(), g.Writable().String()}, "\x00")
	}
	check := func(k *kept, when string) {
		if s := fields(k.g); s != k.all {
			h.Fail("message changed", "%s: the fields of a message received as %s were %s and now are %s", when, clip([]byte(k.line)), clip([]byte(k.all)), clip([]byte(s)))
		}
		if s := k.g.String(); s != k.line {
			h.Fail("message changed", "%s: a message received as %s now reads %s", when, clip([]byte(k.line)), clip([]byte(s)))
		}
		if k.m != nil {
			if d := sameFields(k.m, k.g); d != "" {
				h.Fail("message changed", "%s: the fields of a message received as %s changed: %s", when, clip([]byte(k.line)), d)
			}
		}
	}
	r.onGot = func(g *rmsg) {
		if g.err != nil {
			return
		}
		_, m := r.owner(g.msg)
		k := &kept{g: g.msg, line: strings.Clone(g.msg.String()), m: m}
		k.all = fields(g.msg)
		if k.m != nil && (strings.IndexFunc(m.Host+m.App, func(c rune) bool { return c <= ' ' || c > '~' }) >= 0 || len(m.Host) > 255 || len(m.App) > 48) {
			k.m = nil // its accessors show something valid instead
		}
		if k.m != nil && k.line != string(m.line(m.TS)) {
			// another property's matter
			k.m = nil
		}
		keep = append(keep, k)
		h.S.Count("probe.messages_kept")
		for i := len(keep) - 1; i >= 0 && i > len(keep)-4; i-- {
			check(keep[i], "while receiving")
		}
		// the application uses other messages
		if h.F.P(1, 2) {
			o := keep[h.F.N(len(keep))]
			w := o.g.Writable().AppName("changed").Msg("changed")
			w = w.StructuredData(o.g.StructuredData()...)
			_ = w.String()
			l := o.g.StructuredData()
			if len(l) > 0 {
				l[0] = l[len(l)-1]
				_ = l.Add(l...)
			}
			check(o, "after deriving from it")
		}
	}
	r.consume(h.G.Range(1, 2), 0)
	var tasks []*vsim.Task
	for i, np := 0, h.G.Range(1, 3); i < np; i++ {
		var ms []*Msg
		for j, n := 0, h.G.Range(2, most); j < n; j++ {
			m := r.wire()
			if h.G.P(1, 8) {
				odd := []string{"h\xc3\xa9", "\xff", "a\x7fb", "tab\t", strings.Repeat("long", 70)}[h.G.N(5)]
				if h.G.P(1, 2) && m.Text != "" {
					m.Host = odd
				} else {
					m.App = odd
				}
			}
			ms = append(ms, m)
		}
		tasks = append(tasks, h.Go(fmt.Sprintf("peer%d", i), func() {
			p := r.connect()
			p.msgs = ms
			if len(r.longs) > 0 && p.st != nil {
				p.st.mode = []int{0, 3, 4, 5}[h.F.N(4)]
			}
			var b []byte
			for _, m := range ms {
				b = append(b, r.k.frame(m.line(m.TS))...)
				if r.net == "unixgram" || h.F.P(1, 2) {
					if len(b) > 120000 && r.net == "unixgram" {
						b = nil
						continue
					}
					p.send(b)
					b = nil
				}
			}
			p.send(b)
			p.end()
		}))
	}
	watch := h.Go("watcher", func() {
		for i := 0; i < 20; i++ {
			h.S.Sleep(time.Duration(h.F.N(600)) * time.Microsecond)
			if len(keep) > 0 {
				check(keep[h.F.N(len(keep))], "while reading goes on")
			}
		}
	})
	h.Join(2*time.Minute, "peers", append(tasks, watch)...)
	h.Settle(2 * time.Second)
	r.rcv.End()
	h.Settle(2 * time.Second)
	for _, k := range keep {
		check(k, "at the end")
	}
}
