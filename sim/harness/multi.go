package harness

import (
	"errors"
	"fmt"
	"time"

	"verif.local/sim/vsim"
)

// C27: several senders and receivers in one process, each with its own
// troubles; each one must behave as if it were alone.

func init() {
	register(&Scenario{ID: "C27", Calm: true, Quick: 20000, Deep: 1000000,
		Real: []string{"syslog5424: Sender, channels, messages, transports, Receiver, listeners (instrumented, unmodified logic)", "net.Buffers"},
		Stub: []string{"Connector and connections of the senders, a stub listener of some receivers (harness)", "tcp, unix, unixgram sockets (simulated network)", "clock, scheduler, channels, sync (simulator)"},
		Rule: "one run = one seed: 1-4 senders and 0-3 receivers at once, of which some are healthy and some refuse, fail, stall, end early, are attacked or have nobody reading them; a third of the runs: 2-6 senders made with Dial for 1-4 real destinations, shared or not, of which some are absent, silent, unresolvable, stalled, resetting or failing; distinct by event history, non-trivial: messages were handled",
		Run:  runC27})
}

const (
	mHealthy = iota
	mFaulty
	mDown
	mSlow
	mEnded
	mAttacked
	mAbandoned
)

var mNames = []string{"healthy", "faulty", "down", "slow", "ended early", "attacked", "abandoned"}

type stampedMsg struct {
	m  *Msg
	at time.Duration
}

type msend struct {
	*srun
	role  int
	every time.Duration
	st    []*stampedMsg
	done  bool // End was called early
}

type mrecv struct {
	*rrun
	role  int
	ended bool
}

func runC27(h *H) {
	if h.G.P(1, 3) {
		runC27dial(h)
		return
	}
	ns := h.G.Range(1, 4)
	nr := h.G.N(4)
	if ns == 1 && nr == 0 {
		nr = 1
	}
	var ss []*msend
	var rs []*mrecv
	var tasks []*vsim.Task
	id := 0
	same := time.Duration(0)
	if h.G.P(1, 2) { // everybody flushes at the same time
		same = time.Duration(h.G.Range(300, 5000)) * time.Microsecond
	}
	slowly := time.Duration(1)
	if h.G.P(1, 4) { // some of it happens long after others have ended
		slowly = time.Duration(h.G.Range(2, 1000))
	}
	bursts := h.G.P(1, 100)
	for i := 0; i < ns; i++ {
		k := pickKind(h)
		x := &msend{srun: newSRun(h, k, newDest(h, k)), role: h.G.Weighted(4, 1, 1, 1, 1)}
		if bursts && h.G.P(3, 4) {
			x.role = mHealthy
		}
		id++
		x.n = id * 10000
		x.app = fmt.Sprintf("app%d", i)
		x.every = time.Duration(h.G.Range(300, 5000)) * time.Microsecond
		if same > 0 {
			x.every = same
		}
		if slowly > 20 { // not too many flushes
			x.every *= slowly / 20
		}
		d := x.d
		switch x.role {
		case mFaulty:
			x.latencies()
			x.faults(true, true, h.G.P(1, 3))
			if d.budget == 1 {
				d.budget = 20
			}
		case mDown:
			d.down = true
		case mSlow:
			d.wlat, d.clat = 1500000, 1500000
		}
		h.Say("sender %d: %s, %v, tick %v", i, mNames[x.role], k, x.every)
		h.S.Count("probe.sender_" + mNames[x.role])
		x.start(d)
		if x.role == mHealthy || h.G.P(1, 2) {
			x.readErrors()
		}
		x.ticker(x.every)
		ss = append(ss, x)
	}
	for i := 0; i < nr; i++ {
		net := recvNets[h.G.N(4)]
		x := &mrecv{rrun: newRRun(h, net), role: []int{mHealthy, mHealthy, mFaulty, mEnded, mAttacked, mAbandoned}[h.G.N(6)]}
		if x.role == mAttacked && net == "unixgram" || x.role == mFaulty && net != "stub" {
			x.role = mHealthy
		}
		x.inst = i
		id++
		x.n = id * 10000
		x.start()
		h.Say("receiver %d: %s", i, mNames[x.role])
		h.S.Count("probe.receiver_" + mNames[x.role])
		switch x.role {
		case mFaulty:
			x.stub.accErr, x.stub.budget = 500, h.G.Range(1, 20)
		}
		if x.role == mHealthy || h.G.P(1, 2) {
			x.readErrors()
		}
		if x.role != mAbandoned {
			x.consume(h.G.Range(1, 2), 0)
		}
		rs = append(rs, x)
	}

	for _, x := range ss {
		x := x
		for p, n := 0, h.G.Range(1, 3); p < n; p++ {
			var ms []*Msg
			var ws []time.Duration
			if bursts && p == 0 && x.role == mHealthy {
				h.S.Count("probe.burst")
				for j, q := 0, h.G.Range(900, 1100); j < q; j++ {
					ms = append(ms, x.newMsg())
					ws = append(ws, 0)
				}
			}
			after := h.G.N(2)
			if bursts {
				after = 1
			}
			for j, q := 0, h.G.Range(1, 8); j < q; j++ {
				ms = append(ms, x.newMsg())
				ws = append(ws, time.Duration(h.G.N(4000))*time.Microsecond*time.Duration(h.G.N(2)|after)*slowly)
			}
			t := h.Go("logger", func() {
				for j, m := range ms {
					if ws[j] > 0 {
						h.S.Sleep(ws[j])
					}
					if x.done {
						return
					}
					x.emit(m)
					x.st = append(x.st, &stampedMsg{m, h.S.Elapsed()})
				}
			})
			if x.role == mSlow { // logging may wait for the write in progress
				x.tasks = append(x.tasks, t)
			} else {
				tasks = append(tasks, t)
			}
		}
		if x.role == mEnded {
			wait := time.Duration(h.G.N(4000)) * time.Microsecond
			x.atEnd = func() {}
			tasks = append(tasks, h.Go("ender", func() {
				h.S.Sleep(wait)
				x.done, x.ending = true, true
				for _, m := range x.msgs {
					if m.Ret == 0 {
						m.Maybe = true
					}
				}
				x.snd.End()
				h.S.Ev("a sender has ended")
			}))
		}
	}
	for _, x := range rs {
		x := x
		for p, n := 0, h.G.N(4); p < n; p++ {
			var ms []*Msg
			var ws []time.Duration
			for j, q := 0, h.G.Range(1, 5); j < q; j++ {
				ms = append(ms, x.wire())
				ws = append(ws, time.Duration(h.G.N(3000))*time.Microsecond*time.Duration(h.G.N(2))*slowly)
			}
			evil := x.role == mAttacked && h.G.P(1, 2)
			var junk []byte
			if evil {
				for _, f := range x.hostile() {
					junk = append(junk, f.raw...)
				}
			}
			ending := h.G.N(3)
			t := h.Go("peer", func() {
				p := x.connect()
				if p.gone {
					if !x.ended {
						h.Fail("peer refused", "a peer could not connect to receiver %d", x.inst)
					}
					return
				}
				if evil {
					p.send(junk)
					p.end()
					return
				}
				p.msgs = ms
				for j, m := range ms {
					if ws[j] > 0 {
						h.S.Sleep(ws[j])
					}
					b := x.k.frame(m.line(m.TS))
					for len(b) > 0 && x.net != "unixgram" && h.F.P(1, 3) {
						k := 1 + h.F.N(len(b))
						p.send(b[:k])
						b = b[k:]
					}
					if len(b) > 0 {
						if err := p.send(b); err != nil {
							if x.role == mHealthy {
								h.Fail("peer disconnected", "receiver %d dropped the connection of a well-behaved peer: %v", x.inst, err)
							}
							return
						}
					}
				}
				switch {
				case ending == 0: // stays
				case ending == 1 && x.role == mFaulty:
					p.fail(errors.New("injected read failure"))
				default:
					p.end()
				}
			})
			if x.role == mHealthy {
				tasks = append(tasks, t)
			} else {
				x.tasks = append(x.tasks, t)
			}
		}
		if x.role == mEnded {
			wait := time.Duration(h.G.N(4000)) * time.Microsecond
			tasks = append(tasks, h.Go("ender", func() {
				h.S.Sleep(wait)
				x.ended = true
				x.rcv.End()
				h.S.Ev("a receiver has ended")
			}))
		}
	}
	h.Join(time.Minute, "held up by another one", tasks...)
	most := time.Duration(0)
	for _, x := range ss {
		if x.every > most {
			most = x.every
		}
	}
	h.Settle(2*most + time.Duration(h.G.Range(2, 3000))*time.Millisecond)

	eps := 10 * time.Microsecond
	for i, x := range ss {
		if x.role != mHealthy {
			continue
		}
		for _, y := range x.st {
			at, ok := x.when(y.m)
			if !ok {
				h.Fail("not flushed", "sender %d is healthy, but message %s, logged at %v, is not written %v later (flush delay %v)", i, y.m.ID, y.at, h.S.Elapsed()-y.at, x.every)
			}
			if at > y.at+x.every+eps {
				h.Fail("flushed late", "sender %d is healthy, but message %s, logged at %v, was written %v later (flush delay %v)", i, y.m.ID, y.at, at-y.at, x.every)
			}
		}
		if len(x.errs) > 0 {
			h.Fail("error of another one", "sender %d met no failure, but its error channel delivered %q", i, x.errs[0])
		}
	}
	for i, x := range ss {
		for _, e := range x.errs {
			if _, own := x.d.errs[e]; !own {
				h.Fail("error of another one", "the error channel of sender %d delivered %q, which it did not meet", i, e)
			}
		}
		if x.role != mFaulty { // ENOBUFS may have cut a frame for now
			x.frames("meanwhile")
		}
	}
	for i, x := range rs {
		if x.role != mHealthy {
			continue
		}
		seen := x.checkGot(fmt.Sprintf("receiver %d, healthy", i), false)
		for _, p := range x.peers {
			if m := missing(seen, p.msgs); m != nil {
				h.Fail("message not delivered", "receiver %d is healthy, but message %s of its peer %d was not received", i, m.ID, p.id)
			}
		}
		if len(x.errs) > 0 {
			h.Fail("error of another one", "receiver %d met no failure, but its error channel delivered %q", i, x.errs[0])
		}
		if len(seen) > 0 {
			h.S.Count("probe.healthy_receiver")
		}
	}

	// the troubles are over
	for _, x := range ss {
		x.d.down, x.d.fail, x.d.refuse, x.d.nobuf, x.d.wlat, x.d.clat = false, 0, 0, 0, 0, 0
	}
	for _, x := range ss {
		h.Join(5*time.Minute, "logging blocked", x.tasks...)
	}
	for _, i := range perm(h, len(ss)) {
		if x := ss[i]; !x.done {
			x.end(5 * time.Minute)
		}
	}
	for _, x := range ss {
		x.checkWritten("when all senders have ended", true)
	}
	for _, i := range perm(h, len(rs)) {
		if x := rs[i]; !x.ended {
			x.ended = true
			x.rcv.End()
		}
	}
	for _, x := range rs {
		if x.role == mAbandoned {
			x.consume(1, 0)
		}
	}
	h.Settle(time.Minute)
	for i, x := range rs {
		for _, c := range x.consumers {
			if !c.Done() {
				h.Fail("end not reported", "a minute after End, Receive of receiver %d does not report the end: %s", i, c.Desc())
			}
		}
		if x.role != mAttacked {
			x.checkGot(fmt.Sprintf("receiver %d, after End", i), true)
		}
	}
	if l := h.S.LibTasksAlive(nil); len(l) > 0 {
		h.Fail("goroutine leaked", "a minute after everything has ended, a goroutine remains: %s", l[0].Desc())
	}
}

// perm draws an order.
func perm(h *H, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := h.G.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
