package harness

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"

	simos "verif.local/sim/sos"
	"verif.local/sim/vsim"
)

func init() {
	register(&Scenario{ID: "C15", Quick: 600000, Deep: 24000000, Real: senderReal, Stub: senderStub, Need: "probe.channel_asked",
		Rule: "2-6 goroutines ask one Syslog and its SubSyslogs for channels of all severities, at first and later, and log through them; non-trivial: channels asked for and messages logged; distinct by event history",
		Run:  runC15})
	register(&Scenario{ID: "C16", Quick: 400000, Deep: 16000000, Real: senderReal, Stub: senderStub, Need: "probe.derived",
		Rule: "2-5 goroutines derive messages, lists of structured data, channels and syslogs from shared ones, in random order and depth, and use them; distinct by event history",
		Run:  runC16})
	register(&Scenario{ID: "C17", Quick: 400000, Deep: 16000000, Real: senderReal, Stub: append(append([]string{}, senderStub...), "wall clock with jumps and time zones"), Need: "probe.stamped",
		Rule: "messages logged through channels while the wall clock jumps and connections fail; each timestamp compared with the clock at start and return of its logging call; distinct by event history",
		Run:  runC17})
	register(&Scenario{ID: "C18", Quick: 1000000, Deep: 40000000, Real: []string{"syslog5424: Message.Timestamp, Now, Epoch, Delta"}, Stub: []string{"wall clock with jumps, in any time zone, passing midnight of a new year at any instruction"}, Need: "probe.dated",
		Rule: "stamps taken from a clock up to 30 days before they are applied, around new years, the clock advancing between any two instructions; distinct by event history",
		Run:  runC18})
}

// derivedName is what AppName and SubSyslog document.
func derivedName(app, sub string) string {
	if app == "-" {
		return field(sub, 48)
	}
	return field(app+"/"+sub, 48)
}

// field is what a header field carries for a name: RFC 5424 allows printable
// ASCII up to a maximal length, and "-" stands for nothing.
func field(v string, max int) string {
	if len(v) > max {
		v = v[:max]
	}
	if v == "" {
		return "-"
	}
	b := []byte(v)
	for i := range b {
		if b[i] < '!' || b[i] > '~' {
			b[i] = '%'
		}
	}
	return string(b)
}

// oddNames are no names of RFC 5424 as they are.
var oddNames = []string{"my app", "", "é", "tab\tx", "del\x7f", "a b\nc", "<0>1 - x", "0123456789012345678901234567890123456789", "[x y]", "\x00"}

func name(g *vsim.Stream) string {
	if g.P(1, 6) {
		return oddNames[g.N(len(oddNames))]
	}
	return subs[g.N(len(subs))]
}

var subs = []string{"sub", "a", "smtpd", "x-y.z", "1"}

// hsd is structured data of the harness.
type hsd string

type hsdid string

func (d hsdid) String() string                            { return string(d) }
func (d hsdid) IsIANA() bool                              { return false }
func (d hsdid) GetPEN() uint64                            { return 1 }
func (d hsdid) Found([]byte) (sdata.StructuredData, bool) { return nil, false }
func (d hsdid) MarshalText() ([]byte, error)              { return []byte(d), nil }
func (s hsd) SDID() sdata.SDID {
	return hsdid(strings.FieldsFunc(string(s), func(r rune) bool { return r == '[' || r == ' ' || r == ']' })[0])
}
func (s hsd) Marshal5424() ([]byte, error) { vsim.Y(); return []byte(s), nil }

// in no particular order
var sdLetters = []string{"h", "a", "z", "Q", "_"}

func (h *H) hsd() hsd {
	h.S.Data["hsd"] = h.num("hsd") + 1
	return hsd(fmt.Sprintf(`[%s%d v="%s"]`, sdLetters[h.G.N(len(sdLetters))], h.num("hsd"), sdValues[h.G.N(len(sdValues))]))
}

func (h *H) num(k string) int { n, _ := h.S.Data[k].(int); return n }

// chstep is a derivation of a channel.
type chstep struct {
	app bool
	val string
}

func runC15(h *H) {
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	r.latencies()
	r.tick = make(chan time.Time, 1)
	r.snd, r.errc = syslog.NewSender(r.d, k.transport(), r.tick)
	r.tickShape()
	fac := h.G.N(24)
	min := h.G.N(8)
	app := []string{"app", "-", "prog", "x"}[h.G.N(4)]
	sl, err := syslog.New(r.snd, syslog.Priority(fac<<3|min), app)
	if err != nil {
		h.Fail("New failed", "%v", err)
	}
	pid := "4242"
	if h.G.P(1, 8) {
		sl.TestMode()
		r.host, pid = "localhost", "1234"
	}
	h.Say("facility=%d threshold=%d app=%s", fac, min, app)
	type op struct {
		sub   []string
		sev   int
		steps []chstep
		m     *Msg
		wait  time.Duration
		pre   string // prefix of a Logger
		log   string // what is logged
	}
	var muted []*Msg
	subsOf := map[string]*syslog.Syslog{}
	if h.G.P(1, 2) { // a shared sub syslog
		subsOf["shared"] = sl.SubSyslog("shared")
	}
	for i, n := 0, h.G.Range(2, 6); i < n; i++ {
		var ops []*op
		for j, q := 0, h.G.Range(1, 6); j < q; j++ {
			o := &op{sev: h.G.N(8)}
			if h.G.P(1, 3) {
				o.sub = append(o.sub, name(h.G))
				if h.G.P(1, 4) {
					o.sub = append(o.sub, name(h.G))
				}
			} else if subsOf["shared"] != nil && h.G.P(1, 2) {
				o.sub = []string{"shared"}
			}
			for x, y := 0, h.G.Weighted(4, 3, 1); x < y; x++ {
				o.steps = append(o.steps, chstep{h.G.P(1, 2), name(h.G)})
			}
			r.n++
			m := &Msg{ID: fmt.Sprintf("m%d!", r.n), Prio: fac<<3 | o.sev, Host: r.host, App: app, Pid: pid, MsgID: "-", SD: "-"}
			for _, s := range o.sub {
				m.App = derivedName(m.App, s)
			}
			for _, s := range o.steps {
				if s.app {
					m.App = derivedName(m.App, s.val)
				} else {
					m.MsgID = field(s.val, 32)
				}
			}
			m.Text = r.h.text(m.ID, k)
			o.log = m.Text
			m.How = []string{"log", "write", "logger", "sd"}[h.G.N(4)]
			if m.How == "logger" {
				o.pre = []string{"", "", "pre: ", "x", "[p] "}[h.G.N(5)]
				if o.sev == 7 {
					m.Loose = true // and file:line between the two
				} else {
					m.Text = o.pre + m.Text
				}
			}
			if m.How == "sd" {
				h.sds(m)
			}
			if m.How != "logger" && h.G.P(1, 12) { // no text: what tells the message is elsewhere
				h.S.Count("probe.no_text")
				m.Text, o.log = "", []string{"", " ", "\t \n", "\r\n"}[h.G.N(4)]
				if m.How == "sd" {
					s := hsd(`[id x="` + m.ID + `"]`)
					m.SD, m.sds = m.SD+string(s), append(m.sds, s)
				} else {
					m.MsgID = m.ID
					o.steps = append(o.steps, chstep{false, m.ID})
				}
			}
			o.m = m
			if h.G.P(1, 3) {
				o.wait = time.Duration(h.G.N(500)) * time.Microsecond
			}
			if o.sev <= min {
				r.msgs = append(r.msgs, m)
			} else {
				muted = append(muted, m)
			}
			ops = append(ops, o)
		}
		r.tasks = append(r.tasks, h.Go(fmt.Sprintf("logger%d", i), func() {
			for _, o := range ops {
				if o.wait > 0 {
					h.S.Sleep(o.wait)
				}
				s := sl
				for i, x := range o.sub {
					if i == 0 && x == "shared" {
						s = subsOf["shared"]
					} else {
						s = s.SubSyslog(x)
					}
				}
				arg := syslog.Priority(o.sev)
				if h.F.P(1, 4) {
					arg |= syslog.Priority(h.F.N(24) << 3) // only the severity counts
				}
				c := s.Channel(arg)
				h.S.Count("probe.channel_asked")
				h.S.Ev("channel", o.sev, c.IsDevNull())
				for i := -1; i < len(o.steps); i++ {
					if i >= 0 {
						if st := o.steps[i]; st.app {
							c = c.AppName(st.val)
						} else {
							c = c.Msgid(st.val)
						}
					}
					if c.IsDevNull() != (o.sev > min) {
						h.Fail("IsDevNull wrong", "threshold %d: the channel of severity %d, %d times derived, says IsDevNull=%v", min, o.sev, i+1, c.IsDevNull())
					}
				}
				m := o.m
				m.Inv = h.S.Seq()
				switch m.How {
				case "log":
					c.Log(o.log)
				case "sd":
					c.Log(o.log, m.sds...)
				case "write":
					buf := []byte(o.log)
					if n, err := c.Write(buf); n != len(o.log) || err != nil {
						h.Fail("write rejected", "Write = %d, %v", n, err)
					}
					for i := range buf { // the buffer is the caller's again
						buf[i] = '~'
					}
				case "logger":
					if o.pre != "" && h.F.P(1, 3) { // another Logger of the same channel
						c.Logger("other").Prefix()
					}
					c.Logger(o.pre).Print(o.log)
				}
				m.Ret = h.S.Seq()
				m.reuse()
				h.Work++
			}
		}))
	}
	r.readErrors()
	h.Join(time.Minute, "logging blocked", r.tasks...)
	r.end(time.Minute)
	for _, c := range r.d.conns {
		for _, m := range muted {
			if strings.Contains(string(c.data), m.ID) {
				h.Fail("disabled severity emitted", "threshold %d: message %s of severity %d was written", min, m.ID, m.Prio&7)
			}
		}
	}
}

// ---------------------------------------------------------------- derivation

// derive applies a generated setter to a message and to its model.
func derive(h *H, g *vsim.Stream, base syslog.Message, m *Msg) (syslog.Message, *Msg) {
	n := *m
	v := tokens[g.N(len(tokens))]
	h.S.Count("probe.derived")
	h.S.Data["derived"] = h.num("derived") + 1
	uniq := "u" + strconv.Itoa(h.num("derived"))
	switch g.N(13) {
	case 12:
		n.Host = simos.HostnameValue
		return base.LocalHost(), &n
	case 0:
		if g.P(1, 6) {
			uniq += name(g)
		}
		n.Host = field(uniq, 255)
		return base.Host(uniq), &n
	case 1:
		if g.P(1, 6) {
			uniq += name(g)
		}
		n.App = field(uniq, 48)
		return base.AppName(uniq), &n
	case 2:
		if g.P(1, 6) {
			uniq += name(g)
		}
		n.Pid = field(uniq, 128)
		return base.ProcID(uniq), &n
	case 3:
		if g.P(1, 4) {
			v = name(g)
		}
		n.MsgID = field(v, 32)
		return base.MsgID(v), &n
	case 4:
		n.Prio = g.N(192)
		return base.Priority(syslog.Priority(n.Prio)), &n
	case 5:
		t := time.Date(2001+g.N(20), 2, 3, 4, 5, 6, 0, time.UTC)
		if g.P(1, 2) { // what was said in one place may be said in another one
			t = time.Date(2010, 2, 3, 4, 5, 6, 1000*g.N(2), time.UTC).In(zoneOf(g))
		}
		n.TS = t.Format(tsFormat)
		return base.Time(t), &n
	case 6:
		n.Text = "text " + uniq
		return base.Msg(n.Text), &n
	case 7:
		sec := int64(g.N(2000000000))
		n.TS = time.Unix(sec, 0).UTC().Format(tsFormat)
		return base.Epoch(strconv.FormatInt(sec, 10), "0"), &n
	default:
		var l []sdata.StructuredData
		var before []sdata.StructuredData
		for i, k := 0, 1+g.N(3); i < k; i++ {
			s := hsd(fmt.Sprintf("[%s%s-%d k=\"v\"]", sdLetters[g.N(len(sdLetters))], uniq, i))
			l, before = append(l, s), append(before, s)
			if n.SD == "-" {
				n.SD = ""
			}
			n.SD += string(s)
			if g.P(1, 4) {
				s, txt, _ := sdAny(h, g)
				l, before = append(l, s), append(before, s)
				n.SD += txt
			}
		}
		d := base.StructuredData(l...)
		sameSD(h, l, before)
		if g.P(1, 3) { // the application reuses its slice
			for i := range l {
				l[i] = hsd("[overwritten]")
			}
		}
		return d, &n
	}
}

// sameSD: the application's slice is its own.
func sameSD(h *H, got, want []sdata.StructuredData) {
	for i := range want {
		if !reflect.DeepEqual(got[i], want[i]) {
			h.Fail("argument altered", "the application's slice of structured data read %v and reads %v after the call", want, got)
		}
	}
}

func runC16(h *H) {
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	r.latencies()
	r.start(r.d)
	r.tickShape()
	r.readErrors()
	base, bm := syslog.EmptyMessage(), &Msg{TS: time.Unix(0, 0).UTC().Format(tsFormat), Host: "-", App: "-", Pid: "-", MsgID: "-", SD: "-"}
	if h.G.P(1, 4) {
		t := time.Unix(1600000000, 0)
		bm = &Msg{Prio: h.G.N(192), TS: t.UTC().Format(tsFormat), Host: simos.HostnameValue, App: name(h.G), Pid: "-", MsgID: "-", SD: "-", Text: "created"}
		base = syslog.CreateMessage(bm.App, syslog.Priority(bm.Prio), bm.Text).Time(t)
		bm.App = field(bm.App, 48)
	}
	for i, n := 0, h.G.N(7); i < n; i++ {
		base, bm = derive(h, h.G, base, bm)
	}
	type der struct {
		msg syslog.Message
		m   *Msg
		who string
	}
	all := []*der{{base, bm, "the original"}}
	check := func(d *der, when string) {
		if got, want := d.msg.String(), string(d.m.line(d.m.TS)); got != want {
			h.Fail("derived message altered", "%s: %s reads %s, should be %s", when, d.who, clip([]byte(got)), clip([]byte(want)))
		}
	}
	check(all[0], "before any other derivation")
	// lists
	type lst struct {
		l    sdata.List
		want string
	}
	lists := []*lst{{sdata.EmptyList(), ""}}
	if h.G.P(1, 2) {
		l := sdata.EmptyList()
		w := ""
		for i, n := 0, h.G.Range(1, 5); i < n; i++ {
			s := h.hsd()
			l, w = l.Add(s), w+string(s)
		}
		lists = append(lists, &lst{l, w})
	}
	checkList := func(x *lst, when string) {
		want := x.want
		if want == "" {
			want = "-"
		}
		if got := x.l.String(); got != want {
			h.Fail("list altered", "%s: a list of structured data reads %s, should be %s", when, clip([]byte(got)), clip([]byte(want)))
		}
	}
	// channels
	type chn struct {
		c          syslog.Channel
		sev        int
		app, msgid string
	}
	ch := &chn{r.sl.Channel(syslog.Priority(3)), 3, r.app, "-"}
	chans := []*chn{ch}
	type sys struct {
		s   *syslog.Syslog
		app string
	}
	syss := []*sys{{r.sl, r.app}}
	for i, n := 0, h.G.Range(2, 5); i < n; i++ {
		steps := h.G.Range(2, 10)
		r.tasks = append(r.tasks, h.Go(fmt.Sprintf("deriver%d", i), func() {
			for j := 0; j < steps; j++ {
				switch h.F.N(8) {
				case 0, 1, 2:
					b := all[h.F.N(len(all))]
					if h.F.P(1, 2) {
						b = all[0]
					}
					d, m := derive(h, h.F, b.msg, b.m)
					x := &der{d, m, fmt.Sprintf("the message derived %d-th by goroutine %d", j, i)}
					check(x, "just derived")
					check(b, "after a derivation from it")
					all = append(all, x)
				case 3:
					b := lists[h.F.N(len(lists))]
					h.S.Count("probe.derived")
					s := h.hsdF()
					var x *lst
					if h.F.P(1, 2) {
						x = &lst{b.l.Add(s), b.want + string(s)}
					} else {
						t := h.hsdF()
						l := []sdata.StructuredData{s, t}
						x = &lst{b.l.Add(l...), b.want + string(s) + string(t)}
						sameSD(h, l, []sdata.StructuredData{s, t})
					}
					checkList(x, "just derived")
					lists = append(lists, x)
				case 4, 5:
					b := chans[h.F.N(len(chans))]
					x := *b
					v := name(h.F)
					h.S.Count("probe.derived")
					if h.F.P(1, 2) {
						x.app = derivedName(b.app, v)
						x.c = b.c.AppName(v)
					} else {
						x.msgid = field(v, 32)
						x.c = b.c.Msgid(v)
					}
					chans = append(chans, &x)
				case 6:
					b := syss[h.F.N(len(syss))]
					v := name(h.F)
					h.S.Count("probe.derived")
					x := &sys{b.s.SubSyslog(v), derivedName(b.app, v)}
					syss = append(syss, x)
					chans = append(chans, &chn{x.s.Channel(5), 5, x.app, "-"})
				}
				// use something
				r.n++
				m := &Msg{ID: fmt.Sprintf("m%d!", r.n), Host: r.host, Pid: "4242", SD: "-"}
				m.Text = m.ID + "."
				if h.F.P(1, 3) {
					b := all[h.F.N(len(all))]
					*m = *b.m
					m.ID = fmt.Sprintf("m%d!", r.n)
					m.Text = m.ID + "."
					r.msgs = append(r.msgs, m)
					m.Inv = h.S.Seq()
					if err := r.snd.Send(b.msg.Msg(m.Text)); err != nil {
						h.Fail("send rejected", "%v", err)
					}
				} else {
					c := chans[h.F.N(len(chans))]
					m.Prio, m.App, m.MsgID = r.fac<<3|c.sev, c.app, c.msgid
					r.msgs = append(r.msgs, m)
					m.Inv = h.S.Seq()
					switch h.F.N(3) {
					case 0:
						c.c.Log(m.Text)
					case 1:
						var l, before []sdata.StructuredData
						m.SD = ""
						for i := h.F.N(3); i >= 0; i-- {
							s := h.hsdF()
							m.SD += string(s)
							l, before = append(l, s), append(before, s)
						}
						c.c.Log(m.Text, l...)
						sameSD(h, l, before)
						if h.F.P(1, 2) { // the application reuses its slice
							for i := range l {
								l[i] = hsd("[overwritten]")
							}
						}
					case 2:
						c.c.Logger("").Print(m.Text)
					}
				}
				m.Ret = h.S.Seq()
				h.Work++
			}
		}))
	}
	h.Join(time.Minute, "blocked", r.tasks...)
	for _, d := range all {
		check(d, "at the end")
	}
	for _, l := range lists {
		checkList(l, "at the end")
	}
	r.end(time.Minute)
}

func (h *H) hsdF() hsd {
	h.S.Data["hsd"] = h.num("hsd") + 1
	return hsd(fmt.Sprintf(`[%s%d v="%d"]`, sdLetters[h.F.N(len(sdLetters))], h.num("hsd"), h.F.N(10)))
}

// ---------------------------------------------------------------- time

var zones = []int{0, 60, -300, 330, 345, 840, -720, -570, 765}

// zone draws the time zone of the clock.
func (h *H) zone() *time.Location { return zoneOf(h.G) }

func zoneOf(g *vsim.Stream) *time.Location {
	z := zones[g.N(len(zones))]
	if z == 0 {
		return time.UTC
	}
	return time.FixedZone("", z*60)
}

func runC17(h *H) {
	k := pickKind(h)
	r := newSRun(h, k, newDest(h, k))
	r.latencies()
	if h.G.P(1, 2) {
		r.faults(h.G.P(1, 2), h.G.P(1, 2), h.G.P(1, 3))
	}
	loc := h.zone()
	time.Local = loc
	h.S.Cfg.Epoch = h.S.Cfg.Epoch.Add(tsPool[h.G.N(len(tsPool))]).In(loc)
	clock := func() time.Time { return h.S.Now() }
	custom := h.G.P(1, 3)
	if custom { // the application's own clock
		off := time.Duration(h.G.N(1000000)) * time.Second
		zs := []*time.Location{h.zone()}
		for h.G.P(1, 3) { // daylight saving begins or ends
			zs = append(zs, h.zone())
			h.S.Count("probe.zone_changes")
		}
		calls := 0
		clock = func() time.Time {
			calls++
			return h.S.Now().Add(off).In(zs[calls%len(zs)])
		}
		syslog.Now = func() time.Time { vsim.Y(); return clock() }
	}
	r.start(r.d)
	r.tickShape()
	r.readErrors()
	jumps := 0
	if h.G.P(2, 3) {
		h.Go("clock", func() {
			for i, n := 0, 1+h.F.N(8); i < n; i++ {
				h.S.Sleep(time.Duration(h.F.N(3000)) * time.Microsecond)
				d := []time.Duration{time.Hour, -time.Hour, time.Second, -time.Second, 400 * 24 * time.Hour, -3 * time.Millisecond, time.Microsecond}[h.F.N(7)]
				h.S.JumpWall(d)
				jumps++
				h.S.Count("fault.clock_jump")
				h.S.Ev("clock jumps", d.String())
			}
		})
	}
	type stamp struct{ t0, t1 time.Time }
	st := map[string]stamp{}
	for i, n := 0, h.G.Range(1, 4); i < n; i++ {
		var ms []*Msg
		var ws []time.Duration
		for j, q := 0, h.G.Range(1, 8); j < q; j++ {
			m := r.plainMsg()
			m.TS, m.Loose = "", false
			m.SD, m.sds, m.after = "-", nil, nil
			m.How = []string{"log", "write", "logger"}[h.G.N(3)]
			m.Prio = r.fac<<3 | h.G.N(7)
			m.Host, m.App, m.Pid, m.MsgID = r.host, r.app, "4242", "-"
			ms = append(ms, m)
			ws = append(ws, time.Duration(h.G.N(2000))*time.Microsecond*time.Duration(h.G.N(2))+time.Duration(h.G.N(1000))*time.Duration(h.G.N(2)))
		}
		r.tasks = append(r.tasks, h.Go(fmt.Sprintf("logger%d", i), func() {
			for j, m := range ms {
				if ws[j] > 0 {
					h.S.Sleep(ws[j])
				}
				j0, t0 := jumps, clock()
				r.emit(m)
				t1 := clock()
				if jumps == j0 {
					st[m.ID] = stamp{t0, t1}
				}
			}
		}))
	}
	h.Join(time.Minute, "logging blocked", r.tasks...)
	h.Pause(5 * time.Millisecond)
	r.end(time.Minute)
	for _, c := range r.d.conns {
		fr, _ := r.k.split(c.data)
		for _, f := range fr {
			id := findID(f)
			s, ok := st[id]
			if !ok {
				continue
			}
			ts, txt, ok := tsOf(f)
			if !ok {
				h.Fail("timestamp unreadable", "message %s has the timestamp %q", id, txt)
			}
			g, _, err := syslog.Parse(f, nil, true)
			if err != nil {
				h.Fail("timestamp unreadable", "message %s cannot be parsed: %v", id, err)
			}
			if !g.TimeStamp().Equal(ts) {
				h.Fail("timestamp altered", "message %s: timestamp %q is received as %v", id, txt, g.TimeStamp())
			}
			if ts.Before(s.t0.Truncate(time.Microsecond)) || ts.After(s.t1) {
				h.Fail("wrong timestamp", "message %s was logged between %s and %s but carries %s", id, s.t0.Format(time.RFC3339Nano), s.t1.Format(time.RFC3339Nano), txt)
			}
			h.S.Count("probe.stamped")
		}
	}
}

func runC18(h *H) {
	s := h.S
	loc := h.zone()
	time.Local = loc
	year := 2019 + h.G.N(8)
	// the clock, mostly around a new year
	var at time.Time
	switch h.G.N(4) {
	case 0:
		at = time.Date(year, time.Month(1+h.G.N(12)), 1+h.G.N(31), h.G.N(24), h.G.N(60), h.G.N(60), 0, loc)
	case 1:
		at = time.Date(year, 12, 31, 23, 59, 59, 999999000+h.G.N(1000), loc)
	case 2:
		at = time.Date(year, 12, 31, 0, 0, 0, 0, loc).Add(time.Duration(h.G.N(2*86400)-86400) * time.Second)
	case 3:
		at = time.Date(year, 12, 2+h.G.N(30), h.G.N(24), h.G.N(60), h.G.N(60), 0, loc)
	}
	s.Cfg.Epoch = at.Add(-s.Elapsed())
	h.Say("clock starts at %s", at.Format(time.RFC3339Nano))
	done := false
	// a clock that moves on between any two instructions
	if h.G.P(1, 2) {
		step := []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Hour}[h.G.N(5)]
		h.Go("clock", func() {
			for i := 0; i < 40 && !done; i++ {
				s.JumpWall(step)
				s.Count("fault.clock_advance")
				vsim.Gosched()
			}
		})
	}
	base := syslog.EmptyMessage().Msg("text")
	total := time.Duration(0)
	for i, n := 0, h.G.Range(1, 6); i < n; i++ {
		switch h.G.Weighted(5, 2, 2, 2) {
		case 0: // a year-less stamp
			t0 := s.Now()
			stamp := t0.Format(time.Stamp)
			max := 30*24*time.Hour - 50*time.Hour // the clock may go on meanwhile
			var d time.Duration
			switch h.G.N(4) {
			case 0:
			case 1:
				d = time.Duration(h.G.N(5)) * time.Second
			case 2:
				d = time.Duration(h.G.N(int(max/time.Second))) * time.Second
			case 3: // up to a new year
				d = time.Date(t0.Year()+1, 1, 1, 0, 0, 0, 0, t0.Location()).Sub(t0)
				if d > max {
					d = max
				}
			}
			s.JumpWall(d)
			total += d
			m := base.Timestamp(stamp)
			got := tsField(h, m)
			s.Ev("stamp", stamp, got.String())
			t1 := s.Now()
			if t1.Sub(t0) > 30*24*time.Hour {
				h.S.Count("probe.too_old")
				continue
			}
			if got.Year() != t0.Year() || got.Month() != t0.Month() || got.Day() != t0.Day() || got.Hour() != t0.Hour() || got.Minute() != t0.Minute() || got.Second() != t0.Second() {
				h.Fail("wrong date for a stamp", "the stamp %q taken at %s and applied by %s dates the message %s", stamp, t0.Format(time.RFC3339), t1.Format(time.RFC3339), got.Format(time.RFC3339))
			}
			if t1.Year() != t0.Year() {
				h.S.Count("probe.new_year_passed")
			}
		case 1:
			t0 := s.Now()
			from := base
			if h.G.P(1, 3) { // whatever date it had before
				from = base.Time(t0.Add(time.Duration(h.G.N(4000000)-2000000) * time.Second))
			}
			m := from.Now()
			t1 := s.Now()
			got := tsField(h, m)
			if got.Before(t0.Truncate(time.Microsecond)) || got.After(t1) {
				h.Fail("wrong current time", "Now() between %s and %s gives %s", t0.Format(time.RFC3339Nano), t1.Format(time.RFC3339Nano), got.Format(time.RFC3339Nano))
			}
		case 2:
			sec, ns := int64(h.G.N(2000000000)), int64(h.G.N(1000000))*1000
			if h.G.P(1, 6) { // up to the year 9999, and before 1970
				sec = []int64{2147483647, 2147483648, 4294967296, 9223372036, 9223372037, 253402200000, -1, -86400, -2208988800}[h.G.N(9)]
			}
			got := tsField(h, base.Epoch(strconv.FormatInt(sec, 10), strconv.FormatInt(ns, 10)))
			if want := time.Unix(sec, ns); !got.Equal(want) {
				h.Fail("wrong epoch time", "Epoch(%d, %d) gives %s instead of %s", sec, ns, got.Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
			}
		case 3:
			boot := s.Now().Add(-time.Duration(h.G.N(1000000)) * time.Second).Truncate(time.Microsecond)
			sec, ns := int64(h.G.N(40000000)), int64(h.G.N(1000000))*1000
			if h.G.P(1, 6) {
				sec, ns = []int64{0, 2147483648, 8000000000, 99999999, 1234567890}[h.G.N(5)], []int64{0, 999999000, 1000, 123457000}[h.G.N(4)]
			}
			got := tsField(h, base.Delta(boot, strconv.FormatInt(sec, 10), fmt.Sprintf("%0*d", []int{1, 9}[h.G.N(2)], ns)))
			if want := boot.Add(time.Duration(sec)*time.Second + time.Duration(ns)); !got.Equal(want) {
				h.Fail("wrong time since boot", "Delta(%s, %d, %d) gives %s instead of %s", boot.Format(time.RFC3339Nano), sec, ns, got.Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
			}
		}
		h.S.Count("probe.dated")
		h.Work++
		vsim.Gosched()
	}
	done = true
}

func tsField(h *H, m syslog.Message) time.Time {
	t, txt, ok := tsOf([]byte(m.String()))
	if !ok {
		h.Fail("timestamp unreadable", "the message has the timestamp %q", txt)
	}
	return t
}
