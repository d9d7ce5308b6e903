package harness

import (
	"fmt"
	"strings"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif.local/sim/vsim"
)

func init() {
	register(&Scenario{ID: "C22", Quick: 400000, Deep: 16000000, Need: "probe.registered",
		Real: []string{"sdata: registry, unknown structured data, tokens", "syslog5424: Parse, MessageImmutable, Receiver (instrumented, unmodified logic)"},
		Stub: []string{"definitions of structured data (harness)", "listener and connections (harness)", "goroutine scheduler, map order, channels, sync (simulator)"},
		Rule: "1-3 goroutines register 1-8 definitions (one by one and in groups, several under one name) while 1-4 others decode messages and elements, directly or through a receiver; distinct by event history",
		Run:  runC22})
}

// regdef is a definition of structured data of the harness.
type regdef struct {
	h        *H
	name     string
	id       int
	slow     bool
	asked    int64 // Register was called
	returned int64 // and returned
	group    int
	pos      int
	generic  bool // the definition of the library's GenericSD
}

// sdid is what gets registered.
func (d *regdef) sdid() sdata.SDID {
	if d.generic {
		return sdata.GenericSD(genName(d.name)).SDID()
	}
	return d
}

// recognises tells whether the definition decodes the element.
func (d *regdef) recognises(elem string) bool {
	return !d.generic || elem == "["+d.name+"]"
}

// after tells whether d was certainly registered after e.
func (d *regdef) after(e *regdef) bool {
	return e.returned > 0 && e.returned < d.asked || d.group == e.group && d.pos > e.pos
}

// genName is an identifier without more.
type genName string

func (n genName) String() string { return string(n) }
func (n genName) IsIANA() bool   { return false }
func (n genName) GetPEN() uint64 { return 1 }

// tqElems are elements the library's own definition decodes, or must not.
var tqElems = []struct {
	text, enc string
	ok        bool
	tz, sync  bool
	acc       int // -1: none
}{
	{`[timeQuality]`, `[timeQuality]`, true, false, false, -1},
	{`[timeQuality tzKnown="1"]`, `[timeQuality tzKnown="1"]`, true, true, false, -1},
	{`[timeQuality tzKnown="0"]`, `[timeQuality]`, true, false, false, -1},
	{`[timeQuality isSynced="1" tzKnown="1"]`, `[timeQuality tzKnown="1" isSynced="1"]`, true, true, true, -1},
	{`[timeQuality tzKnown="1" isSynced="1" syncAccuracy="60000000"]`, `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="60000000"]`, true, true, true, 60000000},
	{`[timeQuality tzKnown="1" isSynced="1" syncAccuracy="0"]`, `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="0"]`, true, true, true, 0},
	{`[timeQuality tzKnown="0" isSynced="1"]`, "", false, false, false, -1},
	{`[timeQuality tzKnown="1" isSynced="0" syncAccuracy="5"]`, "", false, false, false, -1},
	{`[timeQuality tzKnown="yes"]`, "", false, false, false, -1},
	{`[timeQuality more="1"]`, "", false, false, false, -1},
	{`[timeQuality tzKnown="1" isSynced="1" syncAccuracy="near"]`, "", false, false, false, -1},
	{`[timeQuality2 tzKnown="1"]`, "", false, false, false, -1},
	{`[timeQualit]`, "", false, false, false, -1},
	{`[t]`, "", false, false, false, -1},
}

// judgeTQ checks what one of them was decoded to.
func (c *c22) judgeTQ(i int, v sdata.StructuredData, how string) {
	e := &tqElems[i]
	enc := e.enc
	q, is := v.(timequality.TimeQuality)
	if is != e.ok {
		c.h.Fail("wrong definition", "%s: %s is decoded as %T", how, e.text, v)
	}
	if is {
		if q.TzKnown != e.tz || q.IsSynced != e.sync || (q.SyncAccuracy == nil) != (e.acc < 0) || q.SyncAccuracy != nil && *q.SyncAccuracy != e.acc {
			c.h.Fail("element altered", "%s: %s is decoded as %+v", how, e.text, q)
		}
		c.h.S.Count("probe.decoded_time_quality")
	} else {
		enc = e.text
	}
	if b, err := v.Marshal5424(); err != nil || string(b) != enc {
		c.h.Fail("element altered", "%s: %s is encoded again as %s, %v", how, e.text, clip(b), err)
	}
}

type regval struct {
	def  *regdef
	text string
}

func (d *regdef) String() string               { return d.name }
func (d *regdef) IsIANA() bool                 { return false }
func (d *regdef) GetPEN() uint64               { return 1 }
func (d *regdef) MarshalText() ([]byte, error) { return []byte(d.name), nil }
func (d *regdef) Found(b []byte) (sdata.StructuredData, bool) {
	vsim.Y()
	s := string(b)
	if !strings.HasPrefix(s, "["+d.name+" ") && s != "["+d.name+"]" {
		return nil, false
	}
	if d.slow {
		d.h.S.Sleep(time.Duration(d.h.F.N(200)) * time.Microsecond)
	}
	if d.asked == 0 {
		d.h.Fail("unregistered definition", "definition %s#%d is asked to decode %s but was never registered", d.name, d.id, clip(b))
	}
	return regval{d, s}, true
}
func (v regval) SDID() sdata.SDID             { return v.def }
func (v regval) Marshal5424() ([]byte, error) { vsim.Y(); return []byte(v.text), nil }

type c22 struct {
	h    *H
	defs map[string][]*regdef
	kept map[string]*regdef // which definition was seen to decode a name
	by   map[string]string
	used []string
	n    int
}

// judge checks what an element was decoded to by a decoding that began at inv.
func (c *c22) judge(elem string, v sdata.StructuredData, inv int64, how string) {
	h := c.h
	for i := range tqElems {
		if tqElems[i].text == elem {
			c.judgeTQ(i, v, how)
			return
		}
	}
	name := strings.TrimSuffix(strings.SplitN(elem[1:], " ", 2)[0], "]")
	b, err := v.Marshal5424()
	if err != nil || string(b) != elem {
		h.Fail("element altered", "%s: %s is encoded again as %s, %v", how, clip([]byte(elem)), clip(b), err)
	}
	rv, ok := v.(regval)
	if !ok && v.SDID().String() == name {
		for _, d := range c.defs[name] {
			if d.generic && d.recognises(elem) {
				rv, ok = regval{d, elem}, true
				h.S.Count("probe.decoded_by_generic_definition")
			}
		}
		if !ok {
			h.Fail("wrong definition", "%s: %s is decoded as a %T named %q", how, clip([]byte(elem)), v, name)
		}
	}
	if !ok {
		for _, d := range c.defs[name] {
			if d.returned == 0 || d.returned >= inv || !d.recognises(elem) {
				continue
			}
			first := true // ... or another one, which does not decode it, may be the first of that name
			for _, e := range c.defs[name] {
				if e != d && !e.recognises(elem) && !e.after(d) {
					first = false
				}
			}
			if first {
				h.Fail("definition ignored", "%s: %s is decoded as %T although the definition %s#%d had been registered before", how, clip([]byte(elem)), v, name, d.id)
			}
		}
		h.S.Count("probe.decoded_generic")
		return
	}
	h.S.Count("probe.decoded_by_definition")
	if rv.def.name != name {
		h.Fail("wrong definition", "%s: %s is decoded by %s", how, clip([]byte(elem)), rv.def.name)
	}
	for _, d := range c.defs[name] {
		if d != rv.def && rv.def.after(d) {
			h.Fail("definition replaced", "%s: %s is decoded by definition %s#%d although %s#%d had been registered under that name before", how, clip([]byte(elem)), name, rv.def.id, name, d.id)
		}
	}
	if k := c.kept[name]; k != nil && k != rv.def {
		h.Fail("definition replaced", "%s: %s is decoded by definition %s#%d, earlier by %s#%d", how, clip([]byte(elem)), name, rv.def.id, name, k.id)
	}
	c.kept[name] = rv.def
}

func (c *c22) elem(g *vsim.Stream, names []string) string {
	c.n++
	if len(c.used) > 0 && g.P(1, 2) { // one met before
		return c.used[g.N(len(c.used))]
	}
	if g.P(1, 8) {
		return tqElems[g.N(len(tqElems))].text
	}
	n := names[g.N(len(names))]
	var b strings.Builder
	b.WriteString("[" + n)
	for j, m := 0, g.N(3); j < m; j++ {
		fmt.Fprintf(&b, ` k%d="%s"`, j, sdValues[g.N(len(sdValues))])
	}
	b.WriteString("]")
	c.used = append(c.used, b.String())
	return b.String()
}

func runC22(h *H) {
	c := &c22{h: h, defs: map[string][]*regdef{}, kept: map[string]*regdef{}}
	names := []string{"d1@1", "d2@1", "d1@12", "other", "x@9", "exampleSDID@32473"}
	names = names[:h.G.Range(1, len(names))]
	var tasks []*vsim.Task
	id := 0
	gens := map[string]*regdef{}
	for i, n := 0, h.G.Range(1, 3); i < n; i++ {
		var groups [][]*regdef
		for j, k := 0, h.G.Range(1, 4); j < k; j++ {
			var l []*regdef
			for x, y := 0, 1+h.G.Weighted(3, 1, 1); x < y; x++ {
				id++
				d := &regdef{h: h, name: names[h.G.N(len(names))], id: id, slow: h.G.P(1, 5), group: 10*i + j, pos: x}
				if h.G.P(1, 5) && gens[d.name] == nil {
					d.generic = true
					gens[d.name] = d
				}
				l = append(l, d)
				c.defs[d.name] = append(c.defs[d.name], d)
			}
			groups = append(groups, l)
		}
		wait := h.G.P(1, 2)
		tasks = append(tasks, h.Go(fmt.Sprintf("registrar%d", i), func() {
			for _, l := range groups {
				if wait {
					h.S.Sleep(time.Duration(h.F.N(300)) * time.Microsecond)
				}
				for _, d := range l {
					d.asked = h.S.Seq()
				}
				if len(l) == 1 && h.F.P(2, 3) {
					sdata.Register(l[0].sdid())
				} else {
					var a []sdata.SDID
					for _, d := range l {
						a = append(a, d.sdid())
					}
					sdata.RegisterGroup(a...)
				}
				for i, d := range l {
					d.returned = h.S.Seq()
					if i > 0 && l[i-1].name == d.name {
						h.S.Count("probe.group_with_one_name_twice")
					}
				}
				h.S.Ev("registered", len(l))
				h.S.Count("probe.registered")
				h.Work++
			}
		}))
	}
	all := append(append([]string{}, names...), "unknown@5", "d1", "d1@")
	parse := func(elem, how string) {
		inv := h.S.Seq()
		v, ok := sdata.Parse([]byte(elem))
		if !ok || v == nil {
			h.Fail("element not decoded", "%s: %s is not decoded", how, clip([]byte(elem)))
		}
		c.judge(elem, v, inv, how)
	}
	message := func() (string, []string) {
		var l []string
		for i, n := 0, h.F.Range(1, 3); i < n; i++ {
			l = append(l, c.elem(h.F, all))
		}
		return "<13>1 2020-01-02T03:04:05Z host app 1 - " + strings.Join(l, "") + " text", l
	}
	list := func(m syslog.MessageImmutable, l []string, how string) {
		inv := h.S.Seq()
		sd := m.StructuredData()
		if len(sd) != len(l) {
			h.Fail("element not decoded", "%s: %d elements of %s are decoded", how, len(sd), m.String())
		}
		for i, v := range sd {
			c.judge(l[i], v, inv, how)
		}
	}
	for i, n := 0, h.G.Range(1, 4); i < n; i++ {
		ops := h.G.Range(2, 8)
		tasks = append(tasks, h.Go(fmt.Sprintf("decoder%d", i), func() {
			for j := 0; j < ops; j++ {
				if h.F.P(1, 3) {
					h.S.Sleep(time.Duration(h.F.N(200)) * time.Microsecond)
				}
				if h.F.P(1, 2) {
					parse(c.elem(h.F, all), "while registering")
					continue
				}
				s, l := message()
				m, _, err := syslog.Parse([]byte(s), nil, true)
				if err != nil {
					h.Fail("message not decoded", "%s: %v", s, err)
				}
				list(m, l, "while registering")
				if h.F.P(1, 3) {
					list(m, l, "again")
				}
			}
		}))
	}
	if h.G.P(1, 3) { // a receiver decodes too
		r := newRRun(h, "stub")
		r.start()
		want := map[string][]string{}
		r.onGot = func(g *rmsg) {
			if g.err != nil {
				h.Fail("spurious error", "Receive: %v", g.err)
			}
			if l := want[g.msg.String()]; l != nil {
				list(g.msg, l, "received")
			} else {
				h.Fail("message never sent", "received %s", g.msg.String())
			}
		}
		r.consume(h.G.Range(1, 2), 0)
		p := r.connect()
		n := h.G.Range(1, 5)
		for i := 0; i < n; i++ {
			s, l := message()
			s += fmt.Sprint(i)
			want[s] = l
			p.send(r.k.frame([]byte(s)))
		}
		if !h.Wait(time.Minute, func() bool { return len(r.got) >= n }) {
			h.Fail("message not delivered", "%d of %d messages received", len(r.got), n)
		}
	}
	h.Join(time.Minute, "registering or decoding blocked", tasks...)
	// afterwards
	for i := 0; i < 4; i++ {
		parse(c.elem(h.F, all), "afterwards")
	}
	for _, n := range names {
		parse("["+n+` a="b"]`, "afterwards")
		parse("["+n+"]", "afterwards")
	}
}
