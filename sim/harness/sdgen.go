package harness

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"

	"verif.local/sim/vsim"
)

// Structured data of all sorts an application may pass, each with the text that
// must come out.

type sdMap map[string]string

func (sdMap) String() string { return "map@32473" }
func (sdMap) IsIANA() bool   { return false }
func (sdMap) GetPEN() uint64 { return 32473 }

type sdMulti map[string][]string

func (sdMulti) String() string { return "multi@1" }
func (sdMulti) IsIANA() bool   { return false }
func (sdMulti) GetPEN() uint64 { return 1 }

type sdRec struct {
	Name  string `sd5424:"name"`
	Errno int
	Opt   *uint16  `sd5424:"opt"`
	IPs   []string `sd5424:"ip"`
	Hide  string   `sd5424:"-"`
	On    bool     `sd5424:"on"`
	ID    string   `sd5424:"-"`
}

func (r sdRec) String() string { return r.ID }
func (sdRec) IsIANA() bool     { return true }
func (sdRec) GetPEN() uint64   { return 0 }

// sdBad cannot be encoded.
type sdBad struct{ late bool }

var errBadSD = errors.New("cannot be encoded")

func (sdBad) SDID() sdata.SDID             { return hsdid("bad") }
func (sdBad) Marshal5424() ([]byte, error) { vsim.Y(); return []byte("[half"), errBadSD }

var sdRaw = []string{"v", "", "with space", `q"uote`, `back\slash`, "br]acket", "é日本", "=", "[", "<12>1 - - -", `\"]`, "-", "0"}

func sdEsc(s string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `]`, `\]`).Replace(s)
}

// sdAny is some structured data, its text, and what the application may do with
// it after having logged it.
func sdAny(h *H, g *vsim.Stream) (sdata.StructuredData, string, func()) {
	h.S.Count("probe.structured_data")
	raw := func() string { return sdRaw[g.N(len(sdRaw))] }
	switch g.N(6) {
	case 0, 1:
		m := sdMap{}
		for i := g.N(4); i > 0; i-- {
			m[[]string{"b", "a", "key", "Z", "iut", "x.y"}[g.N(6)]] = raw()
		}
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		txt := "[map@32473"
		for _, k := range l {
			txt += fmt.Sprintf(` %s="%s"`, k, sdEsc(m[k]))
		}
		return syslog.GenericSD(m), txt + "]", func() {
			for _, k := range l {
				m[k] = "changed later"
			}
			m["more"] = "later"
		}
	case 2:
		m := sdMulti{}
		var l []string
		for _, k := range []string{"ip", "b"} {
			n := g.N(3)
			if n == 0 {
				continue
			}
			for i := 0; i < n; i++ {
				m[k] = append(m[k], raw())
			}
			l = append(l, k)
		}
		sort.Strings(l)
		txt := "[multi@1"
		for _, k := range l {
			for _, v := range m[k] {
				txt += fmt.Sprintf(` %s="%s"`, k, sdEsc(v))
			}
		}
		return syslog.GenericSD(m), txt + "]", func() {
			for _, k := range l {
				m[k][0] = "changed later"
			}
		}
	case 3, 4:
		r := &sdRec{Name: raw(), Errno: g.N(50) - 10, Hide: "hidden", On: g.P(1, 2), ID: []string{"rec", "origin", "x@9"}[g.N(3)]}
		txt := "[" + r.ID
		if r.Name != "" {
			txt += fmt.Sprintf(` name="%s"`, sdEsc(r.Name))
		}
		txt += fmt.Sprintf(` Errno="%d"`, r.Errno)
		if g.P(1, 2) {
			v := uint16(g.N(65536))
			r.Opt = &v
			txt += fmt.Sprintf(` opt="%d"`, v)
		}
		for i := g.N(3); i > 0; i-- {
			r.IPs = append(r.IPs, raw())
			txt += fmt.Sprintf(` ip="%s"`, sdEsc(r.IPs[len(r.IPs)-1]))
		}
		txt += fmt.Sprintf(` on="%v"]`, r.On)
		return syslog.GenericSD(*r), txt, func() {
			if r.Opt != nil {
				*r.Opt++
			}
			for i := range r.IPs {
				r.IPs[i] = "changed later"
			}
		}
	}
	q := timequality.TimeQuality{}
	txt := "[timeQuality"
	if g.P(1, 2) {
		q.TzKnown = true
		txt += ` tzKnown="1"`
		if g.P(1, 2) {
			q.IsSynced = true
			txt += ` isSynced="1"`
			if g.P(1, 2) {
				v := g.N(100000000)
				q.SyncAccuracy = &v
				txt += fmt.Sprintf(` syncAccuracy="%d"`, v)
			}
		}
	}
	return q, txt + "]", func() {
		if q.SyncAccuracy != nil {
			*q.SyncAccuracy = -1
		}
	}
}

// sds attaches structured data to a message, now and then.
func (h *H) sds(m *Msg) {
	g := h.G
	m.SD = ""
	for i := g.N(3); i >= 0; i-- {
		if g.P(1, 4) {
			s := h.hsd()
			m.sds, m.SD = append(m.sds, s), m.SD+string(s)
			continue
		}
		s, txt, after := sdAny(h, g)
		m.sds, m.SD = append(m.sds, s), m.SD+txt
		m.after = append(m.after, after)
	}
}

// reuse is what an application may do once the logging call has returned.
func (m *Msg) reuse() {
	for _, f := range m.after {
		f()
	}
	for i := range m.sds {
		m.sds[i] = hsd("[overwritten]")
	}
}
