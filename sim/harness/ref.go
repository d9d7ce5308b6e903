package harness

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// A reference implementation of the wire format, written from RFC 5424, RFC
// 5425 and the documentation, independent of the library.

type kind int

const (
	kLF kind = iota
	kNUL
	kRFC
)

func (k kind) String() string { return [...]string{"lf", "nul", "rfc5425"}[k] }

func (k kind) transport() syslog.Transport {
	switch k {
	case kLF:
		return syslog.TransportLFEnded
	case kNUL:
		return syslog.TransportZeroEnded
	}
	return syslog.TransportRFC5425
}

func (k kind) frame(line []byte) []byte {
	switch k {
	case kLF:
		return append(append([]byte(nil), line...), '\n')
	case kNUL:
		return append(append([]byte(nil), line...), 0)
	}
	return append([]byte(strconv.Itoa(len(line))+" "), line...)
}

// split cuts a stream into whole frames and the rest.
func (k kind) split(b []byte) (frames [][]byte, rest []byte) {
	for len(b) > 0 {
		switch k {
		case kLF, kNUL:
			d := byte('\n')
			if k == kNUL {
				d = 0
			}
			i := bytes.IndexByte(b, d)
			if i < 0 {
				return frames, b
			}
			frames = append(frames, b[:i])
			b = b[i+1:]
		case kRFC:
			i := bytes.IndexByte(b, ' ')
			if i <= 0 || i > 9 {
				return frames, b
			}
			n := 0
			for _, c := range b[:i] {
				if c < '0' || c > '9' {
					return frames, b
				}
				n = n*10 + int(c-'0')
			}
			if len(b) < i+1+n {
				return frames, b
			}
			frames = append(frames, b[i+1:i+1+n])
			b = b[i+1+n:]
		}
	}
	return frames, nil
}

const tsFormat = "2006-01-02T15:04:05.999999Z07:00"

func refLine(prio int, ts, host, app, pid, msgid, sd, text string) []byte {
	s := fmt.Sprintf("<%d>1 %s %s %s %s %s %s", prio, ts, host, app, pid, msgid, sd)
	if text != "" {
		s += " " + text
	}
	return []byte(s)
}

// Msg is a message the application logs, and what must come out.
type Msg struct {
	ID       string
	Prio     int
	TS       string // exact timestamp on the wire; "" when the library reads the clock
	T0, T1   time.Time
	Host     string
	App      string
	Pid      string
	MsgID    string
	SD       string
	Text     string
	Loose    bool // text only known to end with Text (a Logger adds file:line)
	Inv, Ret int64
	How      string
	Maybe    bool // logged concurrently with End
	Node     int
	times    int                    // sent so many times in a row, if more than once
	blank    string                 // white space that is logged but not sent
	sds      []sdata.StructuredData // what SD is made of
	after    []func()
}

func (m *Msg) line(ts string) []byte {
	return refLine(m.Prio, ts, m.Host, m.App, m.Pid, m.MsgID, m.SD, m.Text)
}

// matches compares a received frame with the message.
func (m *Msg) matches(f []byte) bool {
	if m.TS != "" {
		return bytes.Equal(f, m.line(m.TS))
	}
	i := bytes.IndexByte(f, ' ')
	if i < 0 {
		return false
	}
	j := bytes.IndexByte(f[i+1:], ' ')
	if j < 0 {
		return false
	}
	ts := string(f[i+1 : i+1+j])
	if _, err := time.Parse(tsFormat, ts); err != nil {
		return false
	}
	if m.Loose {
		g := strings.SplitN(string(f), " ", 8)
		h := strings.SplitN(string(m.line(ts)), " ", 8)
		if len(g) != 8 || len(h) != 8 {
			return false
		}
		for k := 0; k < 7; k++ {
			if g[k] != h[k] {
				return false
			}
		}
		return strings.HasSuffix(g[7], h[7]) && !strings.ContainsAny(strings.TrimSuffix(g[7], h[7]), "\n\x00")
	}
	return bytes.Equal(f, m.line(ts))
}

// tsOf is the timestamp field of a frame.
func tsOf(f []byte) (time.Time, string, bool) {
	p := strings.SplitN(string(f), " ", 3)
	if len(p) < 3 {
		return time.Time{}, "", false
	}
	t, err := time.Parse(tsFormat, p[1])
	return t, p[1], err == nil
}

// cutOf tells whether b is a proper beginning of the message's frame.
func (m *Msg) cutOf(k kind, b []byte) bool {
	if m.Loose {
		return true
	}
	ts := m.TS
	if ts == "" {
		// any timestamp will do: take the one in b if it is complete
		t := b
		if k == kRFC {
			if i := bytes.IndexByte(t, ' '); i >= 0 {
				t = t[i+1:]
			} else {
				return true
			}
		}
		p := strings.SplitN(string(t), " ", 3)
		if len(p) < 3 {
			return bytes.HasPrefix([]byte(fmt.Sprintf("<%d>1", m.Prio)), []byte(p[0]))
		}
		ts = p[1]
	}
	fr := k.frame(m.line(ts))
	return len(b) < len(fr) && bytes.HasPrefix(fr, b)
}

var words = []string{"alpha", "a", "[", "]", "\"", "\\", "<34>1", "-", "é", "=", "x=\"y\"]", "日本", "0", "12 ", "\t", "%", "{}", "]]", "\\]", "[a b=\"c\"]"}

// what a text may begin with: white space, a byte order mark, what is no UTF-8
var leads = []string{" ", "\t", "  \t ", "\r", "\ufeff", "\xff\xfe", "\x7f", "\u00a0", "-", "[x]"}

// text generates a message text that holds the identifier near its start and holds no
// delimiter of the transport.
func (h *H) text(id string, k kind) string {
	var b strings.Builder
	if h.G.P(1, 12) {
		b.WriteString(leads[h.G.N(len(leads))])
	}
	b.WriteString(id)
	n := 0
	switch h.G.Weighted(4, 8, 2, 1) {
	case 0:
	case 1:
		n = h.G.Range(1, 8)
	case 2:
		n = h.G.Range(8, 80)
	case 3:
		n = h.G.Range(80, 500)
	}
	for i := 0; i < n; i++ {
		if !h.G.P(1, 6) {
			b.WriteByte(' ')
		}
		w := words[h.G.N(len(words))]
		b.WriteString(w)
		if k == kRFC && h.G.P(1, 12) {
			b.WriteString([]string{"\n", "\x00", "\r\n"}[h.G.N(3)])
		}
		if k == kLF && h.G.P(1, 20) {
			b.WriteString("\x00")
		}
		if k == kNUL && h.G.P(1, 20) {
			b.WriteString("\n")
		}
	}
	b.WriteString(".")
	return b.String()
}

func clip(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%q", b)
}
