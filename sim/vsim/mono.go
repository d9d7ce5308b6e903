package vsim

import (
	"time"
	"unsafe"
)

// NowMono is the simulated clock as time.Now reads it: with a monotonic
// reading, which jumps of the wall clock do not touch.
func (s *Sim) NowMono() time.Time {
	t := s.Now()
	if !monoWorks {
		return t
	}
	return withMono(t, s.now)
}

// stdTime is time.Time as it lies in memory; checked by monoWorks.
type stdTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	since1885 = 1884*365 + 1884/4 - 1884/100 + 1884/400
	since1970 = 1969*365 + 1969/4 - 1969/100 + 1969/400
)

func withMono(t time.Time, mono time.Duration) time.Time {
	sec := t.Unix() + (since1970-since1885)*86400
	if sec < 0 || sec >= 1<<33 {
		return t
	}
	p := (*stdTime)(unsafe.Pointer(&t))
	p.wall = 1<<63 | uint64(sec)<<30 | uint64(t.Nanosecond())
	p.ext = int64(mono) + 1
	return t
}

// monoWorks: the layout of time.Time is the known one.
var monoWorks = func() bool {
	if unsafe.Sizeof(time.Time{}) != unsafe.Sizeof(stdTime{}) {
		return false
	}
	a := time.Date(2031, 3, 14, 15, 9, 26, 535897932, time.UTC)
	b := withMono(a, time.Hour)
	c := withMono(a.Add(time.Minute), time.Hour+time.Second)
	return b.Equal(a) && b.Round(0) == a && b.Format(time.RFC3339Nano) == a.Format(time.RFC3339Nano) &&
		c.Sub(b) == time.Second && c.Round(0).Sub(b) == time.Minute && b.Add(time.Second).Round(0) == a.Add(time.Second)
}()
