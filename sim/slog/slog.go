// Package log stands in for the standard log package under simulation: the
// same Logger, with a mutex the simulator schedules.
package log

import (
	"fmt"
	"io"
	"log"
	"runtime"

	"verif.local/sim/ssync"
	"verif.local/sim/stime"
)

// Logger is log.Logger.
type Logger struct {
	mu     sync.Mutex
	prefix string
	flag   int
	out    io.Writer
}

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: out, prefix: prefix, flag: flag}
}

func itoa(buf *[]byte, i, wid int) { *buf = append(*buf, fmt.Sprintf("%0*d", wid, i)...) }

func (l *Logger) header(buf *[]byte, t time.Time, depth int) {
	if l.flag&log.Lmsgprefix == 0 {
		*buf = append(*buf, l.prefix...)
	}
	if l.flag&(log.Ldate|log.Ltime|log.Lmicroseconds) != 0 {
		if l.flag&log.LUTC != 0 {
			t = t.UTC()
		}
		if l.flag&log.Ldate != 0 {
			*buf = append(*buf, t.Format("2006/01/02 ")...)
		}
		if l.flag&log.Lmicroseconds != 0 {
			*buf = append(*buf, t.Format("15:04:05.000000 ")...)
		} else if l.flag&log.Ltime != 0 {
			*buf = append(*buf, t.Format("15:04:05 ")...)
		}
	}
	if l.flag&(log.Lshortfile|log.Llongfile) != 0 {
		_, file, line, ok := runtime.Caller(depth)
		if !ok {
			file, line = "???", 0
		}
		if l.flag&log.Lshortfile != 0 {
			for i := len(file) - 1; i > 0; i-- {
				if file[i] == '/' {
					file = file[i+1:]
					break
				}
			}
		}
		*buf = append(*buf, file...)
		*buf = append(*buf, ':')
		itoa(buf, line, 1)
		*buf = append(*buf, ": "...)
	}
	if l.flag&log.Lmsgprefix != 0 {
		*buf = append(*buf, l.prefix...)
	}
}

func (l *Logger) output(depth int, s string) error {
	now := time.Now()
	var buf []byte
	l.header(&buf, now, depth+2)
	buf = append(buf, s...)
	if len(s) == 0 || s[len(s)-1] != '\n' {
		buf = append(buf, '\n')
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	_, err := l.out.Write(buf)
	for i := range buf { // the buffer goes back to a pool and is used again
		buf[i] = '~'
	}
	return err
}

func (l *Logger) Output(depth int, s string) error { return l.output(depth+1, s) }
func (l *Logger) Print(v ...any)                   { l.output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any)        { l.output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)                 { l.output(2, fmt.Sprintln(v...)) }
func (l *Logger) Panic(v ...any)                   { s := fmt.Sprint(v...); l.output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...any)        { s := fmt.Sprintf(f, v...); l.output(2, s); panic(s) }
func (l *Logger) Panicln(v ...any)                 { s := fmt.Sprintln(v...); l.output(2, s); panic(s) }
func (l *Logger) Fatal(v ...any)                   { s := fmt.Sprint(v...); l.output(2, s); panic("exit: " + s) }
func (l *Logger) Fatalf(f string, v ...any) {
	s := fmt.Sprintf(f, v...)
	l.output(2, s)
	panic("exit: " + s)
}
func (l *Logger) Fatalln(v ...any)      { s := fmt.Sprintln(v...); l.output(2, s); panic("exit: " + s) }
func (l *Logger) Prefix() string        { return l.prefix }
func (l *Logger) SetPrefix(p string)    { l.prefix = p }
func (l *Logger) Flags() int            { return l.flag }
func (l *Logger) SetFlags(f int)        { l.flag = f }
func (l *Logger) Writer() io.Writer     { return l.out }
func (l *Logger) SetOutput(w io.Writer) { l.out = w }

var std = New(io.Discard, "", log.LstdFlags)

func Default() *Logger         { return std }
func Print(...any)             {}
func Printf(string, ...any)    {}
func Println(...any)           {}
func Output(int, string) error { return nil }
