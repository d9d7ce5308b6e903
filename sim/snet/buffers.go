package net

import (
	"io"
	"net"

	simos "verif.local/sim/sos"
)

// Buffers is net.Buffers: on a simulated connection the buffers go out in one
// system call (writev), which a datagram socket turns into one datagram.
type Buffers [][]byte

var (
	_ io.WriterTo = (*Buffers)(nil)
	_ io.Reader   = (*Buffers)(nil)
)

type buffersWriter interface {
	writeBuffers(*Buffers) (int64, error)
}

// WriteTo writes the contents of the buffers to w.
func (v *Buffers) WriteTo(w io.Writer) (n int64, err error) {
	if wv, ok := w.(buffersWriter); ok {
		return wv.writeBuffers(v)
	}
	for _, b := range *v {
		nb, err := w.Write(b)
		n += int64(nb)
		if err != nil {
			v.consume(n)
			return n, err
		}
	}
	v.consume(n)
	return n, nil
}

// Read from the buffers.
func (v *Buffers) Read(p []byte) (n int, err error) {
	for len(p) > 0 && len(*v) > 0 {
		n0 := copy(p, (*v)[0])
		v.consume(int64(n0))
		p = p[n0:]
		n += n0
	}
	if len(*v) == 0 {
		err = io.EOF
	}
	return
}

func (v *Buffers) consume(n int64) {
	for len(*v) > 0 {
		ln0 := int64(len((*v)[0]))
		if ln0 > n {
			(*v)[0] = (*v)[0][n:]
			return
		}
		n -= ln0
		(*v)[0] = nil
		*v = (*v)[1:]
	}
}

// maxVec is how many buffers one system call takes.
const maxVec = 1024

func (c *conn) writeBuffers(v *Buffers) (n int64, err error) {
	for len(*v) > 0 {
		var all []byte
		k := 0
		for _, b := range *v {
			if len(b) == 0 {
				continue
			}
			all = append(all, b...)
			if k++; k == maxVec {
				break
			}
		}
		if k == 0 {
			break
		}
		if k > 1 {
			c.s.w.s.Count("probe.writev")
		}
		// the stand-in waits for room itself, so what is left was refused
		nb, err := c.Write(all)
		n += int64(nb)
		v.consume(int64(nb))
		if err != nil {
			if oe, ok := err.(*net.OpError); ok {
				oe.Op = "writev"
				if se, ok := oe.Err.(*simos.SyscallError); ok {
					se.Syscall = "writev"
				}
			}
			return n, err
		}
	}
	return n, nil
}
