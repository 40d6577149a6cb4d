package main

import (
	"errors"
	"io"
)

var errInjected = errors.New("injected i/o error")

// SimReader is an io.ReadSeeker that splits reads, mixes EOF with data and
// fails where the fault stream says so.
type SimReader struct {
	t      *T
	b      []byte
	off    int64
	frag   int // 0 whole, 1 random splits, 2 one byte at a time, 3 data with EOF, 4 zero-byte reads now and then
	failAt int // read-call number that fails (counting from 0), -1 never
	failSk int // seek-call number that fails, -1 never
	part   bool
	reads  int
	seeks  int
	fired  bool
	sticky bool
	dead   bool
}

func (t *T) NewReader(b []byte, frag int) *SimReader {
	return &SimReader{t: t, b: b, frag: frag, failAt: -1, failSk: -1}
}

func (r *SimReader) Read(p []byte) (int, error) {
	i := r.reads
	r.reads++
	if r.dead {
		return 0, errInjected
	}
	if i == r.failAt {
		r.fired = true
		r.dead = r.sticky
		r.t.Fault("stream-read-error")
		n := 0
		if r.part && r.off < int64(len(r.b)) && len(p) > 1 {
			n = copy(p[:1+r.t.F(len(p)-1)], r.b[r.off:])
			r.off += int64(n)
		}
		return n, errInjected
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.off >= int64(len(r.b)) {
		return 0, io.EOF
	}
	rest := r.b[r.off:]
	n := len(p)
	if n > len(rest) {
		n = len(rest)
	}
	switch r.frag {
	case 1:
		if n > 1 && r.t.F(2) == 1 {
			n = 1 + r.t.F(n-1)
			r.t.faults["short-read"]++
		}
	case 2:
		n = 1
		r.t.faults["short-read"]++
	case 4:
		if r.t.F(4) == 3 {
			r.t.faults["zero-read"]++
			return 0, nil
		}
		if n > 1 {
			n = 1 + r.t.F(n-1)
			r.t.faults["short-read"]++
		}
	}
	copy(p[:n], rest)
	r.off += int64(n)
	if r.frag == 3 && r.off == int64(len(r.b)) {
		r.t.faults["eof-with-data"]++
		return n, io.EOF
	}
	return n, nil
}

func (r *SimReader) Seek(off int64, whence int) (int64, error) {
	i := r.seeks
	r.seeks++
	if r.dead {
		return 0, errInjected
	}
	if i == r.failSk {
		r.fired = true
		r.dead = r.sticky
		r.t.Fault("stream-seek-error")
		return 0, errInjected
	}
	switch whence {
	case io.SeekStart:
		r.off = off
	case io.SeekCurrent:
		r.off += off
	case io.SeekEnd:
		r.off = int64(len(r.b)) + off
	}
	return r.off, nil
}

// SimWriter is an io.Writer that fails or comes short where planned.
type SimWriter struct {
	t      *T
	b      []byte
	writes int
	failAt int // write-call number that fails, -1 never
	part   bool
	fired  bool
	once   bool // fail once, then work again
}

func (t *T) NewWriter() *SimWriter { return &SimWriter{t: t, failAt: -1} }

func (w *SimWriter) Write(p []byte) (int, error) {
	i := w.writes
	w.writes++
	if i == w.failAt || (w.fired && !w.once) {
		if !w.fired {
			w.t.Fault("stream-write-error")
		}
		w.fired = true
		n := 0
		if w.part && len(p) > 1 {
			n = w.t.F(len(p))
		}
		w.b = append(w.b, p[:n]...)
		return n, errInjected
	}
	w.b = append(w.b, p...)
	return len(p), nil
}
