// Package fake has the environment of the harnesses: objects with computed
// content, in-memory images and fault injection.
package fake

import (
	"errors"
	"io"

	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// At is the content of the object with the given seed at an offset.
func At(seed byte, off int64) byte {
	u := uint64(off)
	return seed ^ byte(u) ^ byte(u>>8) ^ byte(u>>16) ^ byte(u>>24) ^ byte(u>>32) ^ byte(u>>40)
}

// Obj is an object with computed content.
type Obj struct {
	Name   string
	Len    int64
	Seed   byte
	Closed int
	// OnRead, when set, may replace a read.
	OnRead func(n int, off int64) (int, error)
	Reads  int
	// Log, when set, makes the content of a read a reference to the read.
	Log *Log
	pos int64
}

// Log records reads. A byte read refers to its read and its index in it.
type Log struct {
	Reads []LoggedRead
}

type LoggedRead struct {
	Seed byte
	Off  int64
}

func (l *Log) fill(p []byte, seed byte, off int64) {
	k := len(l.Reads) + 1
	if k > 15 || len(p) > 16 {
		panic("too many reads for a log")
	}
	l.Reads = append(l.Reads, LoggedRead{seed, off})
	for i := range p {
		p[i] = byte(k<<4 | i)
	}
}

// Is says whether b was read at an offset of the object with the given seed.
func (l *Log) Is(b, seed byte, off int64) bool {
	k := vrt.Concretize(int(b >> 4))
	if k == 0 || k > len(l.Reads) {
		return false
	}
	r := l.Reads[k-1]
	return vrt.And(r.Seed == seed, r.Off+int64(b&15) == off)
}

var ErrFault = errors.New("injected fault")

func (o *Obj) URL() string  { return o.Name }
func (o *Obj) Size() int64  { return o.Len }
func (o *Obj) Close() error { o.Closed++; return nil }

func (o *Obj) ReadAt(p []byte, off int64) (int, error) {
	o.Reads++
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := len(p)
	var err error
	if off >= o.Len {
		return 0, io.EOF
	}
	if int64(n) > o.Len-off {
		n = int(o.Len - off)
		err = io.EOF
	}
	if o.OnRead != nil {
		m, e := o.OnRead(n, off)
		if e != nil || m < n {
			n, err = m, e
		}
	}
	if o.Log != nil {
		o.Log.fill(p[:n], o.Seed, off)
		return n, err
	}
	for i := 0; i < n; i++ {
		p[i] = At(o.Seed, off+int64(i))
	}
	return n, err
}

func (o *Obj) Read(p []byte) (int, error) {
	n, err := o.ReadAt(p, o.pos)
	o.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (o *Obj) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += o.pos
	case io.SeekEnd:
		off += o.Len
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	o.pos = off
	return off, nil
}

// Image is an in-memory ReaderAt and Writer.
type Image struct {
	Data []byte
	// Fail, when set, is asked before each read.
	Fail  func(off int64, n int) error
	Reads int
}

func (m *Image) Write(p []byte) (int, error) {
	m.Data = append(m.Data, p...)
	return len(p), nil
}

func (m *Image) ReadAt(p []byte, off int64) (int, error) {
	m.Reads++
	if m.Fail != nil {
		if err := m.Fail(off, len(p)); err != nil {
			return 0, err
		}
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(m.Data)) {
		return 0, io.EOF
	}
	n := copy(p, m.Data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// Extent places an object in an image.
type Extent struct {
	Off int64
	Obj *Obj
}

// Disc is metadata followed by file extents.
type Disc struct {
	Meta    []byte
	Extents []Extent
	Fail    func(off int64, n int) error
	Reads   int
}

func (d *Disc) ReadAt(p []byte, off int64) (int, error) {
	d.Reads++
	if d.Fail != nil {
		if err := d.Fail(off, len(p)); err != nil {
			return 0, err
		}
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off < int64(len(d.Meta)) {
		n := copy(p, d.Meta[off:])
		if n < len(p) {
			return n, io.EOF
		}
		return n, nil
	}
	for _, e := range d.Extents {
		if off >= e.Off && off-e.Off < e.Obj.Len {
			return e.Obj.ReadAt(p, off-e.Off)
		}
	}
	return 0, io.EOF
}

// Window is a ReaderAt of unlimited size in which only Data, placed at Off,
// is defined.
type Window struct {
	Off   int64
	Data  []byte
	Other []Piece
	Bad   bool // a read touched undefined bytes
}

// Piece is a further defined region of a Window.
type Piece struct {
	Off  int64
	Data []byte
}

func (w *Window) ReadAt(p []byte, off int64) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if off >= w.Off && off-w.Off < int64(len(w.Data)) {
		n := copy(p, w.Data[off-w.Off:])
		if n < len(p) {
			return n, io.EOF
		}
		return n, nil
	}
	for _, e := range w.Other {
		if off >= e.Off && off-e.Off < int64(len(e.Data)) {
			n := copy(p, e.Data[off-e.Off:])
			if n < len(p) {
				return n, io.EOF
			}
			return n, nil
		}
	}
	w.Bad = true
	return 0, io.EOF
}

// Cut is an image that ends after Len bytes.
type Cut struct {
	Data []byte
	Len  int // may be symbolic
	Hit  bool
}

func (c *Cut) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(c.Data)) {
		return 0, io.EOF
	}
	o := int(off)
	n := copy(p, c.Data[o:])
	if vrt.Decide(o+n <= c.Len) {
		if n < len(p) {
			return n, io.EOF
		}
		return n, nil
	}
	c.Hit = true
	if vrt.Decide(o >= c.Len) {
		return 0, io.EOF
	}
	return vrt.Pick(c.Len-o, 0, n), io.EOF
}

// FailWriter fails after N bytes, which is in [Lo, Hi].
type FailWriter struct {
	N      int // may be symbolic
	Lo, Hi int
	Data   []byte
	Fail   bool
}

func (w *FailWriter) Write(p []byte) (int, error) {
	if w.Fail {
		return 0, ErrFault
	}
	n := len(w.Data)
	w.Data = append(w.Data, p...)
	if n+len(p) <= w.Lo {
		return len(p), nil
	}
	if n+len(p) > w.Hi || vrt.Decide(n+len(p) > w.N) {
		w.Fail = true
		return w.N - n, ErrFault
	}
	return len(p), nil
}
