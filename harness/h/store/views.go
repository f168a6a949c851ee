package store

import (
	"context"
	"io"

	"github.com/NVIDIA/vdisc/pkg/storage"
	datadriver "github.com/NVIDIA/vdisc/pkg/storage/data"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"
	zerodriver "github.com/NVIDIA/vdisc/pkg/storage/zero"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

var bg = context.Background()

// view is an object with the bytes it should have.
type view struct {
	o    driver.AnonymousObject
	size int64
	is   func(b byte, off int64) bool
}

func (v *view) read(buf []byte, off int64, n int, err error) {
	if len(buf) == 0 {
		vrt.Assert(n == 0 && (err == nil || err == io.EOF), "an empty read does nothing")
		return
	}
	if vrt.Decide(off >= v.size) {
		vrt.Assert(n == 0 && err == io.EOF, "a read at the end reports the end")
		vrt.Cover("end")
		return
	}
	want := int64(len(buf))
	if vrt.Decide(v.size-off < want) {
		want = v.size - off
		vrt.Assert(err == nil || err == io.EOF, "a read up to the end succeeds")
		vrt.Cover("short")
	} else {
		vrt.Assert(err == nil || err == io.EOF && off+want == v.size, "the end is reported at the end only")
		vrt.Cover("whole")
	}
	vrt.Assert(int64(n) == want, "a read returns all bytes up to the end")
	for i := 0; i < n; i++ {
		vrt.Assert(v.is(buf[i], off+int64(i)), "a read returns the bytes of the range")
	}
}

// use reads and seeks any number of times, up to steps.
func (v *view) use(steps, len int) {
	vrt.Assert(v.o.Size() == v.size, "an object has the size of its range")
	pos := int64(0)
	for i := 0; i < steps; i++ {
		switch vrt.Choose("op", 3) {
		case 0:
			buf := make([]byte, vrt.Choose("len", len))
			off := int64(vrt.Bits("off", 44))
			n, err := v.o.ReadAt(buf, off)
			v.read(buf, off, n, err)
		case 1:
			buf := make([]byte, 1+vrt.Choose("len", len-1))
			n, err := v.o.Read(buf)
			v.read(buf, pos, n, err)
			pos += int64(n)
		case 2:
			whence := vrt.Choose("whence", 3)
			off := vrt.I64("to")
			vrt.Assume(vrt.And(off > -(1<<45), off < 1<<45))
			target := off
			switch whence {
			case io.SeekCurrent:
				target += pos
			case io.SeekEnd:
				target += v.size
			}
			got, err := v.o.Seek(off, whence)
			if vrt.Decide(vrt.And(target >= 0, target <= v.size)) {
				vrt.Assert(err == nil && got == target, "a seek goes to its target")
				vrt.Cover("seek")
			} else {
				vrt.Assert(err != nil || got >= 0, "a seek never goes below zero")
			}
			if err == nil {
				pos = got
			}
		}
	}
	vrt.Assert(v.o.Close() == nil, "an object closes")
}

func logged(len int64) (*fake.Obj, *fake.Log) {
	log := &fake.Log{}
	return &fake.Obj{Len: len, Seed: 1, Log: log}, log
}

// S02Slice reads and seeks in any slice, with or without a URL.
func S02Slice() {
	o, log := logged(int64(vrt.Bits("size", 42)))
	base, n := int64(vrt.Bits("base", 42)), int64(vrt.Bits("n", 42))
	vrt.Assume(base+n <= o.Len)
	var s driver.AnonymousObject = storage.Slice(o, base, n)
	if vrt.Choose("url", 2) == 1 {
		w := storage.WithURL(s, "some:url")
		vrt.Assert(w.URL() == "some:url", "an object has the URL it was given")
		s = w
	}
	v := &view{s, n, func(b byte, off int64) bool { return log.Is(b, 1, base+off) }}
	v.use(vrt.Param("steps", 3, 4), 4)
	vrt.Assert(o.Closed == 1, "closing a view closes the object")
}

// S02Nested reads in a slice of a slice.
func S02Nested() {
	o, log := logged(int64(vrt.Bits("size", 42)))
	b1, n1 := int64(vrt.Bits("base", 42)), int64(vrt.Bits("n", 42))
	b2, n2 := int64(vrt.Bits("base", 42)), int64(vrt.Bits("n", 42))
	vrt.Assume(vrt.And(b1+n1 <= o.Len, b2+n2 <= n1))
	v := &view{storage.Slice(storage.Slice(o, b1, n1), b2, n2), n2, func(b byte, off int64) bool { return log.Is(b, 1, b1+b2+off) }}
	v.use(vrt.Param("steps", 2, 3), 4)
}

// S02Fault lets the object under a slice fail.
func S02Fault() {
	o, log := logged(int64(vrt.Bits("size", 42)))
	base, n := int64(vrt.Bits("base", 42)), int64(vrt.Bits("n", 42))
	vrt.Assume(base+n <= o.Len)
	s := storage.Slice(o, base, n)
	got := 0
	o.OnRead = func(n int, off int64) (int, error) {
		got = vrt.Choose("got", n+1)
		return got, fake.ErrFault
	}
	buf := make([]byte, 1+vrt.Choose("len", 3))
	off := int64(vrt.Bits("off", 43))
	vrt.Assume(off < n)
	var m int
	var err error
	if vrt.Choose("at", 2) == 0 {
		m, err = s.ReadAt(buf, off)
	} else {
		s.Seek(off, io.SeekStart)
		m, err = s.Read(buf)
		pos, _ := s.Seek(0, io.SeekCurrent)
		vrt.Assert(pos == off+int64(m), "a failed read moves by what it returned")
	}
	vrt.Assert(m == got && err == fake.ErrFault, "an error of the object is reported")
	for i := 0; i < m; i++ {
		vrt.Assert(log.Is(buf[i], 1, base+off+int64(i)), "the bytes of a failed read are right")
	}
	vrt.Cover("fault")
}

// S02Zero reads and seeks in a zero object of any size.
func S02Zero() {
	digits := vrt.String("digits", 1+vrt.Choose("digits", vrt.Param("digits", 4, 12)))
	size := int64(0)
	for i := 0; i < len(digits); i++ {
		vrt.Assume(vrt.And(digits[i] >= '0', digits[i] <= '9'))
		size = size*10 + int64(digits[i]-'0')
	}
	d := &zerodriver.Driver{}
	url := "zero:" + digits
	fi, err := d.Stat(bg, url)
	vrt.Assert(err == nil && fi.Size() == size && !fi.IsDir(), "a zero object has the size in its URL")
	o, err := d.Open(bg, url, -1)
	vrt.Assert(err == nil, "a zero object opens")
	vrt.Assert(o.URL() == url, "an object has the URL it was opened with")
	v := &view{o, size, func(b byte, off int64) bool { return b == 0 }}
	for i := range scratch {
		scratch[i] = 1
	}
	n, err := o.ReadAt(scratch[:], 0)
	v.read(scratch[:], 0, n, err)
	v.use(vrt.Param("steps", 2, 3), 4)
}

var scratch [3]byte

// content is an object's content kept in memory.
func content(data []byte) func(b byte, off int64) bool {
	return func(b byte, off int64) bool {
		is := false
		for i := range data {
			is = vrt.Or(is, vrt.And(off == int64(i), b == data[i]))
		}
		return is
	}
}

// S02Memory reads and seeks in an in-memory object.
func S02Memory() {
	d := ramdriver.NewDriver()
	data := vrt.Bytes("data", vrt.Choose("size", 4))
	w, err := d.Create(bg, "ram:/a")
	vrt.Assert(err == nil, "an object is created")
	w.Write(data)
	_, err = w.Commit()
	vrt.Assert(err == nil, "an object is committed")
	declared := int64(-1)
	if vrt.Choose("declared", 2) == 1 {
		declared = int64(vrt.Choose("declare", len(data)+1))
		data = data[:declared]
	}
	o, err := d.Open(bg, "ram:/a", declared)
	vrt.Assert(err == nil, "an object opens")
	v := &view{o, int64(len(data)), content(data)}
	v.use(vrt.Param("steps", 2, 3), 3)
}

// S02Data reads and seeks in a data URL made of any bytes.
func S02Data() {
	d := &datadriver.Driver{}
	data := vrt.Bytes("data", vrt.Choose("size", vrt.Param("bytes", 4, 5)))
	w, err := d.Create(bg, "data:,")
	vrt.Assert(err == nil, "an object is created")
	w.Write(data)
	ci, err := w.Commit()
	vrt.Assert(err == nil, "an object is committed")
	url := ci.ObjectURL()
	fi, err := d.Stat(bg, url)
	vrt.Assert(err == nil && fi.Size() == int64(len(data)), "a data object has the size of its bytes")
	o, err := d.Open(bg, url, -1)
	vrt.Assert(err == nil, "an object opens")
	v := &view{o, int64(len(data)), content(data)}
	v.use(vrt.Param("steps", 2, 3), 3)
}

// S02Escaped opens a data URL of any plain and escaped characters.
func S02Escaped() {
	d := &datadriver.Driver{}
	text := "data:,"
	var data []byte
	for i := 0; i < 2; i++ {
		if vrt.Choose("escaped", 2) == 1 {
			h := vrt.Bytes("hex", 2)
			text += "%" + string(h)
			b := byte(0)
			for _, c := range h {
				vrt.Assume(vrt.Or(vrt.And(c >= '0', c <= '9'), vrt.Or(vrt.And(c >= 'a', c <= 'f'), vrt.And(c >= 'A', c <= 'F'))))
				b = b<<4 | vrt.IteU8(c <= '9', c-'0', vrt.IteU8(c <= 'F', c-'A'+10, c-'a'+10))
			}
			data = append(data, b)
			continue
		}
		c := vrt.U8("char")
		vrt.Assume(vrt.Or(vrt.And(c >= '0', c <= '9'), vrt.Or(vrt.And(c >= 'a', c <= 'z'), vrt.And(c >= 'A', c <= 'Z'))))
		text += string([]byte{c})
		data = append(data, c)
	}
	o, err := d.Open(bg, text, -1)
	vrt.Assert(err == nil, "an object opens")
	v := &view{o, int64(len(data)), content(data)}
	v.use(1, 4)
}
