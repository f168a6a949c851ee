package store

import (
	"io"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// parts makes up to max parts of any size.
func parts(max int) []*fake.Obj {
	n := vrt.Choose("parts", max+1)
	var out []*fake.Obj
	log := &fake.Log{}
	for i := 0; i < n; i++ {
		out = append(out, &fake.Obj{Len: int64(vrt.Bits("size", 40)), Seed: byte(i + 1), Log: log})
	}
	return out
}

func join(concurrent bool, ps []*fake.Obj) storage.AnonymousObject {
	var list []storage.AnonymousObject
	for _, p := range ps {
		list = append(list, p)
	}
	if concurrent {
		return storage.ConcurrentConcat(list...)
	}
	return storage.Concat(list...)
}

func total(ps []*fake.Obj) int64 {
	var n int64
	for _, p := range ps {
		n += p.Len
	}
	return n
}

// isByte says whether b is the byte at an offset of the parts laid end to end.
func isByte(ps []*fake.Obj, b byte, off int64) bool {
	pos := int64(0)
	is := false
	for _, p := range ps {
		is = vrt.Or(is, vrt.And(vrt.And(off >= pos, off-pos < p.Len), p.Log.Is(b, p.Seed, off-pos)))
		pos += p.Len
	}
	return is
}

// checkRead checks the outcome of an undisturbed read.
func checkRead(ps []*fake.Obj, buf []byte, off int64, n int, err error) {
	size := total(ps)
	if len(buf) == 0 {
		vrt.Assert(n == 0 && (err == nil || err == io.EOF), "an empty read does nothing")
		return
	}
	if vrt.Decide(off >= size) {
		vrt.Assert(n == 0 && err == io.EOF, "a read at the end reports the end")
		vrt.Cover("end")
		return
	}
	want := int64(len(buf))
	if vrt.Decide(size-off < want) {
		want = size - off
		vrt.Assert(err == nil || err == io.EOF, "a read up to the end succeeds")
		vrt.Cover("short")
	} else {
		vrt.Assert(err == nil, "a read succeeds")
		vrt.Cover("whole")
	}
	vrt.Assert(int64(n) == want, "a read returns all bytes up to the end")
	for i := 0; i < n; i++ {
		vrt.Assert(isByte(ps, buf[i], off+int64(i)), "a read returns the bytes of the parts in order")
	}
}

// S01Read reads any range of a concatenation.
func S01Read() {
	ps := parts(vrt.Param("parts", 3, 4))
	c := join(vrt.Decide(vrt.Bool("concurrent")), ps)
	vrt.Assert(c.Size() == total(ps), "a concatenation has the size of its parts")
	buf := make([]byte, vrt.Choose("len", vrt.Param("len", 4, 5)))
	off := int64(vrt.Bits("off", 43))
	n, err := c.ReadAt(buf, off)
	checkRead(ps, buf, off, n, err)
}

// S01Fault lets any one of the parts fail or read short.
func S01Fault() {
	ps := parts(3)
	c := join(vrt.Decide(vrt.Bool("concurrent")), ps)
	if len(ps) < 2 {
		return // one part is passed through as it is
	}
	bad := vrt.Choose("bad", len(ps))
	short := vrt.Choose("short", 3)
	fails := vrt.Decide(vrt.Bool("fails"))
	hit := false
	var at int64
	for i := 0; i < bad; i++ {
		at += ps[i].Len
	}
	ps[bad].OnRead = func(n int, off int64) (int, error) {
		m := n
		if short < m {
			m = short
		}
		if fails {
			hit = true
			at += off + int64(m)
			return m, fake.ErrFault
		}
		if m < n {
			hit = true
			at += off + int64(m)
		}
		return m, nil
	}
	buf := make([]byte, vrt.Choose("len", 4))
	off := int64(vrt.Bits("off", 43))
	n, err := c.ReadAt(buf, off)
	if !hit {
		checkRead(ps, buf, off, n, err)
		return
	}
	vrt.Assert(err != nil, "a failed part makes the read fail")
	if fails {
		vrt.Assert(err == fake.ErrFault, "a part's error is reported")
	}
	vrt.Assert(off+int64(n) <= at, "no byte beyond a failed part is counted")
	for i := 0; i < n; i++ {
		vrt.Assert(isByte(ps, buf[i], off+int64(i)), "the bytes counted by a failed read are right")
	}
	vrt.Cover("fault")
}

// S01Stream reads and seeks in a concatenation.
func S01Stream() {
	ps := parts(2)
	c := join(false, ps)
	stream(c, ps, vrt.Param("steps", 2, 3))
}

// stream seeks and reads in an object of the given parts and checks that it
// sees the bytes it should.
func stream(c storage.AnonymousObject, ps []*fake.Obj, steps int) {
	size := total(ps)
	pos := int64(0)
	for i := 0; i < steps; i++ {
		if vrt.Decide(vrt.Bool("seek")) {
			whence := vrt.Choose("whence", 3)
			off := vrt.I64("to")
			var target int64
			switch whence {
			case io.SeekStart:
				target = off
			case io.SeekCurrent:
				target = pos + off
			case io.SeekEnd:
				target = size + off
			}
			vrt.Assume(vrt.And(target >= 0, target <= size))
			vrt.Assume(vrt.And(off > -(1<<45), off < 1<<45))
			got, err := c.Seek(off, whence)
			vrt.Assert(err == nil && got == target, "a seek goes to its target")
			pos = target
			vrt.Cover("seek")
			continue
		}
		buf := make([]byte, vrt.Choose("len", 3))
		n, err := c.Read(buf)
		checkRead(ps, buf, pos, n, err)
		pos += int64(n)
	}
}
