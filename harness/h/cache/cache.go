package cache

import (
	"io"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// direct is a slicer without a cache.
type direct struct {
	bsize  int64
	bad    bool // a slice outside the object was asked for
	slices int
}

type directSlice struct {
	storage.AnonymousObject
	s *direct
}

func (d *directSlice) ReadAhead() {}

func (d *direct) Bsize() int64 { return d.bsize }

func (d *direct) Slice(obj storage.Object, offset int64) caching.Slice {
	d.slices++
	d.bad = vrt.Or(d.bad, vrt.Or(offset < 0, vrt.Or(offset > obj.Size(), offset%d.bsize != 0)))
	size := obj.Size() - offset
	if d.bsize < size {
		size = d.bsize
	}
	return &directSlice{storage.Slice(obj, offset, size), d}
}

// outcome checks a read through the cache against what a direct read gives.
func outcome(size int64, is func(b byte, off int64) bool, buf []byte, off int64, n int, err error) {
	if len(buf) == 0 {
		vrt.Assert(n == 0 && (err == nil || err == io.EOF), "an empty read does nothing")
		return
	}
	if vrt.Decide(off >= size) {
		vrt.Assert(n == 0 && err == io.EOF, "a read at the end reports the end")
		vrt.Cover("end")
		return
	}
	want := int64(len(buf))
	if vrt.Decide(size-off < want) {
		want = size - off
		vrt.Assert(err == nil || err == io.EOF, "a read up to the end succeeds")
		vrt.Cover("short")
	} else {
		vrt.Assert(err == nil || err == io.EOF && off+want == size, "a read succeeds")
		vrt.Cover("whole")
	}
	vrt.Assert(int64(n) == want, "a read returns all bytes up to the end")
	for i := 0; i < n; i++ {
		vrt.Assert(is(buf[i], off+int64(i)), "a read returns the bytes of the object")
	}
}

// any block size of interest; blocks are smaller and larger than the reads
func blockSize() int64 {
	return []int64{1, 2, 3, 4096, 1 << 20}[vrt.Choose("bsize", 5)]
}

// C01Read reads any range of an object of any size in blocks.
func C01Read() {
	log := &fake.Log{}
	o := &fake.Obj{Name: "some:url", Len: int64(vrt.Bits("size", 42)), Seed: 1, Log: log}
	s := &direct{bsize: blockSize()}
	w := caching.NewCache(s, vrt.Choose("window", 2), 1).WithCaching(o)
	vrt.Assert(w.Size() == o.Len && w.URL() == o.Name, "a cached object has its size and URL")
	for i := 0; i < vrt.Param("reads", 1, 2); i++ {
		buf := make([]byte, vrt.Choose("len", vrt.Param("len", 4, 5)))
		off := int64(vrt.Bits("off", 43))
		n, err := w.ReadAt(buf, off)
		outcome(o.Len, func(b byte, off int64) bool { return log.Is(b, 1, off) }, buf, off, n, err)
	}
	vrt.Assert(!s.bad, "no read reaches beyond the object")
	vrt.Assert(w.Close() == nil && o.Closed == 1, "closing closes the object")
}

// C01Stream reads and seeks in a cached object.
func C01Stream() {
	log := &fake.Log{}
	o := &fake.Obj{Name: "some:url", Len: int64(vrt.Bits("size", 42)), Seed: 1, Log: log}
	s := &direct{bsize: []int64{2, 4096}[vrt.Choose("bsize", 2)]}
	w := caching.NewCache(s, 0, 1).WithCaching(o)
	pos := int64(0)
	for i := 0; i < vrt.Param("steps", 3, 4); i++ {
		if vrt.Decide(vrt.Bool("seek")) {
			whence := vrt.Choose("whence", 3)
			off := vrt.I64("to")
			vrt.Assume(vrt.And(off > -(1<<45), off < 1<<45))
			target := off
			switch whence {
			case io.SeekCurrent:
				target += pos
			case io.SeekEnd:
				target += o.Len
			}
			got, err := w.Seek(off, whence)
			if vrt.Decide(vrt.And(target >= 0, target <= o.Len)) {
				vrt.Assert(err == nil && got == target, "a seek goes to its target")
				vrt.Cover("seek")
			} else {
				vrt.Assert(err != nil || got >= 0, "a seek never goes below zero")
			}
			if err == nil {
				pos = got
			}
			continue
		}
		buf := make([]byte, 1+vrt.Choose("len", 2))
		n, err := w.Read(buf)
		outcome(o.Len, func(b byte, off int64) bool { return log.Is(b, 1, off) }, buf, pos, n, err)
		pos += int64(n)
	}
}

// C01Fault lets the source fail.
func C01Fault() {
	log := &fake.Log{}
	o := &fake.Obj{Name: "some:url", Len: int64(vrt.Bits("size", 42)), Seed: 1, Log: log}
	s := &direct{bsize: []int64{1, 2, 4096}[vrt.Choose("bsize", 3)]}
	w := caching.NewCache(s, 0, 1).WithCaching(o)
	at := int64(vrt.Bits("fault", 43))
	hit := false
	o.OnRead = func(n int, off int64) (int, error) {
		if vrt.Decide(vrt.And(at >= off, at < off+int64(n))) {
			hit = true
			return vrt.Concretize(int(at - off)), fake.ErrFault
		}
		return n, nil
	}
	buf := make([]byte, 1+vrt.Choose("len", 3))
	off := int64(vrt.Bits("off", 43))
	n, err := w.ReadAt(buf, off)
	is := func(b byte, off int64) bool { return log.Is(b, 1, off) }
	if !hit {
		outcome(o.Len, is, buf, off, n, err)
		return
	}
	vrt.Assert(err == fake.ErrFault, "an error of the source is reported")
	vrt.Assert(off+int64(n) <= at, "no byte beyond the error is counted")
	for i := 0; i < n; i++ {
		vrt.Assert(is(buf[i], off+int64(i)), "the bytes counted by a failed read are right")
	}
	vrt.Cover("fault")
}
