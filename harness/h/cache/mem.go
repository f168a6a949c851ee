package cache

import (
	"sync"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// source is an object whose reads may fail.
type source struct {
	fake.Obj
	mu    sync.Mutex
	fails func(off int64) bool
	bad   int // failed reads
	out   bool
}

func newSource(name string, size int64, seed byte, fails func(off int64) bool) *source {
	s := &source{fails: fails}
	s.Name, s.Len, s.Seed = name, size, seed
	return s
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.out = s.out || off < 0 || off+int64(len(p)) > s.Len
	if s.fails != nil && s.fails(off) {
		s.bad++
		// a failed read may scribble on the buffer
		for i := range p {
			p[i] = 0xee
		}
		return 0, fake.ErrFault
	}
	return s.Obj.ReadAt(p, off)
}

func (s *source) is(b byte, off int64) bool { return b == fake.At(s.Seed, off) }

// names that look like the names of blocks of each other
func sourceName(i int) string {
	return []string{"u:a", "u:a[0,2)", "u:"}[i]
}

func memCache(bcount int64, window int) (caching.Slicer, caching.Cache) {
	s, err := caching.NewMemorySlicer(2, bcount)
	vrt.Assert(err == nil, "a memory cache is made")
	return s, caching.NewCache(s, window, 1)
}

// C02History reads two objects through a small cache, with evictions, read
// ahead and source errors in any order.
func C02History() {
	slicer, c := memCache(int64(1+vrt.Choose("blocks", 2)), 0)
	mask := uint64(0) // of the blocks that fail
	fails := func(off int64) bool { return vrt.Decide(mask>>uint(off/2)&1 != 0) }
	srcs := []*source{newSource(sourceName(0), 3, vrt.U8("seed"), fails), newSource(sourceName(1), 4, vrt.U8("seed"), fails)}
	objs := []storage.Object{c.WithCaching(srcs[0]), c.WithCaching(srcs[1])}
	for i := 0; i < vrt.Param("steps", 3, 4); i++ {
		k := vrt.Choose("object", 2)
		s := srcs[k]
		before := s.bad
		mask = vrt.Bits("fails", 2)
		if vrt.Decide(vrt.Bool("ahead")) {
			slicer.Slice(s, int64(2*vrt.Choose("block", 2))).ReadAhead()
			vrt.Cover("ahead")
			continue
		}
		buf := make([]byte, 1+vrt.Choose("len", 2))
		off := int64(vrt.Choose("off", int(s.Len)))
		n, err := objs[k].ReadAt(buf, off)
		if s.bad > before {
			vrt.Assert(err == fake.ErrFault, "an error of the source is reported")
			for j := 0; j < n; j++ {
				vrt.Assert(s.is(buf[j], off+int64(j)), "the bytes counted by a failed read are right")
			}
			vrt.Cover("fault")
			continue
		}
		outcome(s.Len, s.is, buf, off, n, err)
	}
	vrt.Assert(!srcs[0].out && !srcs[1].out, "no read of the source reaches beyond the object")
}

// C02Threads reads from two threads through a cache of one or two blocks,
// with one source error anywhere.
func C02Threads() {
	slicer, c := memCache(int64(1+vrt.Choose("blocks", 2)), 0)
	nth := vrt.Range("fault", 0, 3)
	reads := 0
	var mu sync.Mutex
	fails := func(off int64) bool {
		mu.Lock()
		defer mu.Unlock()
		reads++
		return vrt.Decide(reads == nth)
	}
	srcs := []*source{newSource(sourceName(0), 3, vrt.U8("seed"), fails), newSource(sourceName(1), 4, vrt.U8("seed"), fails)}
	type job struct {
		k    int
		off  int64
		len  int
		want bool
	}
	jobs := make([]job, 2)
	for i := range jobs {
		jobs[i] = job{k: vrt.Choose("object", 2), off: int64(vrt.Choose("off", 3)), len: 1 + vrt.Choose("len", 2)}
	}
	ahead := vrt.Choose("ahead", 2)
	vrt.Preempt(vrt.Param("preempt", 1, 2))
	var wg sync.WaitGroup
	faults := 0
	for i := range jobs {
		wg.Add(1)
		j := jobs[i]
		go func() {
			defer wg.Done()
			s := srcs[j.k]
			o := c.WithCaching(s)
			buf := make([]byte, j.len)
			n, err := o.ReadAt(buf, j.off)
			if err == fake.ErrFault {
				mu.Lock()
				faults++
				mu.Unlock()
				for k := 0; k < n; k++ {
					vrt.Assert(s.is(buf[k], j.off+int64(k)), "the bytes counted by a failed read are right")
				}
				vrt.Cover("fault")
				return
			}
			outcome(s.Len, s.is, buf, j.off, n, err)
		}()
	}
	if ahead == 1 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slicer.Slice(srcs[0], 0).ReadAhead()
		}()
	}
	wg.Wait()
	vrt.Preempt(0)
	vrt.Assert(faults == 0 || srcs[0].bad+srcs[1].bad > 0, "no error comes from nowhere")
	// the source has recovered
	s := srcs[vrt.Choose("again", 2)]
	nth = -1
	buf := make([]byte, 2)
	n, err := c.WithCaching(s).ReadAt(buf, 0)
	outcome(s.Len, s.is, buf, 0, n, err)
}

// C02Names gives blocks of differently named objects different content.
func C02Names() {
	_, c := memCache(2, 0)
	var srcs []*source
	for i := 0; i < 2; i++ {
		srcs = append(srcs, newSource(vrt.String("url", vrt.Choose("len", vrt.Param("url", 4, 6))), int64(1+vrt.Choose("size", 3)), vrt.U8("seed"), nil))
	}
	vrt.Assume(!vrt.EqString(srcs[0].Name, srcs[1].Name))
	for i := 0; i < 3; i++ {
		s := srcs[i%2]
		buf := make([]byte, s.Len)
		n, err := c.WithCaching(s).ReadAt(buf, 0)
		outcome(s.Len, s.is, buf, 0, n, err)
	}
}
