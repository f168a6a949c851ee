package cache

import (
	"sync"

	"golang.org/x/sync/semaphore"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// ahead is a slicer without a cache whose read-aheads last until they are let
// go.
type ahead struct {
	direct
	mu      sync.Mutex
	started []int64 // positions of the read-aheads, in the order they start
	flying  int
	most    int
	wrong   bool // a read-ahead of another object
	obj     storage.Object
	release chan bool
}

type aheadSlice struct {
	storage.AnonymousObject
	s   *ahead
	obj storage.Object
	off int64
}

func (s *ahead) Slice(obj storage.Object, offset int64) caching.Slice {
	s.mu.Lock()
	defer s.mu.Unlock()
	return &aheadSlice{s.direct.Slice(obj, offset), s, obj, offset}
}

func (a *aheadSlice) ReadAhead() {
	s := a.s
	s.mu.Lock()
	s.started = append(s.started, a.off)
	s.flying++
	if s.flying > s.most {
		s.most = s.flying
	}
	s.wrong = s.wrong || a.obj != s.obj
	s.mu.Unlock()
	<-s.release
	s.mu.Lock()
	s.flying--
	s.mu.Unlock()
}

// run follows the reads of one object.
type run struct {
	s      *ahead
	tokens int
	window int64
	end    int64   // where the last read ended
	seen   []int64 // positions asked for in the current sequential run
	known  int     // read-aheads looked at
}

// read checks the read-aheads that a read has caused.
func (r *run) read(off, n int64) {
	vrt.Settle()
	s := r.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if vrt.Decide(r.end != off) {
		r.seen = nil
	}
	r.end = off + n
	first := off / s.bsize
	for _, at := range s.started[r.known:] {
		vrt.Assert(at%s.bsize == 0, "a read-ahead asks for a whole block")
		vrt.Assert(vrt.And(at >= 0, at < s.obj.Size()), "a read-ahead asks for a block of the object")
		vrt.Assert(at/s.bsize > first, "a read-ahead asks for a later block")
		vrt.Assert(at/s.bsize <= first+r.window, "a read-ahead stays within the window")
		for _, o := range r.seen {
			vrt.Assert(o != at, "no block is asked for twice in a sequential run")
		}
		r.seen = append(r.seen, at)
		vrt.Cover("read-ahead")
	}
	r.known = len(s.started)
	vrt.Assert(s.most <= r.tokens, "no more read-aheads than tokens are in flight")
	vrt.Assert(!s.wrong, "a read-ahead reads the object itself")
}

// land lets some of the read-aheads in flight finish.
func (r *run) land() {
	r.s.mu.Lock()
	n := r.s.flying
	r.s.mu.Unlock()
	for k := vrt.Choose("finish", n+1); k > 0; k-- {
		r.s.release <- true
		vrt.Cover("finished")
	}
	vrt.Settle()
}

// C04Update tells the controller of any reads.
func C04Update() {
	s := &ahead{release: make(chan bool)}
	s.bsize = []int64{1, 3, 4096}[vrt.Choose("bsize", 3)]
	o := &fake.Obj{Name: "some:url", Len: int64(vrt.Bits("size", 42))}
	s.obj = o
	r := &run{s: s, tokens: 1 + vrt.Choose("tokens", vrt.Param("tokens", 2, 3)), window: int64(vrt.Choose("window", vrt.Param("window", 3, 4)))}
	sem := semaphore.NewWeighted(int64(r.tokens))
	c := caching.NewReadAheadController(int(r.window), sem, s, o)
	for i := 0; i < vrt.Param("steps", 3, 4); i++ {
		off, n := int64(vrt.Bits("off", 42)), int64(vrt.Bits("n", 40))
		vrt.Assume(off < o.Len)
		vrt.Assume(n <= o.Len-off)
		c.Update(off, int(n))
		r.read(off, n)
		r.land()
	}
	close(s.release)
	vrt.Settle()
	vrt.Assert(sem.TryAcquire(int64(r.tokens)), "every token is returned")
	vrt.Assert(vrt.Others() == 0, "no read-ahead is left behind")
}

// C04Cache reads through the cache while read-aheads last.
func C04Cache() {
	s := &ahead{release: make(chan bool)}
	s.bsize = []int64{2, 3}[vrt.Choose("bsize", 2)]
	log := &fake.Log{}
	o := &fake.Obj{Name: "some:url", Len: int64(vrt.Bits("size", 42)), Seed: 1, Log: log}
	s.obj = o
	r := &run{s: s, tokens: 1 + vrt.Choose("tokens", 2), window: 1 + int64(vrt.Choose("window", 2))}
	w := caching.NewCache(s, int(r.window), int64(r.tokens)).WithCaching(o)
	off := int64(vrt.Bits("off", 42))
	vrt.Assume(off < o.Len)
	for i := 0; i < vrt.Param("steps", 2, 3); i++ {
		buf := make([]byte, 1+vrt.Choose("len", 3))
		n, err := w.ReadAt(buf, off)
		outcome(o.Len, func(b byte, off int64) bool { return log.Is(b, 1, off) }, buf, off, n, err)
		r.read(off, int64(n))
		off += int64(n)
		if vrt.Decide(vrt.Bool("finish")) {
			r.land()
		}
	}
	vrt.Assert(!s.bad, "no block outside the object is asked for")
	close(s.release)
	vrt.Settle()
	vrt.Assert(vrt.Others() == 0, "no read-ahead is left behind")
}

// C04Threads reads one object from two threads.
func C04Threads() {
	s := &ahead{release: make(chan bool)}
	s.bsize = 2
	o := &fake.Obj{Name: "some:url", Len: int64(1 + vrt.Choose("size", 6)), Seed: 1}
	s.obj = o
	tokens := 1 + vrt.Choose("tokens", 2)
	w := caching.NewCache(s, 1+vrt.Choose("window", 2), int64(tokens)).WithCaching(o)
	offs := []int64{int64(vrt.Choose("off", int(o.Len))), int64(vrt.Choose("off", int(o.Len)))}
	close(s.release)
	vrt.Preempt(vrt.Param("preempt", 1, 2))
	var wg sync.WaitGroup
	for i := range offs {
		off := offs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			buf := make([]byte, 2)
			n, err := w.ReadAt(buf, off)
			outcome(o.Len, func(b byte, off int64) bool { return b == fake.At(1, off) }, buf, off, n, err)
		}()
	}
	wg.Wait()
	vrt.Preempt(0)
	vrt.Settle()
	for _, at := range s.started {
		vrt.Assert(at%s.bsize == 0 && at >= 0 && at < o.Len, "a read-ahead asks for a block of the object")
		vrt.Cover("read-ahead")
	}
	vrt.Assert(s.most <= tokens, "no more read-aheads than tokens are in flight")
	vrt.Assert(!s.wrong && !s.bad, "a read-ahead reads the object itself")
	vrt.Assert(vrt.Others() == 0, "no read-ahead is left behind")
}
