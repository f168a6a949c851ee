package cache

import (
	"path/filepath"
	"strings"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

const cacheRoot = "/verif-cache"

// writes says whether an operation belongs to writing back a block.
func writes(op string) bool {
	switch op {
	case "create", "write", "setxattr", "commit", "unlock":
		return true
	}
	return false
}

// diskFaults makes one operation of the file system fail.
type diskFaults struct {
	fs     *fake.FS
	nth    int // which one; may be symbolic
	most   int
	ops    int
	hit    string // the operation that failed
	crash  bool   // it is a crash
	failed bool   // the failure may make a read fail
}

func (d *diskFaults) fault(op, path string) error {
	d.ops++
	if d.hit != "" || d.ops > d.most || !vrt.Decide(d.ops == d.nth) {
		return nil
	}
	d.hit = op
	vrt.Cover("fault in " + op)
	if vrt.Decide(vrt.Bool("crash")) {
		d.crash, d.fs.Dead = true, true
		vrt.Cover("crash")
		return fake.ErrFault
	}
	d.failed = !writes(op)
	if op == "commit" && vrt.Decide(vrt.Bool("late")) {
		return fake.ErrLate
	}
	return fake.ErrFault
}

// foreign puts a file that does not belong there where a block is looked for.
func foreign(fs *fake.FS) {
	kind := vrt.Choose("foreign", 5)
	nth, n := vrt.Range("nth", 1, 3), 0
	fs.Missing = func(path string) *fake.File {
		if strings.HasPrefix(filepath.Base(path), ".") {
			return nil
		}
		n++
		if n > 3 || !vrt.Decide(n == nth) {
			return nil
		}
		vrt.Cover("foreign")
		switch kind {
		case 0: // without attributes
			return &fake.File{Data: []byte{0xee, 0xee}, Xattr: map[string][]byte{}}
		case 1: // of another key
			return &fake.File{Data: []byte{0xee, 0xee}, Xattr: map[string][]byte{caching.XattrKey: vrt.Bytes("key", 2), caching.XattrChecksum: make([]byte, 8)}}
		case 2: // on a file system without attributes
			return &fake.File{Data: []byte{0xee, 0xee}, Plain: true}
		case 3: // of another block
			return fs.Last
		default: // with an empty key
			return &fake.File{Data: []byte{0xee, 0xee}, Xattr: map[string][]byte{caching.XattrKey: nil}}
		}
	}
}

type seeds [2]byte

func anySeeds() seeds { return seeds{vrt.U8("seed"), vrt.U8("seed")} }

func (s seeds) sources(fails func(off int64) bool) []*source {
	return []*source{newSource("u:a", 3, s[0], fails), newSource("u:b", 2, s[1], fails)}
}

// rest checks a cache at rest: nothing is held, every entry is intact, and
// with the sources gone a read gives the right bytes or an error.
func rest(fs *fake.FS, sd seeds, tidy bool) {
	fs.Dead, fs.Fault, fs.Missing = false, nil, nil
	if tidy {
		vrt.Assert(fs.Locked == 0, "no lock is kept")
		vrt.Assert(fs.Tmp == 0, "no unfinished file is kept")
		vrt.Assert(fs.Open_ == 0, "every cache file is closed")
	}
	d := caching.NewDiskSlicer(cacheRoot, 2)
	c := caching.NewCache(d, 0, 1)
	for _, s := range sd.sources(func(int64) bool { return true }) {
		for off := int64(0); off < s.Len; off += 2 {
			buf := make([]byte, 2)
			n, err := c.WithCaching(s).ReadAt(buf, off)
			if err == fake.ErrFault {
				vrt.Cover("not cached")
				continue
			}
			vrt.Cover("cached")
			outcome(s.Len, s.is, buf, off, n, err)
		}
	}
}

// C03History reads two objects through a disk cache with one failing cache
// operation, or a crash, anywhere.
func C03History() {
	fs := fake.NewFS()
	defer fs.Install()()
	diskHistory(fs)
}

// C03Foreign has foreign files in the cache as well.
func C03Foreign() {
	fs := fake.NewFS()
	defer fs.Install()()
	foreign(fs)
	diskHistory(fs)
}

func diskHistory(fs *fake.FS) {
	most := 0
	if fs.Missing == nil {
		most = vrt.Param("faults", 20, 30)
	}
	d := &diskFaults{fs: fs, nth: vrt.Range("fault", 0, most), most: most}
	fs.Fault = d.fault
	ds := caching.NewDiskSlicer(cacheRoot, 2)
	c := caching.NewCache(ds, 0, 1)
	sd := anySeeds()
	srcs := sd.sources(nil)
	for i := 0; i < vrt.Param("steps", 2, 3); i++ {
		s := srcs[vrt.Choose("object", 2)]
		was := d.failed
		if vrt.Decide(vrt.Bool("ahead")) {
			ds.Slice(s, 0).ReadAhead()
			vrt.Cover("ahead")
		} else {
			buf := make([]byte, 1+vrt.Choose("len", 2))
			off := int64(vrt.Choose("off", int(s.Len)))
			n, err := c.WithCaching(s).ReadAt(buf, off)
			if d.crash {
				break
			}
			if d.failed && !was && err != nil {
				vrt.Cover("failed")
				vrt.Assert(err == fake.ErrFault, "the error of the cache is reported")
			} else {
				outcome(s.Len, s.is, buf, off, n, err)
			}
		}
		ds.Wait()
	}
	ds.Wait()
	if d.crash {
		// whoever held a lock is gone
		fs.Unlock()
	}
	rest(fs, sd, !d.crash)
}

// C03Source lets reads of the source fail.
func C03Source() {
	fs := fake.NewFS()
	defer fs.Install()()
	ds := caching.NewDiskSlicer(cacheRoot, 2)
	c := caching.NewCache(ds, 0, 1)
	mask := uint64(0) // of the blocks that fail
	fails := func(off int64) bool { return vrt.Decide(mask>>uint(off/2)&1 != 0) }
	sd := anySeeds()
	srcs := sd.sources(fails)
	for i := 0; i < vrt.Param("steps", 3, 4); i++ {
		s := srcs[vrt.Choose("object", 2)]
		before := s.bad
		mask = vrt.Bits("fails", 2)
		if vrt.Decide(vrt.Bool("ahead")) {
			ds.Slice(s, int64(2*vrt.Choose("block", 2))).ReadAhead()
			ds.Wait()
			continue
		}
		buf := make([]byte, 2)
		off := int64(vrt.Choose("off", int(s.Len)))
		n, err := c.WithCaching(s).ReadAt(buf, off)
		ds.Wait()
		if s.bad > before {
			vrt.Assert(err == fake.ErrFault, "an error of the source is reported")
			for j := 0; j < n; j++ {
				vrt.Assert(s.is(buf[j], off+int64(j)), "the bytes counted by a failed read are right")
			}
			vrt.Cover("fault")
			continue
		}
		outcome(s.Len, s.is, buf, off, n, err)
	}
	rest(fs, sd, true)
}

// C03Threads fills the same blocks from two processes at once.
func C03Threads() {
	fs := fake.NewFS()
	defer fs.Install()()
	type job struct {
		k   int
		off int64
	}
	sd := anySeeds()
	jobs := make([]job, 2)
	for i := range jobs {
		jobs[i] = job{vrt.Choose("object", 2), int64(vrt.Choose("off", 2))}
	}
	vrt.Preempt(vrt.Param("preempt", 1, 2))
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		j := jobs[i]
		go func() {
			defer wg.Done()
			ds := caching.NewDiskSlicer(cacheRoot, 2)
			s := sd.sources(nil)[j.k]
			buf := make([]byte, 2)
			n, err := caching.NewCache(ds, 0, 1).WithCaching(s).ReadAt(buf, j.off)
			outcome(s.Len, s.is, buf, j.off, n, err)
			ds.Wait()
		}()
	}
	wg.Wait()
	vrt.Preempt(0)
	rest(fs, sd, true)
}

// C03Integrity checks the integrity of good and damaged caches.
func C03Integrity() {
	fs := fake.NewFS()
	defer fs.Install()()
	ds := caching.NewDiskSlicer(cacheRoot, 2)
	c := caching.NewCache(ds, 0, 1)
	for _, s := range (seeds{1, 7}).sources(nil)[:1+vrt.Choose("objects", 2)] {
		buf := make([]byte, s.Len)
		n, err := c.WithCaching(s).ReadAt(buf, 0)
		outcome(s.Len, s.is, buf, 0, n, err)
	}
	ds.Wait()
	vrt.Assert(len(fs.Made) > 0, "blocks are cached")
	// a cache has more entries than a process may have open files
	fs.MaxOpen = 2
	vrt.Assert(ds.CheckIntegrity() == nil, "an intact cache is accepted")
	e := fs.Files[fs.Made[vrt.Choose("entry", len(fs.Made))]]
	damage := vrt.Choose("damage", 6)
	switch damage {
	case 0:
		e.Data = append([]byte(nil), e.Data...)
		e.Data[0] ^= byte(1 << uint(vrt.Choose("bit", 8)))
	case 1:
		e.Data = e.Data[:len(e.Data)-1]
	case 2:
		e.Data = append(append([]byte(nil), e.Data...), 0)
	case 3:
		delete(e.Xattr, caching.XattrChecksum)
	case 4:
		e.Xattr[caching.XattrChecksum] = e.Xattr[caching.XattrChecksum][:vrt.Choose("len", 8)]
	case 5:
		e.Plain = true
	}
	var err error
	vrt.Assert(!vrt.Panics(func() { err = ds.CheckIntegrity() }), "checking a damaged cache does not panic")
	vrt.Assert(err != nil, "a damaged entry is reported")
	vrt.Assert(fs.Open_ == 0, "every cache file is closed")
}
