package cache

import (
	"context"
	"syscall"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// realDisk is a disk cache with the file driver on an in-memory disk.
func realDisk() (*vos.Disk, func()) {
	d := vos.Use()
	undo := driver.ClearRegistry()
	filedriver.RegisterDefaultDriver()
	return d, undo
}

// C03Crash crashes anywhere while blocks are cached, then reads again.
func C03Crash() {
	d, undo := realDisk()
	defer undo()
	most := vrt.Param("faults", 30, 40)
	nth, ops := vrt.Range("crash", 0, most), 0
	d.Fault = func(op, path string) error {
		ops++
		if ops <= most && vrt.Decide(ops == nth) {
			d.Dead = true
			vrt.Cover("crash in " + op)
			return syscall.EIO
		}
		return nil
	}
	sd := anySeeds()
	srcs := sd.sources(nil)
	ds := caching.NewDiskSlicer(cacheRoot, 2)
	for i := 0; i < vrt.Param("steps", 2, 2) && !d.Dead; i++ {
		s := srcs[vrt.Choose("object", 2)]
		buf := make([]byte, 2)
		off := int64(2 * vrt.Choose("block", int(s.Len)/2))
		n, err := caching.NewCache(ds, 0, 1).WithCaching(s).ReadAt(buf, off)
		ds.Wait()
		if d.Dead {
			break
		}
		outcome(s.Len, s.is, buf, off, n, err)
	}
	d.Restart()
	vrt.Assert(caching.NewDiskSlicer(cacheRoot, 2).CheckIntegrity() == nil, "the entries of a cache survive a crash intact")
	for pass := 0; pass < 2; pass++ {
		srcs := sd.sources(func(int64) bool { return pass == 0 })
		ds := caching.NewDiskSlicer(cacheRoot, 2)
		for _, s := range srcs {
			for off := int64(0); off < s.Len; off += 2 {
				buf := make([]byte, 2)
				n, err := caching.NewCache(ds, 0, 1).WithCaching(s).ReadAt(buf, off)
				if pass == 0 && err == fake.ErrFault {
					continue
				}
				outcome(s.Len, s.is, buf, off, n, err)
			}
		}
		ds.Wait()
		vrt.Assert(d.Open() == 0, "every cache file is closed")
	}
}

// quota says that space is needed, from the answers it is given.
type quota struct {
	asked int
	most  int
	need  func() bool
}

func (q *quota) GcNeeded(st *syscall.Statfs_t) bool {
	q.asked++
	if q.asked > 20 {
		vrt.Assert(false, "garbage collection ends")
	}
	return q.need()
}

// gcCache fills a cache and puts other files next to it. It returns the
// entries and the files that are not entries.
func gcCache(d *vos.Disk) (entries, others []string, writing []driver.ObjectWriter) {
	ds := caching.NewDiskSlicer(cacheRoot, 2)
	c := caching.NewCache(ds, 0, 1)
	for _, s := range (seeds{1, 7}).sources(nil)[:vrt.Choose("objects", 3)] {
		buf := make([]byte, s.Len)
		_, err := c.WithCaching(s).ReadAt(buf, 0)
		vrt.Assert(err == nil, "a read succeeds")
	}
	ds.Wait()
	locks := 0
	for _, p := range d.Names() {
		n := d.Node(p)
		if n.Xattr[caching.XattrKey] != nil {
			entries = append(entries, p)
		} else {
			others = append(others, p)
			locks++
		}
	}
	vrt.Assert(len(entries) == locks, "each entry has a lock file")
	if len(entries) > 0 && vrt.Decide(vrt.Bool("writing")) {
		// another process is writing an entry
		before := d.Names()
		w, err := (&filedriver.Driver{}).Create(bg, entries[0])
		vrt.Assert(err == nil, "a writer is made")
		writing = append(writing, w)
		for _, p := range d.Names() {
			known := false
			for _, q := range before {
				known = known || p == q
			}
			if !known {
				others = append(others, p)
			}
		}
		vrt.Cover("writing")
	}
	extra := []string{
		cacheRoot + "/keep", cacheRoot + "/ab/keep", cacheRoot + "/v0/keep", cacheRoot + "/v0/abc/keep",
		cacheRoot + "/v1/ab/keep", "/other/v0/ab/keep", cacheRoot + "/v0/ab/cd/keep",
	}
	if k := vrt.Choose("extra", len(extra)+1); k > 0 {
		d.Put(extra[k-1], []byte("k"), nil)
		others = append(others, extra[k-1])
		vrt.Cover("extra")
	}
	return entries, others, writing
}

// C05Collect collects garbage while the threshold asks for space.
func C05Collect() {
	d, undo := realDisk()
	defer undo()
	entries, others, writing := gcCache(d)
	need := vrt.Range("need", 0, 4) // how often space is needed
	q := &quota{}
	q.need = func() bool { return vrt.Decide(q.asked <= need) }
	d.Removed = nil
	d.Put(cacheRoot+"/.there", nil, nil)
	others = append(others, cacheRoot+"/.there")
	caching.NewDiskSlicer(cacheRoot, 2).Gc(q)
	want := vrt.Concretize(need)
	if want > len(entries) {
		want = len(entries)
		vrt.Cover("exhausted")
	}
	vrt.Assert(len(d.Removed) == want, "entries are removed while space is needed and there are any")
	for _, p := range d.Removed {
		ok := false
		for _, e := range entries {
			ok = ok || p == e
		}
		vrt.Assert(ok, "only finished entries are removed")
	}
	for _, p := range others {
		vrt.Assert(d.Node(p) != nil, "other files are left alone")
	}
	for _, w := range writing {
		_, err := w.Commit()
		vrt.Assert(err == nil, "an entry being written can be finished")
		w.Abort()
	}
	vrt.Assert(d.Open() == 0, "every file is closed")
}

// C05Fault fails one operation of a collection.
func C05Fault() {
	d, undo := realDisk()
	defer undo()
	entries, others, _ := gcCache(d)
	d.Put(cacheRoot+"/.there", nil, nil)
	most := 14
	nth, ops, hit := vrt.Range("fault", 1, most), 0, ""
	d.Removed = nil
	asked := 0
	q := &quota{need: func() bool {
		asked++
		return true
	}}
	late := -1
	d.Fault = func(op, path string) error {
		ops++
		if hit == "" && ops <= most && vrt.Decide(ops == nth) {
			hit = op
			late = len(d.Removed)
			vrt.Cover("fault in " + op)
			return syscall.EIO
		}
		return nil
	}
	caching.NewDiskSlicer(cacheRoot, 2).Gc(q)
	if hit == "statfs" || hit == "remove" {
		vrt.Assert(len(d.Removed) == late, "a collection stops on errors")
	}
	if hit == "" {
		vrt.Assert(len(d.Removed) == len(entries), "all entries are removed when that much space is needed")
	}
	for _, p := range others {
		vrt.Assert(d.Node(p) != nil, "other files are left alone")
	}
}

var bg = context.Background()
