// Package file has the harnesses of the file driver. The driver runs on the
// in-memory file system of package vos.
package file

import (
	"context"
	"io"
	"os"
	"syscall"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

const dest = "/d/x/dest"

var bg = context.Background()

// files is one failing operation, or a crash, anywhere.
type files struct {
	d     *vos.Disk
	nth   int // may be symbolic
	most  int
	ops   int
	hit   string
	crash bool
}

func (f *files) fault(op, path string) error {
	f.ops++
	if f.hit != "" || f.ops > f.most || !vrt.Decide(f.ops == f.nth) {
		return nil
	}
	f.hit = op
	vrt.Cover("fault in " + op)
	if vrt.Decide(vrt.Bool("crash")) {
		f.crash, f.d.Dead = true, true
		vrt.Cover("crash")
	}
	return syscall.EIO
}

// content is what a file holds.
type content struct {
	there bool
	data  []byte
	attr  []byte
}

func look(d *vos.Disk, path string) content {
	n := d.Node(path)
	if n == nil {
		return content{}
	}
	return content{true, n.Data, n.Xattr["user.a"]}
}

func (a content) same(b content) bool {
	if a.there != b.there {
		return false
	}
	return vrt.And(vrt.EqBytes(a.data, b.data), vrt.EqBytes(a.attr, b.attr))
}

// old may put a file at the destination.
func old(d *vos.Disk) content {
	if vrt.Decide(vrt.Bool("old")) {
		d.Put(dest, vrt.Bytes("olddata", 2), map[string][]byte{"user.a": vrt.Bytes("oldattr", 1)})
	} else if vrt.Decide(vrt.Bool("dir")) {
		d.Put("/d/x/other", []byte("o"), nil)
	}
	return look(d, dest)
}

// S04Commit writes an object, with one failing operation or a crash anywhere.
func S04Commit() {
	d := vos.Use()
	was := old(d)
	f := &files{d: d, most: vrt.Param("faults", 14, 20)}
	f.nth = vrt.Range("fault", 0, f.most)
	d.Fault = f.fault
	drv := &filedriver.Driver{}
	want := content{there: true}
	attr := vrt.Decide(vrt.Bool("attr"))
	commit := vrt.Decide(vrt.Bool("commit"))
	k := vrt.Choose("writes", vrt.Param("writes", 3, 4))
	committed, failed := false, false

	func() {
		w, err := drv.Create(bg, dest)
		if err != nil {
			failed = true
			return
		}
		defer w.Abort()
		for i := 0; i < k; i++ {
			p := vrt.Bytes("data", 1+vrt.Choose("len", 2))
			n, err := w.Write(p)
			if err != nil {
				failed = true
				return
			}
			vrt.Assert(n == len(p), "a write that succeeds is complete")
			want.data = append(want.data, p...)
		}
		if attr {
			want.attr = vrt.Bytes("attr", 1)
			if err := w.(driver.XattrObjectWriter).SetXattr("user.a", want.attr); err != nil {
				failed = true
				return
			}
		}
		if !commit {
			return
		}
		if !f.crash {
			vrt.Assert(look(d, dest).same(was), "nothing is visible before the commit")
		}
		info, err := w.Commit()
		if err != nil {
			failed = true
			return
		}
		committed = true
		vrt.Assert(info != nil && info.ObjectURL() == dest, "a commit reports the URL of the object")
	}()

	if f.crash {
		d.Restart()
		now := look(d, dest)
		vrt.Assert(vrt.Or(now.same(was), now.same(want)), "after a crash the destination holds the old or the new object")
		if committed {
			vrt.Assert(now.same(want), "what was committed survives a crash")
			vrt.Cover("crash after commit")
		}
		return
	}
	now := look(d, dest)
	if committed {
		vrt.Assert(now.same(want), "a committed object holds what was written")
		vrt.Cover("committed")
	} else {
		vrt.Assert(now.same(was), "a failed or aborted write leaves the destination alone")
		vrt.Cover("not committed")
	}
	vrt.Assert(failed == (f.hit != "") || f.hit == "remove" || f.hit == "close", "a failing operation is reported")
	for _, p := range d.Names() {
		vrt.Assert(p == dest || p == "/d/x/other" || f.hit == "remove", "no temporary file is left")
	}
	vrt.Assert(d.Open() == 0, "every file is closed")
	// a crash now loses nothing
	d.Restart()
	vrt.Assert(look(d, dest).same(now), "what is visible is durable")
}

// S04Two has two writers of one destination.
func S04Two() {
	d := vos.Use()
	was := old(d)
	drv := &filedriver.Driver{}
	type writer struct {
		w    driver.ObjectWriter
		want content
		done bool
	}
	ws := []*writer{{}, {}}
	for _, w := range ws {
		var err error
		w.w, err = drv.Create(bg, dest)
		vrt.Assert(err == nil, "a writer is made")
	}
	for i := 0; i < vrt.Param("steps", 4, 5); i++ {
		w := ws[vrt.Choose("writer", 2)]
		if w.done {
			continue
		}
		switch vrt.Choose("op", 3) {
		case 0:
			p := vrt.Bytes("data", 1)
			n, err := w.w.Write(p)
			vrt.Assert(err == nil && n == 1, "a write succeeds")
			w.want.data = append(w.want.data, p...)
		case 1:
			_, err := w.w.Commit()
			vrt.Assert(err == nil, "a commit succeeds")
			w.want.there, w.done = true, true
			was = w.want
			w.w.Abort()
			vrt.Cover("commit")
		case 2:
			w.w.Abort()
			w.done = true
			_, err := w.w.Commit()
			vrt.Assert(err != nil, "an aborted write cannot be committed")
			vrt.Cover("abort")
		}
		vrt.Assert(look(d, dest).same(was), "the destination holds what was committed last")
	}
	for _, w := range ws {
		if !w.done {
			w.w.Abort()
		}
	}
	vrt.Assert(look(d, dest).same(was), "the destination holds what was committed last")
	for _, p := range d.Names() {
		vrt.Assert(p == dest || p == "/d/x/other", "no temporary file is left")
	}
	vrt.Assert(d.Open() == 0, "every file is closed")
}

// S04Read opens, reads, lists and removes with one failing operation.
func S04Read() {
	d := vos.Use()
	was := old(d)
	f := &files{d: d, most: 8}
	f.nth = vrt.Range("fault", 0, f.most)
	drv := &filedriver.Driver{}
	d.Fault = f.fault
	switch vrt.Choose("op", 4) {
	case 0:
		o, err := drv.Open(bg, dest, -1)
		if err != nil {
			vrt.Assert(!was.there == os.IsNotExist(err) || f.hit != "", "only a missing object is reported as missing")
			vrt.Assert(!was.there || f.hit != "", "an object opens")
			break
		}
		vrt.Assert(was.there, "what is not there does not open")
		vrt.Assert(o.Size() == int64(len(was.data)), "an object has its size")
		buf := make([]byte, 1+vrt.Choose("len", 3))
		off := vrt.Choose("off", 3)
		n, err := o.ReadAt(buf, int64(off))
		if err == nil || err == io.EOF {
			want := was.data[off:]
			if len(want) > len(buf) {
				want = want[:len(buf)]
			}
			vrt.Assert(vrt.EqBytes(buf[:n], want), "a read returns the bytes of the object")
			vrt.Assert(n == len(buf) || err == io.EOF, "a short read reports the end")
			vrt.Cover("read")
		} else {
			vrt.Assert(f.hit != "", "a read succeeds")
		}
		v, err := o.(driver.XattrObject).GetXattr("user.a")
		if err == nil {
			vrt.Assert(vrt.EqBytes(v, was.attr), "an attribute has its value")
		} else {
			vrt.Assert(f.hit != "", "an attribute is read")
		}
		_, err = o.(driver.XattrObject).GetXattr("user.b")
		vrt.Assert(err != nil, "a missing attribute is reported")
		o.Close()
	case 1:
		l, err := drv.Readdir(bg, "/d/x")
		if err == nil {
			n := 0
			for _, fi := range l {
				vrt.Assert(fi.Name() == "dest" && was.there || fi.Name() == "other", "a listing has the files of a directory")
				n++
			}
			vrt.Assert(!was.there || n == 1, "a listing has all files of a directory")
			vrt.Cover("listed")
		} else {
			vrt.Assert(!was.there || f.hit != "", "a directory is listed")
		}
	case 2:
		fi, err := drv.Stat(bg, dest)
		if err == nil {
			vrt.Assert(was.there && fi.Size() == int64(len(was.data)) && fi.Name() == "dest", "a file has its information")
		} else {
			vrt.Assert(!was.there && os.IsNotExist(err) || f.hit != "", "a file is described")
		}
	case 3:
		err := drv.Remove(bg, dest)
		if err == nil {
			vrt.Assert(was.there && d.Node(dest) == nil, "a removed file is gone")
			vrt.Cover("removed")
		} else {
			vrt.Assert(!was.there && os.IsNotExist(err) || f.hit != "", "a file is removed")
			if !f.crash {
				vrt.Assert(look(d, dest).same(was), "a failed removal changes nothing")
			}
		}
	}
	if !f.crash {
		vrt.Assert(d.Open() == 0, "every file is closed")
	}
}
