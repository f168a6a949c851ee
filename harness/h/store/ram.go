package store

import (
	"io"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// ramNode is an entry of the reference for the in-memory store.
type ramNode struct {
	path []string
	dir  bool
	data []byte
}

type ramTree struct {
	nodes []*ramNode
}

func samePath(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = vrt.And(eq, vrt.EqString(a[i], b[i]))
	}
	return vrt.Decide(eq)
}

func (t *ramTree) get(p []string) *ramNode {
	if len(p) == 0 {
		return &ramNode{dir: true}
	}
	for _, n := range t.nodes {
		if samePath(n.path, p) {
			return n
		}
	}
	return nil
}

func (t *ramTree) children(p []string) []*ramNode {
	var out []*ramNode
	for _, n := range t.nodes {
		if len(n.path) == len(p)+1 && samePath(n.path[:len(p)], p) {
			out = append(out, n)
		}
	}
	return out
}

// put is the reference for a commit.
func (t *ramTree) put(p []string, data []byte) bool {
	for i := 0; i < len(p); i++ {
		n := t.get(p[:i])
		if n != nil && !n.dir {
			return false
		}
	}
	if n := t.get(p); n != nil {
		if n.dir {
			return false
		}
		n.data = data
		return true
	}
	for i := 1; i < len(p); i++ {
		if t.get(p[:i]) == nil {
			t.nodes = append(t.nodes, &ramNode{path: p[:i], dir: true})
		}
	}
	t.nodes = append(t.nodes, &ramNode{path: p, data: data})
	return true
}

// remove is the reference for a removal.
func (t *ramTree) remove(p []string) bool {
	n := t.get(p)
	if n == nil || len(p) == 0 || len(t.children(p)) != 0 {
		return false
	}
	for i, m := range t.nodes {
		if m == n {
			t.nodes = append(append([]*ramNode(nil), t.nodes[:i]...), t.nodes[i+1:]...)
		}
	}
	return true
}

// anyPath is a path of up to depth names of one letter.
func anyPath(depth int) []string {
	var p []string
	for i := 1 + vrt.Choose("depth", depth); i > 0; i-- {
		c := vrt.U8("name")
		vrt.Assume(vrt.And(c >= 'a', c <= 'z'))
		p = append(p, string([]byte{c}))
	}
	return p
}

// ramURL spells a path in one of several ways.
func ramURL(p []string, form int) string {
	s := ""
	for i, e := range p {
		if i > 0 || form != 1 {
			s += "/"
		}
		s += e
		if form == 3 && i == 0 {
			s += "//./q/.."
		}
	}
	if s == "" {
		s = "/"
	}
	if form == 2 {
		s = "//" + s
	}
	return "ram:" + s
}

func (t *ramTree) probe(d *ramdriver.Driver, p []string, form int) {
	url := ramURL(p, form)
	n := t.get(p)
	fi, err := d.Stat(bg, url)
	o, oerr := d.Open(bg, url, -1)
	list, lerr := d.Readdir(bg, url)
	if n == nil {
		vrt.Assert(err != nil && oerr != nil && lerr != nil, "nothing else is visible")
		vrt.Cover("absent")
		return
	}
	vrt.Assert(err == nil && fi.IsDir() == n.dir && fi.Mode().IsDir() == n.dir, "an entry has its kind")
	if !n.dir {
		vrt.Assert(oerr == nil && lerr != nil, "an object opens and does not list")
		vrt.Assert(fi.Size() == int64(len(n.data)) && o.Size() == int64(len(n.data)), "an object has the size committed")
		ramContent(o, n.data)
		vrt.Cover("object")
		return
	}
	vrt.Assert(oerr != nil && lerr == nil, "a directory lists and does not open")
	seen := 0
	kids := t.children(p)
	for _, e := range list {
		if e.Name() == "." || e.Name() == ".." {
			vrt.Assert(e.IsDir(), "a directory refers to itself and its parent")
			continue
		}
		seen++
		var kid *ramNode
		for _, k := range kids {
			if vrt.Decide(vrt.EqString(k.path[len(k.path)-1], e.Name())) {
				vrt.Assert(kid == nil, "a listing agrees with lookups")
				kid = k
			}
		}
		vrt.Assert(kid != nil && kid.dir == e.IsDir() && (kid.dir || e.Size() == int64(len(kid.data))), "a listing agrees with lookups")
	}
	vrt.Assert(seen == len(kids), "a listing is complete")
	vrt.Cover("directory")
}

func ramContent(o driver.Object, data []byte) {
	buf := make([]byte, len(data)+1)
	n, err := o.ReadAt(buf, 0)
	vrt.Assert(n == len(data) && err == io.EOF, "an object has the bytes last committed")
	for i := range data {
		vrt.Assert(buf[i] == data[i], "an object has the bytes last committed")
	}
}

func (t *ramTree) write(d *ramdriver.Driver, p []string, data []byte, end int) {
	w, err := d.Create(bg, ramURL(p, 0))
	if err != nil {
		vrt.Assert(t.get(p) != nil, "an object can be created")
		return
	}
	m, err := w.Write(data)
	vrt.Assert(m == len(data) && err == nil, "bytes are written")
	switch end {
	case 0: // left open
		return
	case 1:
		w.Abort()
		_, err = w.Commit()
		vrt.Assert(err != nil, "an aborted write cannot be committed")
		vrt.Cover("abort")
		return
	}
	if t.get(p) != nil && len(data) > 0 {
		o, err := d.Open(bg, ramURL(p, 0), -1)
		if err == nil {
			old := t.get(p).data
			defer ramContent(o, old)
		}
	}
	ci, err := w.Commit()
	ok := t.put(p, data)
	vrt.Assert((err == nil) == ok, "a commit succeeds unless the path conflicts")
	if ok {
		vrt.Cover("commit")
		o, err := d.Open(bg, ci.ObjectURL(), -1)
		vrt.Assert(err == nil, "a commit reports the URL of the object")
		if err == nil {
			ramContent(o, data)
			o2, err := d.Open(bg, o.URL(), -1)
			vrt.Assert(err == nil && o2.URL() == o.URL(), "an object reports its own URL")
			if err == nil {
				ramContent(o2, data)
			}
		}
	} else {
		vrt.Cover("conflict")
	}
	w.Write([]byte{1, 2})
	w.Abort()
	_, err = w.Commit()
	vrt.Assert(ok || err != nil, "a failed commit is not reported as a success later")
}

// S03History performs any writes and removals and checks the tree after them.
func S03History() {
	d := ramdriver.NewDriver()
	t := &ramTree{}
	depth := vrt.Param("depth", 2, 3)
	for i := 0; i < vrt.Param("steps", 3, 3); i++ {
		switch op := vrt.Choose("op", 4); op {
		case 0, 1, 2:
			size := 1
			if op == 2 {
				size = vrt.Choose("size", 2)
			}
			t.write(d, anyPath(depth), vrt.Bytes("data", size), op)
		case 3:
			p := anyPath(depth)
			err := d.Remove(bg, ramURL(p, 0))
			ok := t.remove(p)
			vrt.Assert((err == nil) == ok, "what exists and has nothing below it can be removed")
			if ok {
				vrt.Cover("remove")
			}
		}
	}
	for _, n := range t.nodes {
		t.probe(d, n.path, 0)
	}
	t.probe(d, nil, 0)
	t.probe(d, anyPath(depth), 0)
}

// S03Root tries to write to or remove the root.
func S03Root() {
	d := ramdriver.NewDriver()
	t := &ramTree{}
	if vrt.Choose("one", 2) == 1 {
		t.write(d, []string{"a"}, []byte{1}, 2)
	}
	url := []string{"ram:/", "ram:", "ram:///", "ram:/..", "ram:/a/.."}[vrt.Choose("url", 5)]
	if vrt.Choose("op", 2) == 0 {
		vrt.Assert(d.Remove(bg, url) != nil, "the root is not removed")
	} else if w, err := d.Create(bg, url); err == nil {
		_, err = w.Commit()
		vrt.Assert(err != nil, "the root is not replaced")
	}
	t.probe(d, nil, 0)
	t.probe(d, []string{"a"}, 0)
	t.write(d, []string{"b"}, []byte{2}, 2)
	t.probe(d, nil, 0)
}

// S03Spelling finds objects under every spelling of their path.
func S03Spelling() {
	d := ramdriver.NewDriver()
	t := &ramTree{}
	p := anyPath(vrt.Param("depth", 2, 3))
	w, err := d.Create(bg, ramURL(p, vrt.Choose("form", 4)))
	vrt.Assert(err == nil, "an object can be created")
	data := vrt.Bytes("data", 1)
	w.Write(data)
	_, err = w.Commit()
	vrt.Assert(err == nil && t.put(p, data), "an object is committed")
	t.probe(d, p, vrt.Choose("form", 4))
	t.probe(d, p[:len(p)-1], vrt.Choose("form", 4))
	t.probe(d, append(append([]string(nil), p...), "a"), vrt.Choose("form", 4))
}

// ramOp does one operation and describes its outcome.
func ramOp(d *ramdriver.Driver, op int) string {
	switch op {
	case 0, 1:
		w, err := d.Create(bg, []string{"ram:/a", "ram:/d/b"}[op])
		if err != nil {
			return "create failed"
		}
		w.Write([]byte{'1' + byte(op)})
		if _, err := w.Commit(); err != nil {
			return "commit failed"
		}
		return "committed"
	case 2, 3:
		o, err := d.Open(bg, []string{"ram:/a", "ram:/d/b"}[op-2], -1)
		if err != nil {
			return "absent"
		}
		var b [4]byte
		n, _ := o.ReadAt(b[:], 0)
		o.Close()
		return string(b[:n])
	case 4, 5:
		if err := d.Remove(bg, []string{"ram:/a", "ram:/d/b"}[op-4]); err != nil {
			return "not removed"
		}
		return "removed"
	case 6, 7:
		l, err := d.Readdir(bg, []string{"ram:/", "ram:/d"}[op-6])
		if err != nil {
			return "not listed"
		}
		var names [2]string
		for _, e := range l {
			switch e.Name() {
			case "a", "b":
				names[0] = e.Name() + string([]byte{'0' + byte(e.Size())})
			case "d":
				names[1] = "d"
			}
		}
		return names[0] + names[1]
	}
	st, err := d.Stat(bg, "ram:/a")
	if err != nil {
		return "absent"
	}
	return string([]byte{'0' + byte(st.Size())})
}

// ramState is all that can be seen of the store.
func ramState(d *ramdriver.Driver) string {
	return ramOp(d, 6) + "," + ramOp(d, 7) + "," + ramOp(d, 2) + "," + ramOp(d, 3)
}

// S03Threads does two operations at once: the outcome is that of one after the
// other.
func S03Threads() {
	pre := vrt.Choose("before", 4)
	op := [2]int{vrt.Choose("op", 9), vrt.Choose("op", 9)}
	fresh := func() *ramdriver.Driver {
		d := ramdriver.NewDriver()
		if pre&1 != 0 {
			w, _ := d.Create(bg, "ram:/a")
			w.Write([]byte("xyz"))
			w.Commit()
		}
		if pre&2 != 0 {
			w, _ := d.Create(bg, "ram:/d/b")
			w.Write([]byte("uv"))
			w.Commit()
		}
		return d
	}
	var want [2]string
	for i := range want {
		d := fresh()
		var got [2]string
		got[i] = ramOp(d, op[i])
		got[1-i] = ramOp(d, op[1-i])
		want[i] = got[0] + ";" + got[1] + ";" + ramState(d)
	}
	d := fresh()
	var got [2]string
	done := make(chan bool)
	vrt.Preempt(2)
	go func() {
		got[1] = ramOp(d, op[1])
		done <- true
	}()
	got[0] = ramOp(d, op[0])
	<-done
	vrt.Preempt(0)
	all := got[0] + ";" + got[1] + ";" + ramState(d)
	vrt.Assert(all == want[0] || all == want[1], "two operations at once have the outcome of one after the other")
	if want[0] != want[1] {
		vrt.Cover("order matters")
	}
}
