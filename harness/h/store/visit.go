package store

import (
	"context"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

type entry struct {
	name string
	dir  bool
}

func (e *entry) Name() string { return e.name }
func (e *entry) Size() int64  { return 0 }
func (e *entry) Mode() os.FileMode {
	if e.dir {
		return os.ModeDir
	}
	return 0
}
func (e *entry) ModTime() time.Time { return time.Time{} }
func (e *entry) IsDir() bool        { return e.dir }
func (e *entry) Sys() interface{}   { return nil }

// forest is a tree to be visited, with the record of its visit.
type forest struct {
	mu       sync.Mutex
	root     string
	list     map[string][]os.FileInfo
	declined string
	failAt   string // directory at which the operation fails
	failAll  bool   // every directory but the root fails
	failOp   int    // 0: none, 1: listing, 2: visit, 3: predicate
	workers  int
	depth    bool
	asked    []string
	listed   []string
	visited  []string
	bad      bool
	cancel   func()
}

func (f *forest) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.listed = append(f.listed, url)
	if f.failOp == 1 && f.fails(url) {
		return nil, fake.ErrFault
	}
	l, ok := f.list[url]
	f.bad = f.bad || !ok
	return l, nil
}

// fails tells whether the directory is one that fails: a certain one, or every
// one but the root.
func (f *forest) fails(url string) bool {
	return url == f.failAt || f.failAll && url != f.root
}

func (f *forest) VisitDir(url string, files []os.FileInfo) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	// the parent has been visited before
	if url != f.root {
		seen := false
		for _, v := range f.visited {
			seen = seen || v == url[:strings.LastIndex(url, "/")]
		}
		f.bad = f.bad || !seen
	}
	f.visited = append(f.visited, url)
	want := f.list[url]
	if len(files) != len(want) {
		f.bad = true
	}
	for i := range files {
		f.bad = f.bad || files[i] != want[i]
	}
	if f.cancel != nil && url == f.failAt {
		f.cancel()
	}
	if f.failOp == 2 && f.fails(url) {
		return fake.ErrFault
	}
	return nil
}

func (f *forest) Concurrency() int { return f.workers }
func (f *forest) DepthFirst() bool { return f.depth }

// choosy is a visitor that may decline directories.
type choosy struct{ *forest }

func (c choosy) ShouldVisitDir(url string) (bool, error) {
	f := c.forest
	f.mu.Lock()
	defer f.mu.Unlock()
	f.asked = append(f.asked, url)
	if f.failOp == 3 && f.fails(url) {
		return false, fake.ErrFault
	}
	return url != f.declined, nil
}

// bare is a visitor without options.
type bare struct{ f *forest }

func (b bare) VisitDir(url string, files []os.FileInfo) error { return b.f.VisitDir(url, files) }

// grow makes any tree of n entries below the root.
func grow(n int) (*forest, []string) {
	f := &forest{root: "r", list: map[string][]os.FileInfo{}}
	dirs := []string{"r"}
	f.list["r"] = nil
	for i := 0; i < n; i++ {
		p := dirs[vrt.Choose("parent", len(dirs))]
		e := &entry{name: string([]byte{'a' + byte(i)}), dir: vrt.Decide(vrt.Bool("dir"))}
		f.list[p] = append(f.list[p], e)
		if e.dir {
			d := p + "/" + e.name
			dirs = append(dirs, d)
			f.list[d] = []os.FileInfo{&entry{name: ".", dir: true}, &entry{name: "..", dir: true}}
		}
	}
	return f, dirs
}

func (f *forest) visit(kind int) error {
	var v driver.Visitor = bare{f}
	switch kind {
	case 1:
		v = f
	case 2:
		v = choosy{f}
	}
	return driver.Visit(bg, f, f.root, v)
}

func under(url, dir string) bool { return url == dir || strings.HasPrefix(url, dir+"/") }

// done checks a visit that met no failure.
func (f *forest) done(dirs []string) {
	want := 0
	for _, d := range dirs {
		n := 0
		for _, v := range f.visited {
			if v == d {
				n++
			}
		}
		if f.declined != "" && under(d, f.declined) {
			vrt.Assert(n == 0, "a declined directory is not visited")
			vrt.Cover("declined")
			continue
		}
		vrt.Assert(n == 1, "every directory is visited exactly once")
		want++
	}
	vrt.Assert(len(f.visited) == want && len(f.listed) == want, "nothing else is visited")
}

func (f *forest) check(err error, dirs []string) {
	vrt.Assert(!f.bad, "a directory is visited after its parent, with its own path and entries")
	hit := false
	for _, d := range f.visited {
		hit = hit || f.failOp == 2 && f.fails(d)
	}
	for _, d := range f.listed {
		hit = hit || f.failOp == 1 && f.fails(d)
	}
	for _, d := range f.asked {
		hit = hit || f.failOp == 3 && f.fails(d)
	}
	if !hit {
		vrt.Assert(err == nil, "a visit without failures succeeds")
		f.done(dirs)
		vrt.Cover("success")
	} else {
		vrt.Assert(err == fake.ErrFault, "a failure is reported")
		vrt.Cover("failure")
	}
	vrt.Settle()
	vrt.Assert(vrt.Others() == 0, "no worker is left behind")
}

// S06Visit visits any small tree with any number of workers in any order.
func S06Visit() {
	f, dirs := grow(vrt.Param("entries", 3, 4))
	kind := vrt.Choose("kind", 3)
	if kind > 0 {
		f.workers = vrt.Choose("workers", 3)
		f.depth = vrt.Decide(vrt.Bool("depth"))
	}
	if kind == 2 {
		f.declined = dirs[vrt.Choose("declined", len(dirs))]
	}
	vrt.Preempt(vrt.Param("preempt", 1, 2))
	err := f.visit(kind)
	vrt.Preempt(0)
	f.check(err, dirs)
}

// S06Fault lets a listing or a callback fail.
func S06Fault() {
	f, dirs := grow(vrt.Param("entries", 2, 3))
	kind := vrt.Choose("kind", 3)
	if kind > 0 {
		f.workers = 1 + vrt.Choose("workers", 2)
		f.depth = vrt.Decide(vrt.Bool("depth"))
	}
	f.failAt = dirs[vrt.Choose("at", len(dirs))]
	f.failOp = 1 + vrt.Choose("op", 2)
	if kind == 2 && vrt.Decide(vrt.Bool("predicate")) {
		f.failOp = 3
	}
	if f.failAt != f.root {
		f.failAll = vrt.Decide(vrt.Bool("all"))
	}
	vrt.Preempt(vrt.Param("preempt", 1, 2))
	err := f.visit(kind)
	vrt.Preempt(0)
	f.check(err, dirs)
}

// S06Cancel cancels the context before or during a visit.
func S06Cancel() {
	f, dirs := grow(2)
	ctx, cancel := context.WithCancel(bg)
	at := vrt.Choose("at", len(dirs)+1)
	if at == len(dirs) {
		cancel()
	} else {
		f.failAt = dirs[at]
		f.cancel = cancel
	}
	f.workers = 1 + vrt.Choose("workers", 2)
	vrt.Preempt(vrt.Param("preempt", 1, 2))
	err := driver.Visit(ctx, f, f.root, f)
	vrt.Preempt(0)
	if err == nil {
		vrt.Assert(len(f.visited) == len(dirs), "a visit that succeeds is complete")
		vrt.Cover("success")
	} else {
		vrt.Assert(err == context.Canceled, "a cancelled visit says so")
		vrt.Cover("cancelled")
	}
	vrt.Settle()
	vrt.Assert(vrt.Others() == 0, "no worker is left behind")
}

// S06Level visits two levels of directories, the second with any number of
// entries per directory, so that results of some arrive while others wait.
func S06Level() {
	f := &forest{root: "r", list: map[string][]os.FileInfo{}}
	dirs := []string{"r"}
	n := vrt.Param("dirs", 2, 3)
	for i := 0; i < n; i++ {
		e := &entry{name: string([]byte{'a' + byte(i)}), dir: true}
		f.list["r"] = append(f.list["r"], e)
		d := "r/" + e.name
		dirs = append(dirs, d)
		f.list[d] = nil
		for j := vrt.Choose("entries", 3); j > 0; j-- {
			c := &entry{name: string([]byte{'p' + byte(j)}), dir: true}
			f.list[d] = append(f.list[d], c)
			dirs = append(dirs, d+"/"+c.name)
			f.list[d+"/"+c.name] = nil
		}
	}
	f.workers = 1 + vrt.Choose("workers", n)
	f.depth = vrt.Decide(vrt.Bool("depth"))
	vrt.Preempt(1)
	err := f.visit(1)
	vrt.Preempt(0)
	f.check(err, dirs)
}
