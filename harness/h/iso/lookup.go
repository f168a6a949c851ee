package iso

import (
	"path"
	"syscall"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// answer is what a query returned.
type answer struct {
	fi   *iso9660.FileInfo
	list []*iso9660.FileInfo
	err  error
}

// query asks a walker one question.
func query(w *iso9660.Walker, kind int, p string) answer {
	var a answer
	switch kind {
	case 0:
		a.fi, a.err = w.Lstat(p)
	case 1:
		a.fi, a.err = w.Stat(p)
	case 2:
		a.list, a.err = w.ReadDir(p)
	case 3:
		f, err := w.Open(p)
		a.err = err
		if err == nil {
			vrt.Assert(f.Name() == p, "an open file keeps the name it was opened with")
			a.list, _ = f.ReadDir()
			buf := make([]byte, 1)
			n, _ := f.ReadAt(buf, 0)
			if n == 1 {
				a.fi, _ = w.Stat(p)
			}
		}
	}
	return a
}

func sameInfo(a, b *iso9660.FileInfo) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Name() == b.Name() && a.Size() == b.Size() && a.Mode() == b.Mode() && a.Extent() == b.Extent() &&
		a.Ino() == b.Ino() && a.Target() == b.Target() && a.Nlink() == b.Nlink() && a.IsDir() == b.IsDir() && a.ModTime().Equal(b.ModTime())
}

func sameAnswer(a, b answer) bool {
	if (a.err == nil) != (b.err == nil) || len(a.list) != len(b.list) {
		return false
	}
	if a.err != nil && a.err.Error() != b.err.Error() {
		return false
	}
	for i := range a.list {
		if !sameInfo(a.list[i], b.list[i]) {
			return false
		}
	}
	return sameInfo(a.fi, b.fi)
}

// resolve is the reference for lookups.
func (t *refTree) resolve(p string, follow bool) (*node, error) {
	for i := 0; i < 41; i++ {
		p = path.Clean("/" + p)
		// every parent must be a directory
		for d := p; d != "/"; {
			d = path.Dir(d)
			n := t.get(d)
			if n == nil {
				continue
			}
			if !n.dir {
				return nil, syscall.ENOTDIR
			}
		}
		n := t.get(p)
		if n == nil {
			return nil, syscall.ENOENT
		}
		if !n.link || !follow {
			return n, nil
		}
		if path.IsAbs(n.target) {
			p = n.target
		} else {
			p = path.Join(path.Dir(p), n.target)
		}
	}
	return nil, syscall.ELOOP
}

type fixture struct {
	t *refTree
	d *fake.Disc
}

func lookupFixture() interface{} {
	t := newRef()
	t.file("/a/b/f", 7)
	t.file("/b/f", 9)
	t.file("/f", 11)
	t.file("/a/c/b/g", 13)
	t.symlink("/a/b/u", "../c")
	t.symlink("/a/v", "/b/f")
	t.symlink("/a/r", "/")
	t.symlink("/l", "l")
	t.symlink("/a/s", "b/u/../f")
	t.symlink("/a/d", ".")
	t.symlink("/a/c/e", "..")
	t.symlink("/n", "nowhere")
	return &fixture{t, disc(t.v)}
}

func smallFixture() interface{} {
	t := newRef()
	t.file("/a/b/f", 7)
	t.file("/b/f", 9)
	t.file("/f", 11)
	t.symlink("/a/v", "/f")
	return &fixture{t, disc(t.v)}
}

// anyPath is an arbitrary path of up to max bytes after the slash.
func anyPath(max int) string {
	return "/" + vrt.String("path", vrt.Choose("len", max+1))
}

// I10Lookup asks one question about an arbitrary path.
func I10Lookup() {
	fx := vrt.Setup(lookupFixture).(*fixture)
	t := fx.t
	kind := vrt.Choose("kind", 4)
	p := anyPath(vrt.Param("bytes", 5, 7))
	got := query(iso9660.NewWalker(fx.d), kind, p)
	want, err := t.resolve(p, kind != 0 && kind != 2)
	switch kind {
	case 0, 1:
		vrt.Assert((got.err == nil) == (err == nil), "a lookup succeeds exactly for existing paths")
		if err != nil {
			vrt.Assert(got.err == err, "a failed lookup says why")
			vrt.Cover("missing")
			return
		}
		t.agrees(want, got.fi)
		vrt.Cover("found")
	case 2:
		ok := err == nil && want.dir
		vrt.Assert((got.err == nil) == ok, "a listing succeeds exactly for directories")
		if ok {
			vrt.Assert(sameStrings(names(got.list, true), t.children(want.path)), "a listing has the entries of its directory")
			vrt.Cover("listed")
		}
	case 3:
		vrt.Assert((got.err == nil) == (err == nil), "an open succeeds exactly for existing paths")
		if err == nil && want.dir {
			vrt.Assert(sameStrings(names(got.list, true), t.children(want.path)), "an open directory has its entries")
		}
		if err == nil && want.obj != nil {
			t.agrees(want, got.fi)
			vrt.Cover("opened")
		}
	}
}

// I10History asks about arbitrary paths one after the other and compares the
// last answer with a fresh walker's.
func I10History() {
	fx := vrt.Setup(smallFixture).(*fixture)
	if vrt.Param("large", 0, 1) == 1 {
		fx = vrt.Setup(lookupFixture).(*fixture)
	}
	used := iso9660.NewWalker(fx.d)
	n := vrt.Param("queries", 2, 2)
	for i := 0; i < n; i++ {
		kind := vrt.Choose("kind", 3)
		p := ""
		if i == n-1 {
			p = anyPath(vrt.Param("bytes", 3, 4))
		} else {
			p = "/" + vrt.String("path", 1) + "/" + vrt.String("path", 1)
		}
		got := query(used, kind, p)
		if i == n-1 {
			vrt.Assert(sameAnswer(got, query(iso9660.NewWalker(fx.d), kind, p)), "an answer does not depend on earlier lookups")
			vrt.Cover("compared")
		}
	}
}

func chainName(i int) string {
	return "l" + string([]byte{'a' + byte(i/8), 'a' + byte(i%8)})
}

const chainLen = 48

func chainFixture() interface{} {
	t := newRef()
	for i := 0; i < chainLen; i++ {
		t.symlink("/"+chainName(i), chainName(i+1))
	}
	t.file("/"+chainName(chainLen), 5)
	return &fixture{t, disc(t.v)}
}

// I10Chain follows chains of links of any length.
func I10Chain() {
	fx := vrt.Setup(chainFixture).(*fixture)
	from := vrt.Range("from", 0, chainLen)
	p := "/l" + string([]byte{'a' + byte(from/8), 'a' + byte(from%8)})
	fi, err := iso9660.NewWalker(fx.d).Stat(p)
	links := chainLen - from
	if vrt.Decide(links < 40) {
		vrt.Assert(err == nil, "a chain of links shorter than the limit is followed")
		fx.t.agrees(fx.t.get("/"+chainName(chainLen)), fi)
		vrt.Cover("followed")
	} else if err != nil {
		vrt.Assert(err == syscall.ELOOP, "a chain of links that is too long says so")
		vrt.Cover("too long")
	}
}
