package iso

import (
	"io"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// node is an entry of a reference tree.
type node struct {
	path   string
	dir    bool
	link   bool
	target string
	obj    *fake.Obj
}

// refTree is what was added to a volume.
type refTree struct {
	v     *iso9660.Volume
	nodes []*node
}

func newRef() *refTree {
	return &refTree{v: iso9660.NewVolume(), nodes: []*node{{path: "/", dir: true}}}
}

func (t *refTree) get(p string) *node {
	for _, n := range t.nodes {
		if n.path == p {
			return n
		}
	}
	return nil
}

func (t *refTree) mkdirs(p string) {
	for d := path.Dir(p); t.get(d) == nil; d = path.Dir(d) {
		t.nodes = append(t.nodes, &node{path: d, dir: true})
	}
}

func (t *refTree) file(p string, size int64) *fake.Obj {
	o := &fake.Obj{Name: "obj:" + p, Len: size, Seed: byte(17 * len(t.nodes))}
	vrt.Assert(t.v.AddFile(p, o) == nil, "a valid file is accepted")
	p = path.Clean("/" + p)
	t.mkdirs(p)
	t.nodes = append(t.nodes, &node{path: p, obj: o})
	return o
}

func (t *refTree) symlink(p, target string) {
	vrt.Assert(t.v.AddSymlink(p, target) == nil, "a valid symlink is accepted")
	p = path.Clean("/" + p)
	t.mkdirs(p)
	t.nodes = append(t.nodes, &node{path: p, link: true, target: path.Clean(target)})
}

func (t *refTree) children(p string) []string {
	var out []string
	for _, n := range t.nodes {
		if n.path != "/" && path.Dir(n.path) == p {
			out = append(out, path.Base(n.path))
		}
	}
	sort.Strings(out)
	return out
}

// agrees checks one entry's information against the reference.
func (t *refTree) agrees(n *node, fi *iso9660.FileInfo) {
	vrt.Assert(fi.IsDir() == n.dir, "an entry keeps its kind")
	vrt.Assert(fi.Mode().IsDir() == n.dir, "an entry's mode shows its kind")
	vrt.Assert((fi.Mode()&os.ModeSymlink != 0) == n.link, "an entry's mode shows whether it is a link")
	vrt.Assert(fi.Sys() == interface{}(fi), "an entry gives itself as its system information")
	switch {
	case n.dir:
		vrt.Assert(fi.Mode().Perm() == 0555, "a directory is readable and searchable")
		nl := 2
		for _, c := range t.nodes {
			if c.dir && c.path != "/" && path.Dir(c.path) == n.path {
				nl++
			}
		}
		vrt.Assert(fi.Nlink() == uint32(nl), "a directory counts its links")
		vrt.Assert(fi.Target() == "", "a directory has no link target")
	case n.link:
		vrt.Assert(fi.Mode().Perm() == 0777, "a link has full permissions")
		vrt.Assert(fi.Target() == n.target, "a link keeps its target")
		vrt.Assert(fi.Size() == int64(len(n.target)), "a link's size is the length of its target")
	default:
		vrt.Assert(fi.Mode().Perm() == 0444, "a file is readable")
		vrt.Assert(fi.Mode().IsRegular(), "a file is regular")
		vrt.Assert(fi.Size() == n.obj.Len, "a file keeps its size")
		vrt.Assert(fi.Nlink() == 1, "a file has one link")
		vrt.Assert(fi.Target() == "", "a file has no link target")
	}
}

// names sorts the names of a listing and removes the dot entries.
func names(list []*iso9660.FileInfo, dots bool) []string {
	var out []string
	d := 0
	for _, fi := range list {
		if fi.Name() == "." || fi.Name() == ".." {
			d++
			continue
		}
		out = append(out, fi.Name())
	}
	vrt.Assert(d == 2, "a listing has the two dot entries")
	sort.Strings(out)
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// content reads a file at an arbitrary position.
func (t *refTree) content(w *iso9660.Walker, n *node) {
	f, err := w.Open(n.path)
	vrt.Assert(err == nil, "a file is opened")
	vrt.Assert(f.Size() == n.obj.Len, "an open file has the file's size")
	off := int64(vrt.Bits("off", 34))
	vrt.Assume(off <= n.obj.Len)
	buf := make([]byte, 2)
	got, err := f.ReadAt(buf, off)
	want := 2
	if n.obj.Len-off < 2 {
		want = int(n.obj.Len - off)
		vrt.Assert(err == io.EOF, "a read past the end reports the end")
	} else {
		vrt.Assert(err == nil, "a read within the file succeeds")
	}
	vrt.Assert(got == want, "a read returns the bytes up to the end of the file")
	for i := 0; i < want; i++ {
		vrt.Assert(buf[i] == fake.At(n.obj.Seed, off+int64(i)), "a read returns the file's bytes")
	}
	vrt.Cover("content")
}

func (t *refTree) check(d *fake.Disc) {
	t.checkWalk(iso9660.NewWalker(d))
	w := iso9660.NewWalker(d)
	for _, n := range t.nodes {
		fi, err := w.Lstat(n.path)
		vrt.Assert(err == nil, "an added entry is found")
		t.agrees(n, fi)
		if n.dir {
			list, err := w.ReadDir(n.path)
			vrt.Assert(err == nil, "an added directory is listed")
			vrt.Assert(sameStrings(names(list, true), t.children(n.path)), "a listing has exactly the added entries")
			for _, fi := range list {
				if fi.Name() == "." || fi.Name() == ".." {
					continue
				}
				lfi, err := iso9660.NewWalker(d).Lstat(path.Join(n.path, fi.Name()))
				vrt.Assert(err == nil, "a listed entry is found")
				vrt.Assert(lfi.Extent() == fi.Extent() && lfi.Ino() == fi.Ino() && lfi.Mode() == fi.Mode() && lfi.Name() == fi.Name(), "a lookup agrees with the listing")
				vrt.Assert(lfi.Size() == fi.Size(), "a lookup agrees with the listing's size")
				t.agrees(t.get(path.Join(n.path, fi.Name())), fi)
			}
			fd, err := w.Open(n.path)
			vrt.Assert(err == nil, "a directory is opened")
			list2, err := fd.ReadDir()
			vrt.Assert(err == nil, "an open directory is listed")
			vrt.Assert(sameStrings(names(list2, true), t.children(n.path)), "the listing of an open directory has exactly the added entries")
			vrt.Cover("listed")
		}
	}
	seen := map[uint32]string{}
	for _, n := range t.nodes {
		fi, _ := w.Lstat(n.path)
		_, dup := seen[fi.Ino()]
		vrt.Assert(!dup, "entries have distinct inode numbers")
		seen[fi.Ino()] = n.path
	}
}

func (t *refTree) checkWalk(w *iso9660.Walker) {
	found := map[string]int{}
	first := true
	err := w.Walk("/", func(p string, fi os.FileInfo, err error) error {
		vrt.Assert(err == nil, "a walk meets no error")
		if first {
			first = false
			vrt.Assert(p == "/" && fi.IsDir(), "a walk starts at its root")
			return nil
		}
		if fi.Name() == "." || fi.Name() == ".." {
			return nil
		}
		full := path.Join(p, fi.Name())
		found[full]++
		n := t.get(full)
		vrt.Assert(n != nil, "a walk finds only added entries")
		t.agrees(n, fi.(*iso9660.FileInfo))
		return nil
	})
	vrt.Assert(err == nil, "a walk succeeds")
	for _, n := range t.nodes {
		if n.path != "/" {
			vrt.Assert(found[n.path] == 1, "a walk finds every added entry once")
		}
	}
	vrt.Cover("walked")
}

// I02Tree builds trees of several shapes with arbitrary file sizes.
func I02Tree() {
	t := newRef()
	var pick *node
	size := func() int64 { return sizeOf("size", 2) }
	big := func() int64 { return sizeOf("size", vrt.Param("parts", 3, 4)) }
	long := strings.Repeat("N23456789_", 24)
	switch vrt.Choose("tree", 6) {
	case 0: // empty
	case 1:
		t.file("/a", size())
		t.file("b", big())
		t.symlink("/l", "./x//y/../b")
		pick = t.get("/b")
	case 2:
		t.file("/d/e/f", size())
		t.file("/d/a", 0)
		t.symlink("/d/e/l", "/d/../a")
		t.file("/g", 2048)
		pick = t.get("/d/e/f")
	case 3: // siblings deep down
		t.file("/a/b/c/d1/f", 1)
		t.file("/a/b/c/d2/g", size())
		t.file("/a/b/c/d2/e/h", 3)
		t.file("/a/b/c/d3/e/i", 3)
		pick = t.get("/a/b/c/d2/g")
	case 4: // long names and targets
		t.file("/d/"+long+"x", size())
		t.symlink("/d/"+long+"y", long+"/"+long+"/../"+long)
		t.file("/d/"+long+"z/"+long, 5)
		pick = t.get("/d/" + long + "x")
	case 5: // more than one sector of entries
		for i := 0; i < 17; i++ {
			t.file("/m/"+long[:50]+string([]byte{'a' + byte(i)}), int64(i)*1024)
		}
		t.file("/m/z", size())
		pick = t.get("/m/z")
	}
	d := disc(t.v)
	t.check(d)
	if pick != nil {
		t.content(iso9660.NewWalker(d), pick)
	}
}

// I02Names builds a flat directory with arbitrary short names.
func I02Names() {
	t := newRef()
	a := printable("a", 1+vrt.Choose("na", vrt.Param("a", 4, 6)))
	b := printable("b", 1+vrt.Choose("nb", vrt.Param("b", 3, 5)))
	for _, n := range []string{a, b} {
		for i := 0; i < len(n); i++ {
			vrt.Assume(posix(n[i]))
		}
		vrt.Assume(n != "." && n != "..")
	}
	vrt.Assume(a != b)
	t.file("/"+a, 10)
	t.file("/"+b+"/x", 20)
	t.symlink("/zzzzzzzzz", a)
	d := disc(t.v)
	w := iso9660.NewWalker(d)
	list, err := w.ReadDir("/")
	vrt.Assert(err == nil, "the root is listed")
	vrt.Assert(len(list) == 5, "the root has its entries")
	var na, nb, nl int
	for _, fi := range list {
		switch {
		case fi.Name() == a:
			na++
			vrt.Assert(fi.Size() == 10 && !fi.IsDir(), "the file keeps its name")
		case fi.Name() == b:
			nb++
			vrt.Assert(fi.IsDir(), "the directory keeps its name")
		case fi.Name() == "zzzzzzzzz":
			nl++
			vrt.Assert(fi.Target() == a, "the link keeps its target")
		}
	}
	vrt.Assert(na == 1 && nb == 1 && nl == 1, "every entry is listed under its name")
	fi, err := w.Lstat("/" + b + "/x")
	vrt.Assert(err == nil && fi.Size() == 20, "a nested entry is found")
	fi, err = w.Lstat("/" + a)
	vrt.Assert(err == nil && fi.Size() == 10, "an entry is found by name")
	fi, err = w.Stat("/zzzzzzzzz")
	vrt.Assert(err == nil && fi.Size() == 10, "a link is followed")
	vrt.Cover("names")
}

func posix(c byte) bool {
	return vrt.Or(vrt.Or(vrt.And(c >= 'a', c <= 'z'), vrt.And(c >= 'A', c <= 'Z')), vrt.Or(vrt.And(c >= '0', c <= '9'), vrt.Or(c == '.', vrt.Or(c == '_', c == '-'))))
}

// I02Whole writes complete images.
func I02Whole() {
	t := newRef()
	sizes := []int64{0, 1, 2047, 2048, 2049}
	n := 1 + vrt.Choose("files", vrt.Param("files", 2, 3))
	for i := 0; i < n; i++ {
		t.file("/"+string([]byte{'a' + byte(i)}), sizes[vrt.Choose("size", len(sizes))])
	}
	meta := metadata(t.v)
	fail := -1
	if vrt.Decide(vrt.Bool("fail")) {
		fail = len(meta) - 1 + vrt.Choose("failAt", 3)
		w := &fake.FailWriter{N: fail, Lo: fail, Hi: fail}
		_, err := t.v.WriteTo(w)
		total := int64(0)
		for _, n := range t.nodes {
			if n.obj != nil {
				total += n.obj.Len
			}
		}
		if int64(len(meta))+total > int64(fail) {
			vrt.Assert(err != nil, "a failure to write the image is reported")
			vrt.Cover("fails")
		}
		return
	}
	var img fake.Image
	wrote, err := t.v.WriteTo(&img)
	vrt.Assert(err == nil, "an image is written")
	vrt.Assert(int(wrote) == len(img.Data), "the bytes of an image are counted")
	vrt.Assert(vrt.EqBytes(img.Data[:len(meta)], meta), "an image starts with its metadata")
	space := le32(meta[16*2048+80:])
	vrt.Assert(len(img.Data) == int(space)*2048, "an image has its declared size")
	t.v.VisitFileInodes(func(f *iso9660.FileInode) error {
		o := f.Object().(*fake.Obj)
		p := int(f.Start()) * 2048
		for i := int64(0); i < o.Len; i++ {
			if img.Data[p+int(i)] != fake.At(o.Seed, i) {
				vrt.Assert(false, "an image has each file's bytes at its address")
			}
		}
		return nil
	})
	vrt.Cover("whole")
}
