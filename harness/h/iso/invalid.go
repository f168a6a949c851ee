package iso

import (
	"path"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// portable says whether every byte of a name is in the portable set.
func portable(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vrt.And(ok, posix(s[i]))
	}
	return ok
}

// extended says whether every byte of an ASCII name is in the extended set.
func extended(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		bad := vrt.Or(c <= ' ', c >= 0x7f)
		for _, x := range []byte("/\\?%*:|\"<>$!") {
			bad = vrt.Or(bad, c == x)
		}
		ok = vrt.And(ok, !bad)
	}
	return ok
}

// admissible is the reference for additions.
func (t *refTree) admissible(p string, valid func(string) bool) (string, bool) {
	p = path.Clean(p)
	p = strings.TrimPrefix(p, "/")
	full := ""
	parts := strings.Split(p, "/")
	for i, part := range parts {
		if part == "" || part == "." || part == ".." {
			return "", false
		}
		if !vrt.Decide(valid(part)) {
			return "", false
		}
		full += "/" + part
		if n := t.get(full); n != nil && (!n.dir || i == len(parts)-1) {
			return "", false
		}
	}
	return full, true
}

// add adds an entry and checks that it is accepted or refused as it should.
func (t *refTree) add(p string, link bool, valid func(string) bool) bool {
	full, ok := t.admissible(p, valid)
	o := &fake.Obj{Name: "obj:" + p, Len: int64(3 + len(t.nodes)), Seed: byte(17 * len(t.nodes))}
	var err error
	if link {
		err = t.v.AddSymlink(p, "f")
	} else {
		err = t.v.AddFile(p, o)
	}
	if !ok {
		vrt.Assert(err != nil, "an invalid addition is refused")
		vrt.Cover("refused")
		return false
	}
	vrt.Assert(err == nil, "a valid addition is accepted")
	t.mkdirs(full)
	if link {
		t.nodes = append(t.nodes, &node{path: full, link: true, target: "f"})
	} else {
		t.nodes = append(t.nodes, &node{path: full, obj: o})
	}
	vrt.Cover("accepted")
	return true
}

// holds checks that the image of the tree has exactly its entries.
func (t *refTree) holds() {
	w := iso9660.NewWalker(disc(t.v))
	for _, n := range t.nodes {
		if !n.dir {
			continue
		}
		list, err := w.ReadDir(n.path)
		vrt.Assert(err == nil, "every directory is listed")
		count := 2
		for _, c := range t.nodes {
			if c.path == "/" || path.Dir(c.path) != n.path {
				continue
			}
			count++
			found := 0
			for _, fi := range list {
				if fi.Name() == path.Base(c.path) {
					found++
					t.agrees(c, fi)
				}
			}
			vrt.Assert(found == 1, "every accepted entry is listed once")
		}
		vrt.Assert(len(list) == count, "nothing but accepted entries is listed")
	}
}

func newBase(v *iso9660.Volume) *refTree {
	t := newRef()
	t.v = v
	t.file("/d/f", 7)
	t.file("/f", 9)
	t.symlink("/l", "f")
	return t
}

// I08Paths adds entries at arbitrary paths to a small tree.
func I08Paths() {
	t := newBase(iso9660.NewPosixPortableVolume())
	prefix := []string{"", "/", "/d/"}[vrt.Choose("prefix", 3)]
	s := vrt.String("path", vrt.Choose("len", 1+vrt.Param("bytes", 3, 4)))
	t.add(prefix+s, vrt.Decide(vrt.Bool("link")), portable)
	// a second addition close to the first
	if len(s) > 0 {
		t.add(prefix+s[:1], false, portable)
	}
	t.holds()
}

// I08Below adds an entry below an entry that may not exist.
func I08Below() {
	t := newBase(iso9660.NewPosixPortableVolume())
	a := vrt.String("a", 1)
	b := vrt.String("b", 1)
	c := vrt.String("c", 1)
	vrt.Assume(vrt.And(a[0] != '/', vrt.And(b[0] != '/', c[0] != '/')))
	t.add("/"+a+"/"+b+"/"+c, false, portable)
	t.add("/"+a+"/"+b, vrt.Decide(vrt.Bool("link")), portable)
	t.add("/"+a, false, portable)
	t.holds()
}

// I08Extended adds names to a volume with the extended character set.
func I08Extended() {
	t := newBase(iso9660.NewNvidiaExtendedVolume())
	s := vrt.String("name", 1+vrt.Choose("len", vrt.Param("bytes", 2, 3)))
	for i := 0; i < len(s); i++ {
		vrt.Assume(vrt.And(s[i] < 0x80, s[i] != '/'))
	}
	t.add("/"+s, false, extended)
	t.add("/x/"+s, true, extended)
	t.holds()
}

// I08Target adds links with arbitrary targets.
func I08Target() {
	t := newBase(iso9660.NewPosixPortableVolume())
	s := vrt.String("target", vrt.Choose("len", 1+vrt.Param("bytes", 3, 4)))
	for i := 0; i < len(s); i++ {
		vrt.Assume(s[i] < 0x80)
	}
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = vrt.And(ok, vrt.Or(posix(s[i]), s[i] == '/'))
	}
	err := t.v.AddSymlink("/x", s)
	if err == nil {
		vrt.Assert(len(s) > 0, "an empty target is refused")
		t.nodes = append(t.nodes, &node{path: "/x", link: true, target: path.Clean(s)})
		vrt.Cover("accepted")
	} else {
		vrt.Assert(!ok, "a portable target is accepted")
		vrt.Cover("refused")
	}
	t.holds()
}
