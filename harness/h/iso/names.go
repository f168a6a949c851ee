package iso

import (
	"bytes"
	"path"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// namePart is a name entry of n bytes in all.
func namePart(c byte, n int) susp.SystemUseEntry {
	e, err := rrip.NewNamePart(strings.Repeat(string([]byte{c}), n-5), false)
	vrt.Assert(err == nil, "name part is accepted")
	return e
}

// readChain collects the entries a continuation entry leads to.
func readChain(area []byte, base uint32, ce *susp.ContinuationAreaEntry) []susp.SystemUseEntry {
	var out []susp.SystemUseEntry
	for i := 0; ce != nil; i++ {
		vrt.Assert(i < 8, "a continuation chain ends")
		off, n := int(ce.ContinuationOffset()), int(ce.ContinuationLength())
		vrt.Assert(off+n <= 2048, "a continuation lies within one sector")
		p := int(ce.ContinuationStart()-base)*2048 + off
		vrt.Assert(p >= 0 && p+n <= len(area), "a continuation lies within its area")
		es, err := iso9660.DecodeSystemUseEntries(bytes.NewReader(area[p : p+n]))
		vrt.Assert(err == nil, "a continuation decodes")
		ce = nil
		for _, e := range es {
			if c, ok := e.(*susp.ContinuationAreaEntry); ok {
				ce = c
				continue
			}
			out = append(out, e)
		}
	}
	return out
}

// I05Continuation packs entries of many lengths into continuation sectors.
func I05Continuation() {
	const base = 77
	area := iso9660.NewContinuationArea(base)
	type run struct {
		es []susp.SystemUseEntry
		ce *susp.ContinuationAreaEntry
	}
	var runs []run
	put := func(es ...susp.SystemUseEntry) {
		runs = append(runs, run{es, area.Append(append([]susp.SystemUseEntry(nil), es...))})
	}
	for i := 0; i < 7; i++ {
		put(namePart('a'+byte(i), 255))
	}
	// 263 bytes are left: leave any number of them
	left := vrt.Range("left", 8, 258)
	left = vrt.Concretize(left)
	put(namePart('h', 263-left))
	sizes := []int{6, 28, 100, 255}
	var es []susp.SystemUseEntry
	sum := 0
	for i := 0; i < 2; i++ {
		// lengths that just fit, just do not fit, or are unrelated
		n := 0
		switch k := vrt.Choose("size", 3); k {
		case 0:
			n = left - sum - vrt.Choose("slack", 2)*28 + vrt.Choose("off", 3) - 1
			vrt.Assume(n >= 6 && n <= 255)
		default:
			n = sizes[k]
		}
		sum += n
		es = append(es, namePart('i'+byte(i), n))
	}
	put(es...)
	put(namePart('x', 6), namePart('y', 255), namePart('z', 20))
	var buf bytes.Buffer
	n, err := area.WriteTo(&buf)
	vrt.Assert(err == nil && int(n) == buf.Len(), "a continuation area is written")
	vrt.Assert(buf.Len() == area.Len(), "a continuation area has the length it reports")
	vrt.Assert(buf.Len()%2048 == 0, "a continuation area is whole sectors")
	type span struct{ from, to int }
	var spans []span
	for _, r := range runs {
		got := readChain(buf.Bytes(), base, r.ce)
		vrt.Assert(len(got) == len(r.es), "every entry is found through its continuation, once")
		for i := range got {
			a, _ := rrip.DecodeName(r.es[i : i+1])
			b, _ := rrip.DecodeName(got[i : i+1])
			vrt.Assert(a == b, "entries are found in order through their continuation")
		}
		from := int(r.ce.ContinuationStart()-base)*2048 + int(r.ce.ContinuationOffset())
		s := span{from, from + int(r.ce.ContinuationLength())}
		for _, o := range spans {
			vrt.Assert(s.to <= o.from || o.to <= s.from, "continuations do not overlap")
		}
		spans = append(spans, s)
	}
	vrt.Cover("packed")
}

// text is a string of n portable characters, arbitrary where splits happen.
func text(name string, n int) string {
	b := []byte(strings.Repeat("t", n))
	for _, i := range []int{0, 247, 248, 249, 250, n - 1} {
		if i >= 0 && i < n && b[i] == 't' {
			c := vrt.U8(name)
			vrt.Assume(vrt.And(posix(c), c != '.'))
			b[i] = c
		}
	}
	return string(b)
}

// lengths that reach every boundary of records and name parts
func boundaryLen(name string, max int) int {
	n := vrt.Concretize(vrt.Range(name, 1, max))
	if vrt.Param("all", 0, 1) == 0 {
		near := func(x int) bool { return n >= x-3 && n <= x+3 }
		vrt.Assume(n < 4 || near(100) || near(122) || near(172) || near(200) || near(250) || near(500))
	}
	return n
}

// I05Name stores a name of every length between two neighbours.
func I05Name() {
	t := newRef()
	n := boundaryLen("n", 700)
	t.file("/a", 1)
	nm := text("c", n)
	vrt.Assume(nm != "a" && nm != "b")
	dir := vrt.Bool("dir")
	if vrt.Decide(dir) {
		t.file("/"+nm+"/x", 2)
	} else {
		t.file("/"+nm, 2)
	}
	t.symlink("/b", nm)
	t.named(nm)
	vrt.Cover("name")
}

// named checks a root directory with the entries a, nm and b.
func (t *refTree) named(nm string) {
	d := disc(t.v)
	list, err := iso9660.NewWalker(d).ReadDir("/")
	vrt.Assert(err == nil, "the directory is listed")
	vrt.Assert(len(list) == 5, "the directory has its entries")
	var na, nb, nn int
	for _, fi := range list {
		switch {
		case len(fi.Name()) == len(nm) && vrt.Decide(vrt.EqString(fi.Name(), nm)):
			nn++
		case fi.Name() == "a":
			na++
			vrt.Assert(fi.Size() == 1, "the neighbour before keeps its information")
		case fi.Name() == "b":
			nb++
			vrt.Assert(fi.Mode()&(1<<27) != 0, "the neighbour after keeps its kind")
			vrt.Assert(fi.Target() == t.get("/b").target, "the link has its target")
			vrt.Assert(fi.Size() == int64(len(t.get("/b").target)), "the link has its target's length")
		}
	}
	vrt.Assert(na == 1 && nb == 1, "the neighbours keep their names")
	vrt.Assert(nn == 1, "the name is read back")
	fi, err := iso9660.NewWalker(d).Lstat("/" + nm)
	vrt.Assert(err == nil, "the name is found")
	t.agrees(t.get("/"+nm), fi)
}

// I05Target stores link targets of many shapes and lengths.
func I05Target() {
	t := newRef()
	t.file("/a", 1)
	t.file("/nn", 2)
	n := boundaryLen("n", 520)
	pre := []string{"", "/", "../", "../../", "./", "x/../"}[vrt.Choose("prefix", 6)]
	post := []string{"", "/", "/e", "/.", "/..", "//e/f"}[vrt.Choose("suffix", 6)]
	if vrt.Param("all", 0, 1) == 0 {
		vrt.Assume(pre == "" || post == "" || n < 4)
	}
	target := pre + text("c", n) + post
	t.symlink("/b", target)
	t.named("nn")
	vrt.Cover("target")
	vrt.Observe("target", path.Clean(target))
}

// I05Chain stores long targets whose entries chain over several sectors.
func I05Chain() {
	t := newRef()
	t.file("/a", 1)
	t.file("/nn", 2)
	k := vrt.Concretize(vrt.Range("component", 1, 250))
	if vrt.Param("all", 0, 1) == 0 {
		vrt.Assume(k <= 24 || k%25 == 0)
	}
	n := 40
	var parts []string
	for i := 0; i < n; i++ {
		if i%7 == 6 {
			parts = append([]string{".."}, parts...)
		}
		parts = append(parts, strings.Repeat(string([]byte{'a' + byte(i%26)}), k+i%3))
	}
	t.symlink("/b", strings.Join(parts, "/"))
	t.named("nn")
	vrt.Cover("chain")
}
