package iso

import (
	"bytes"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// record is a directory record of n bytes in all.
func record(i, n int) iso9660.DirectoryRecord {
	id := string([]byte{'A' + byte(i), 'Z'})
	if n%2 == 0 {
		id = id[:1]
	}
	r := iso9660.DirectoryRecord{Identifier: id, Start: iso9660.LogicalBlockAddress(vrt.U32("start")), Length: vrt.U32("length"), VolumeID: 1}
	if rest := n - r.Len(); rest > 0 {
		r.SystemUse = []susp.SystemUseEntry{namePart('a'+byte(i), rest)}
	}
	vrt.Assert(r.Len() == n, "a record has the length of its parts")
	return r
}

func sameRecord(a, b *iso9660.DirectoryRecord) {
	vrt.Assert(a.Identifier == b.Identifier, "a record keeps its identifier")
	vrt.Assert(vrt.And(a.Start == b.Start, a.Length == b.Length), "a record keeps its extent")
	vrt.Assert(len(a.SystemUse) == len(b.SystemUse), "a record keeps its entries")
}

// I04Records writes directories whose records end anywhere in a sector.
func I04Records() {
	var dir iso9660.Directory
	add := func(n int) { dir.Records = append(dir.Records, record(len(dir.Records), n)) }
	for i := 0; i < 7; i++ {
		add(254)
	}
	// 270 bytes are left of the sector
	a := vrt.Concretize(vrt.Range("a", 40, 255))
	add(a)
	left := 270 - a
	b := []int{34, 40, 255, left - 1, left, left + 1}[vrt.Choose("b", 6)]
	vrt.Assume(b == 34 || b >= 40 && b <= 255)
	add(b)
	if vrt.Decide(vrt.Bool("more")) {
		add(34)
	}
	var img fake.Image
	n, err := dir.WriteTo(&img)
	vrt.Assert(err == nil && int(n) == len(img.Data), "a directory is written")
	size := dir.Size()
	vrt.Assert(size%2048 == 0 && size >= n && size-n < 2048, "a directory's size is its bytes in whole sectors")
	for len(img.Data) < int(size) {
		img.Data = append(img.Data, 0)
	}
	raw := parseDir(img.Data, 0, uint32(size))
	vrt.Assert(len(raw) == len(dir.Records), "every record is written once")

	var all iso9660.Directory
	vrt.Assert(iso9660.DecodeDirectory(bytes.NewReader(img.Data), &all) == nil, "a directory decodes")
	vrt.Assert(len(all.Records) == len(dir.Records), "every record decodes")
	for i := range all.Records {
		sameRecord(&dir.Records[i], &all.Records[i])
	}

	it := iso9660.NewDirectoryRecordIterator(&img, 0, size, 0)
	pos := int64(0)
	for i := range dir.Records {
		vrt.Assert(it.Next(), "iteration finds every record")
		r, l := it.RecordAndLen()
		sameRecord(&dir.Records[i], r)
		pos += l
		vrt.Assert(pos == int64(raw[i].pos+raw[i].len), "a record's length leads to its end")
		// resume behind this record
		rest := iso9660.NewDirectoryRecordIterator(&img, 0, size, pos)
		for j := i + 1; j < len(dir.Records); j++ {
			vrt.Assert(rest.Next(), "a resumed iteration finds the remaining records")
			r, _ := rest.RecordAndLen()
			sameRecord(&dir.Records[j], r)
		}
		vrt.Assert(!rest.Next() && rest.Err() == nil, "a resumed iteration ends")
	}
	vrt.Assert(!it.Next() && it.Err() == nil, "iteration ends after the last record")
	vrt.Cover("records")
}

// I04Resume lists a directory of a built image in pieces. One of the files has
// several parts, whose records may lie on both sides of a sector boundary.
func I04Resume() {
	t := newRef()
	n := vrt.Concretize(vrt.Range("before", vrt.Param("from", 10, 0), vrt.Param("to", 20, 40)))
	for i := 0; i < n; i++ {
		t.file("/"+strings.Repeat("x", 3*(i%3))+string([]byte{'a' + byte(i/20), 'a' + byte(i%20)}), int64(i))
	}
	big := sizeOf("size", 3)
	t.file("/big", big)
	k := 10 + vrt.Choose("len", 3)*64
	t.file("/"+strings.Repeat("y", k), 3)
	t.symlink("/z", "big")
	d := disc(t.v)
	pvd := d.Meta[16*2048:]
	start, size := iso9660.LogicalBlockAddress(le32(pvd[158:])), int64(le32(pvd[166:]))
	var names []string
	var offs []int64
	pos := int64(0)
	it := iso9660.NewReadDirIterator(d, start, size, 0)
	for it.Next() {
		fi, l := it.FileInfoAndLen()
		pos += l
		names = append(names, fi.Name())
		offs = append(offs, pos)
		if fi.Name() == "big" {
			vrt.Assert(fi.Size() == big, "a file of several parts is listed with its whole size")
		}
	}
	vrt.Assert(it.Err() == nil, "a directory is listed")
	vrt.Assert(len(names) == n+5, "a directory is listed completely")
	for i := range names {
		rest := iso9660.NewReadDirIterator(d, start, size, offs[i])
		for j := i + 1; j < len(names); j++ {
			vrt.Assert(rest.Next(), "a resumed listing has the remaining entries")
			fi, l := rest.FileInfoAndLen()
			vrt.Assert(fi.Name() == names[j], "a resumed listing has the same order")
			vrt.Assert(l == offs[j]-offs[j-1], "a resumed listing reports the same lengths")
			if fi.Name() == "big" {
				vrt.Assert(fi.Size() == big, "a resumed listing reports the same size")
			}
		}
		vrt.Assert(!rest.Next() && rest.Err() == nil, "a resumed listing ends")
	}
	vrt.Cover("resumed")
}

// I12Encode encodes path tables with arbitrary records.
func I12Encode() {
	n := 1 + vrt.Choose("n", vrt.Param("n", 3, 4))
	var pt iso9660.PathTable
	for i := 0; i < n; i++ {
		pt.Records = append(pt.Records, iso9660.PathTableRecord{
			Identifier:                    vrt.String("id", 1+vrt.Choose("len", 3)),
			ExtendedAttributeRecordLength: vrt.U8("xa"),
			Location:                      iso9660.LogicalBlockAddress(vrt.U32("at")),
			ParentIndex:                   vrt.U16("parent"),
		})
	}
	for _, big := range []bool{false, true} {
		var buf bytes.Buffer
		m, err := tableEncoder(big, &buf).Encode(&pt)
		vrt.Assert(err == nil && int(m) == buf.Len(), "a path table is encoded")
		vrt.Assert(int64(buf.Len()) == iso9660.PathTableEncodedLen(&pt), "a path table has the length computed for it")
		got := parseTable(buf.Bytes(), big)
		vrt.Assert(len(got) == n, "a path table has all records")
		for i, r := range pt.Records {
			vrt.Assert(vrt.EqString(got[i].id, r.Identifier), "a path record has its identifier")
			vrt.Assert(vrt.And(got[i].at == uint32(r.Location), got[i].parent == r.ParentIndex), "a path record has its address and parent")
			vrt.Assert(got[i].xa == r.ExtendedAttributeRecordLength, "a path record has its attribute length")
		}
	}
	vrt.Cover("encoded")
}

type pathRec struct {
	id     string
	xa     byte
	at     uint32
	parent uint16
}

func parseTable(b []byte, big bool) []pathRec {
	var out []pathRec
	for len(b) > 0 {
		l := int(b[0])
		vrt.Assert(l > 0, "a path record has an identifier")
		r := pathRec{xa: b[1], at: le32(b[2:]), parent: le16(b[6:]), id: string(b[8 : 8+l])}
		if big {
			r.at, r.parent = be32(b[2:]), be16(b[6:])
		}
		if l%2 == 1 {
			vrt.Assert(b[8+l] == 0, "a path record of odd length is padded")
			l++
		}
		out = append(out, r)
		b = b[8+l:]
	}
	return out
}

// I12Tables checks the path tables of images of every small tree shape.
func I12Tables() {
	v := iso9660.NewVolume()
	n := vrt.Param("dirs", 5, 6)
	paths := []string{""}
	long := strings.Repeat("w", vrt.Choose("long", 2)*150)
	for i := 1; i <= n; i++ {
		// directories in several orders: the names decide the order of children
		p := paths[vrt.Choose("parent", i)] + "/" + long + string([]byte{'z' - byte(i*5%7)})
		paths = append(paths, p)
		vrt.Assert(v.AddFile(p+"/f", &fake.Obj{Name: p, Len: 10}) == nil, "a file is added")
	}
	meta := metadata(v)
	pvd := meta[16*2048:]
	size := int(le32(pvd[132:]))
	vrt.Assert(le32(pvd[132:]) == be32(pvd[136:]), "the table size is both-endian")
	lt, mt := int(le32(pvd[140:]))*2048, int(be32(pvd[148:]))*2048
	little := parseTable(meta[lt:lt+size], false)
	big := parseTable(meta[mt:mt+size], true)
	vrt.Assert(len(little) == len(paths) && len(big) == len(paths), "the tables have one record per directory")
	root := le32(pvd[158:])
	vrt.Assert(little[0].at == root, "the first record is the root's")
	base := int(little[0].parent)
	vrt.Assert(base == 0 || base == 1, "the root is its own parent")
	seen := map[uint32]int{}
	for i, r := range little {
		vrt.Assert(r == big[i], "both tables have the same records")
		_, dup := seen[r.at]
		vrt.Assert(!dup, "every directory is listed once")
		seen[r.at] = i
		if i == 0 {
			continue
		}
		par := int(r.parent) - base
		vrt.Assert(par >= 0 && par < i, "parents precede children")
		// the parent's extent has this directory under the same identifier
		found := 0
		for _, c := range parseDir(meta, little[par].at, le32(meta[int(little[par].at)*2048+10:])) {
			if c.flags&2 != 0 && c.id == r.id {
				vrt.Assert(c.start == r.at, "a path record has its directory's address")
				found++
			}
		}
		vrt.Assert(found == 1, "a path record's parent holds the directory")
	}
	vrt.Cover("tables")
}
