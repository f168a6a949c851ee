package iso

import (
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// metadata writes the volume's metadata.
func metadata(v *iso9660.Volume) []byte {
	var img fake.Image
	n, err := v.WriteMetadataTo(&img)
	vrt.Assert(err == nil, "a volume is written")
	vrt.Assert(int(n) == len(img.Data), "a volume reports the metadata bytes it wrote")
	return img.Data
}

// disc is the image a reader sees: the metadata followed by the files.
func disc(v *iso9660.Volume) *fake.Disc {
	d := &fake.Disc{Meta: metadata(v)}
	v.VisitFileInodes(func(f *iso9660.FileInode) error {
		d.Extents = append(d.Extents, fake.Extent{Off: int64(f.Start()) * 2048, Obj: f.Object().(*fake.Obj)})
		return nil
	})
	return d
}

// rawRec is a directory record as the standard lays it out.
type rawRec struct {
	id    string
	start uint32
	size  uint32
	flags byte
	su    []byte
	pos   int
	len   int
}

// parseDir reads the records of a directory extent.
func parseDir(meta []byte, start, size uint32) []rawRec {
	var out []rawRec
	base := int(start) * 2048
	vrt.Assert(base+int(size) <= len(meta), "a directory lies within the metadata")
	for pos := 0; pos < int(size); {
		b := meta[base+pos:]
		l := int(b[0])
		if l == 0 {
			pos = (pos/2048 + 1) * 2048
			continue
		}
		vrt.Assert(pos/2048 == (pos+l-1)/2048, "a record lies within one sector")
		idl := int(b[32])
		su := 33 + idl
		if idl%2 == 0 {
			su++
		}
		out = append(out, rawRec{id: string(b[33 : 33+idl]), start: le32(b[2:]), size: le32(b[10:]), flags: b[25], su: b[su:l], pos: pos, len: l})
		pos += l
	}
	return out
}

type region struct {
	start, n uint64 // sectors
	what     string
	id       string
}

func sectors(bytes uint64) uint64 { return (bytes + 2047) / 2048 }

// continuations follows the CE entries of a system use area.
func continuations(meta []byte, id string, su []byte, depth int, out *[]region) {
	vrt.Assert(depth < 40, "continuation areas do not form a cycle")
	for len(su) >= 4 {
		l := int(su[2])
		if l < 4 || l > len(su) {
			break
		}
		if su[0] == 'C' && su[1] == 'E' {
			start, off, n := int(le32(su[4:])), int(le32(su[12:])), int(le32(su[20:]))
			vrt.Assert(off+n <= 2048, "a continuation lies within one sector")
			p := start*2048 + off
			vrt.Assert(p+n <= len(meta), "a continuation lies within the metadata")
			*out = append(*out, region{uint64(p), uint64(n), "continuation", id})
			continuations(meta, id, meta[p:p+n], depth+1, out)
		}
		su = su[l:]
	}
}

func sizeOf(name string, maxParts int) int64 {
	// up to maxParts parts of 2^32-2048 bytes
	n := int64(vrt.Bits(name, 40))
	vrt.Assume(n <= int64(maxParts)*iso9660.MaxPartSize)
	return n
}

// I01Layout builds trees with files of arbitrary sizes and checks that all
// regions of the image are disjoint, in bounds and of the right size.
func I01Layout() {
	v := iso9660.NewVolume()
	type added struct {
		path string
		obj  *fake.Obj
	}
	var files []added
	add := func(p string, maxParts int) {
		o := &fake.Obj{Name: p, Len: sizeOf("size", maxParts)}
		vrt.Assert(v.AddFile(p, o) == nil, "a file is added")
		files = append(files, added{p, o})
	}
	long := "n23456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_"
	switch vrt.Choose("tree", 6) {
	case 0:
	case 1:
		add("/a", 2)
		add("/b", 3)
	case 2:
		add("/d/a", 2)
		add("/b", 1)
		add("/d/e/c", 1)
		v.AddSymlink("/l", "d/a")
	case 3:
		// continuation areas
		add("/d/"+long+"1", 2)
		add("/d/"+long+"2", 1)
		v.AddSymlink("/d/"+long+"3", long+"/"+long)
	case 4:
		// a directory of more than one sector
		for i := 0; i < 20; i++ {
			p := "/m/" + long[:60] + string([]byte{'a' + byte(i)})
			o := &fake.Obj{Name: p, Len: int64(i) * 1024}
			vrt.Assert(v.AddFile(p, o) == nil, "a file is added")
			files = append(files, added{p, o})
		}
		add("/z", 1)
	case 5:
		// a continuation area of more than one sector, then a directory
		for i := 0; i < 14; i++ {
			p := "/m/" + string([]byte{'a' + byte(i)})
			vrt.Assert(v.AddSymlink(p, long+"/"+long) == nil, "a link is added")
		}
		add("/m/z", 1)
		add("/n/z", 1)
	}
	meta := metadata(v)
	vrt.Assert(len(meta)%2048 == 0, "metadata is a whole number of sectors")
	pvd := meta[16*2048:]
	space := uint64(le32(pvd[80:]))
	vrt.Assert(le32(pvd[80:]) == be32(pvd[84:]), "volume size is both-endian")
	pt := uint64(le32(pvd[132:]))
	regions := []region{{0, 18, "system area and descriptors", ""},
		{uint64(le32(pvd[140:])), sectors(pt), "little-endian path table", ""},
		{uint64(be32(pvd[148:])), sectors(pt), "big-endian path table", ""}}
	var conts []region
	rootStart, rootLen := le32(pvd[156+2:]), le32(pvd[156+10:])
	type dirT struct{ start, size uint32 }
	queue := []dirT{{rootStart, rootLen}}
	seen := 0
	var parts []rawRec
	for len(queue) > 0 {
		d := queue[0]
		queue = queue[1:]
		seen++
		vrt.Assert(seen < 40, "the directories form a tree")
		vrt.Assert(vrt.And(d.size > 0, d.size%2048 == 0), "a directory is a positive number of whole sectors")
		regions = append(regions, region{uint64(d.start), sectors(uint64(d.size)), "directory", ""})
		for i, r := range parseDir(meta, d.start, d.size) {
			continuations(meta, r.id, r.su, 0, &conts)
			if i == 0 {
				vrt.Assert(vrt.And(r.id == "\x00", vrt.And(r.start == d.start, r.size == d.size)), "a directory's first record is itself")
				continue
			}
			if i == 1 {
				vrt.Assert(r.id == "\x01", "a directory's second record is its parent")
				continue
			}
			if r.flags&2 != 0 {
				queue = append(queue, dirT{r.start, r.size})
				continue
			}
			parts = append(parts, r)
		}
	}
	// continuation entries are disjoint byte ranges outside the other regions
	for i := range conts {
		for j := 0; j < i; j++ {
			a, b := conts[i], conts[j]
			// the records of a file of several parts may share one
			shared := a.start == b.start && a.n == b.n && a.id == b.id
			vrt.Assert(shared || a.start+a.n <= b.start || b.start+b.n <= a.start, "continuation areas are disjoint")
		}
		for _, r := range regions {
			a := conts[i]
			vrt.Assert(a.start+a.n <= r.start*2048 || (r.start+r.n)*2048 <= a.start, "continuation areas lie outside directories and tables")
		}
	}
	// file parts
	var all []region
	all = append(all, regions...)
	total := uint64(len(meta)) / 2048
	for _, f := range files {
		var mine []iso9660.InodePart
		var start iso9660.LogicalBlockAddress
		v.VisitFileInodes(func(fi *iso9660.FileInode) error {
			if fi.Object().(*fake.Obj) == f.obj {
				mine = fi.Parts()
				start = fi.Start()
			}
			return nil
		})
		vrt.Assert(len(mine) > 0, "a file has at least one part")
		next := uint64(start)
		var sum uint64
		for i, p := range mine {
			vrt.Assert(uint64(p.Start()) == next, "the parts of a file are consecutive")
			sum += uint64(p.Size())
			n := sectors(uint64(p.Size()))
			if i+1 < len(mine) {
				vrt.Assert(p.Size()%2048 == 0, "all parts but the last are whole sectors")
			} else {
				n = uint64(vrt.IteInt(p.Size() == 0, 1, int(n)))
			}
			next += n
			all = append(all, region{uint64(p.Start()), n, "file", ""})
			total += n
		}
		vrt.Assert(sum == uint64(f.obj.Len), "the parts of a file add up to its size")
	}
	vrt.Assume(total < 1<<32)
	for i, a := range all {
		vrt.Assert(a.start+a.n <= space, "a region lies within the volume")
		if a.what == "file" {
			vrt.Assert(a.start*2048 >= uint64(len(meta)), "files follow the metadata")
		} else {
			vrt.Assert((a.start+a.n)*2048 <= uint64(len(meta)), "tables and directories lie within the metadata")
		}
		for j := 0; j < i; j++ {
			b := all[j]
			vrt.Assert(vrt.Or(a.start+a.n <= b.start, b.start+b.n <= a.start), "no two regions overlap")
		}
	}
	vrt.Assert(space == total, "the volume size is the metadata plus the files")
	// the records on disc agree with the inodes
	for _, f := range files {
		v.VisitFileInodes(func(fi *iso9660.FileInode) error {
			if fi.Object().(*fake.Obj) != f.obj {
				return nil
			}
			for i, p := range fi.Parts() {
				found := false
				for _, r := range parts {
					same := vrt.And(r.start == uint32(p.Start()), r.size == p.Size())
					last := i == len(fi.Parts())-1
					found = vrt.Or(found, vrt.And(same, (r.flags&0x80 == 0) == last))
				}
				vrt.Assert(found, "every part of a file has a record")
			}
			return nil
		})
	}
	n := 0
	for _, f := range files {
		v.VisitFileInodes(func(fi *iso9660.FileInode) error {
			if fi.Object().(*fake.Obj) == f.obj {
				n += len(fi.Parts())
			}
			return nil
		})
	}
	links := 0
	for _, r := range parts {
		isLink := vrt.And(r.start == 0, r.size == 0)
		links = vrt.IteInt(isLink, links+1, links)
	}
	vrt.Assert(len(parts)-links == n, "no records other than the parts of the files")
	vrt.Cover("layout")
	vrt.Observe("layout", len(meta), space, total)
}
