package iso

import (
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// place is a part of an image at an arbitrary block.
type place struct {
	block uint32
	data  []byte
	reads int
}

// scattered is an image of which only some parts are defined.
type scattered struct {
	places []*place
	bad    bool
}

func (s *scattered) ReadAt(p []byte, off int64) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for _, e := range s.places {
		rel := off - int64(e.block)*2048
		if vrt.Decide(vrt.And(rel >= 0, rel < int64(len(e.data)))) {
			e.reads++
			n := copy(p, e.data[vrt.Concretize(int(rel)):])
			if n < len(p) {
				return n, fake.ErrFault
			}
			return n, nil
		}
	}
	s.bad = true
	return 0, fake.ErrFault
}

func (s *scattered) place(block uint32, data []byte) {
	for _, e := range s.places {
		vrt.Assume(vrt.Or(block > e.block+1, e.block > block+1))
	}
	vrt.Assume(vrt.And(block > 17, block < 0xfffffff0))
	s.places = append(s.places, &place{block: block, data: data})
}

func sector(write func(*fake.Image) error) []byte {
	var img fake.Image
	vrt.Assert(write(&img) == nil, "a part of an image is written")
	for len(img.Data)%2048 != 0 {
		img.Data = append(img.Data, 0)
	}
	return img.Data
}

func directory(records ...iso9660.DirectoryRecord) []byte {
	return sector(func(img *fake.Image) error {
		d := iso9660.Directory{Records: records}
		_, err := d.WriteTo(img)
		return err
	})
}

// I13Far reads directories, continuation areas and files at any block.
func I13Far() {
	root, dir, cont, file := vrt.U32("root"), vrt.U32("dir"), vrt.U32("cont"), vrt.U32("file")
	off := vrt.Choose("off", 3) * 1000
	length := vrt.U32("length")
	vrt.Assume(length >= 4)
	delta := vrt.Bits("delta", 21)
	vrt.Assume(vrt.And(delta > 1, vrt.And(uint64(length) >= delta*2048+4, uint64(file)+delta < 0xfffffff0)))

	pvd := iso9660.PrimaryVolumeDescriptor{RootStart: iso9660.LogicalBlockAddress(root), RootLength: 2048}
	s := &scattered{}
	s.places = append(s.places, &place{block: 16, data: sector(func(img *fake.Image) error {
		_, err := pvd.WriteTo(img)
		return err
	})})
	nm, err := rrip.NewNamePart("sub", false)
	vrt.Assert(err == nil, "a name is made")
	s.place(root, directory(
		iso9660.DirectoryRecord{Identifier: "\x00", Start: iso9660.LogicalBlockAddress(root), Length: 2048, Flags: iso9660.FileFlagDir},
		iso9660.DirectoryRecord{Identifier: "\x01", Start: iso9660.LogicalBlockAddress(root), Length: 2048, Flags: iso9660.FileFlagDir},
		iso9660.DirectoryRecord{Identifier: "A", Start: iso9660.LogicalBlockAddress(dir), Length: 2048, Flags: iso9660.FileFlagDir, SystemUse: []susp.SystemUseEntry{nm}},
	))
	long, err := rrip.NewNamePart("far", false)
	vrt.Assert(err == nil, "a name is made")
	s.place(dir, directory(
		iso9660.DirectoryRecord{Identifier: "B", Start: iso9660.LogicalBlockAddress(file), Length: length,
			SystemUse: []susp.SystemUseEntry{susp.NewContinuationAreaEntry(cont, uint32(off), uint32(long.Len()))}},
	))
	ce := sector(func(img *fake.Image) error {
		img.Data = make([]byte, off)
		_, err := long.WriteTo(img)
		return err
	})
	s.place(cont, ce)
	s.place(file, []byte("DATA"))
	s.place(file+uint32(delta), []byte("MORE"))

	w := iso9660.NewWalker(s)
	list, err := w.ReadDir("/")
	vrt.Assert(err == nil && len(list) == 3, "the root is listed")
	fi, err := w.Lstat("/sub/far")
	vrt.Assert(err == nil, "a file is found at any address")
	vrt.Assert(vrt.And(uint32(fi.Extent()) == file, fi.Size() == int64(length)), "a file keeps its extent")
	list, err = iso9660.NewWalker(s).ReadDir("/sub")
	vrt.Assert(err == nil && len(list) == 1 && list[0].Name() == "far", "a directory is listed at any address")
	f, err := w.Open("/sub/far")
	vrt.Assert(err == nil, "a file is opened at any address")
	buf := make([]byte, 4)
	n, err := f.ReadAt(buf, 0)
	vrt.Assert(err == nil && n == 4 && string(buf) == "DATA", "a file is read at any address")
	n, err = f.ReadAt(buf, int64(delta)*2048)
	vrt.Assert(err == nil && n == 4 && string(buf) == "MORE", "a file is read at any offset")
	vrt.Assert(!s.bad, "reads stay within the structures of the image")
	vrt.Cover("far")
}
