package vdisc

import (
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// nth fails the n-th call.
type nth struct {
	at, n int
	hit   bool
}

func (f *nth) fail(op, path string) error {
	if op == "remove" || op == "close" {
		return nil
	}
	f.n++
	if vrt.Decide(f.n == f.at) {
		f.hit = true
		return fake.ErrFault
	}
	return nil
}

func someFiles(s *sources) {
	for i := 0; i < 2; i++ {
		s.files = append(s.files, source{path: names[i], url: urls[i], size: int64(i) * 100, seed: byte(i + 1)})
	}
}

// V03Build lets any one storage operation fail while a vdisc is built.
func V03Build() {
	fs, s := world()
	someFiles(s)
	f := &nth{at: int(vrt.Range("fail", 0, 12))}
	old := vrt.Decide(vrt.Bool("replaces"))
	if old {
		fs.Files["/x/y.vdsc"] = &fake.File{Data: []byte("old")}
	}
	fs.Fault = f.fail
	b := vdisc.NewExtendedISO9660Builder(vdisc.BuilderConfig{URL: "/x/y.vdsc"})
	for _, f := range s.files {
		vrt.Assert(b.AddFile(f.path, f.url, f.size) == nil, "a file is added")
	}
	_, err := b.Build()
	fs.Fault = nil
	vrt.Assert(fs.Tmp == 0, "nothing is left being written")
	out := fs.Files["/x/y.vdsc"]
	if f.hit {
		vrt.Assert(err != nil, "a failing operation makes the build fail")
		vrt.Assert((out != nil) == old && (!old || string(out.Data) == "old"), "a failed build publishes no vdisc")
		vrt.Cover("failed")
		return
	}
	vrt.Assert(err == nil && out != nil, "a build succeeds")
	vrt.Assert(fs.Files["/x/y.vdsc.isohdr"] != nil, "a vdisc is published after its metadata")
	load("/x/y.vdsc", plain{})
	vrt.Cover("built")
}

// V03Load lets any one operation fail while a vdisc is loaded.
func V03Load() {
	fs, s := world()
	disk := vos.Use()
	someFiles(s)
	url := burn(s, "/x/y.vdsc")
	f := &nth{at: int(vrt.Range("fail", 0, 12))}
	fs.Fault = f.fail
	disk.Fault = f.fail
	v, err := vdisc.Load(url, plain{})
	fs.Fault = nil
	disk.Fault = nil
	vrt.Assert(fs.Open_ == 0, "the descriptor is closed")
	vrt.Assert(disk.Open() == 0 && len(disk.Names()) == 0, "no temporary file is left")
	if f.hit {
		vrt.Assert(err != nil && v == nil, "a failing operation makes loading fail")
		vrt.Cover("failed")
		return
	}
	vrt.Assert(err == nil, "a vdisc that was built is loaded")
	vrt.Assert(v.Close() == nil, "a vdisc is closed")
	vrt.Cover("loaded")
}

// V03Damaged loads a descriptor of any few bytes.
func V03Damaged() {
	fs, _ := world()
	disk := vos.Use()
	n := vrt.Choose("length", vrt.Param("length", 17, 20))
	data := vrt.Bytes("data", n)
	if n > 12 {
		vrt.Assume(data[0] != 0x1f)
	}
	fs.Files["/y.vdsc"] = &fake.File{Data: data}
	v, err := vdisc.Load("/y.vdsc", plain{})
	vrt.Assert(err != nil || n >= 16 && v.Image().Size() == 0, "a few bytes are not a vdisc")
	vrt.Assert(fs.Open_ == 0, "the descriptor is closed")
	vrt.Assert(disk.Open() == 0 && len(disk.Names()) == 0, "no temporary file is left")
	if n >= 4 && vrt.Decide(vrt.And(vrt.And(data[0] == 0x1f, data[1] == 0x8b), vrt.And(data[2] == 8, data[3] == 0))) {
		vrt.Cover("compressed")
	}
}
