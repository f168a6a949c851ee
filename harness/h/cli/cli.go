package cli

import (
	"context"
	"io"
	"os"
	"strconv"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	_ "github.com/NVIDIA/vdisc/pkg/storage/zero"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	vdisc_cli "github.com/NVIDIA/vdisc/pkg/vdisc/cli"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// sources is the driver of the files: any URL is a file of the size given.
type sources struct {
	onRead func(n int, off int64) (int, error)
}

func (s *sources) Name() string { return "sources" }

func (s *sources) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	return &fake.Obj{Name: url, Len: size, Seed: url[len(url)-1], OnRead: s.onRead}, nil
}

func (s *sources) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	return nil, os.ErrNotExist
}

// fatal is a log in which a message that ends the program panics instead.
type fatal struct{ zapcore.Core }

func (f fatal) Enabled(l zapcore.Level) bool { return l == zapcore.FatalLevel }

func (f fatal) Check(e zapcore.Entry, c *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if e.Level == zapcore.FatalLevel {
		return c.AddCore(e, f)
	}
	return c
}

func (f fatal) Write(e zapcore.Entry, fields []zapcore.Field) error {
	panic("fatal: " + e.Message)
}

func world() (*vos.Disk, *fake.FS, *sources) {
	zap.ReplaceGlobals(zap.New(fatal{zapcore.NewNopCore()}))
	disk := vos.Use()
	fs := fake.NewFS()
	zero, err := driver.Find("zero:0")
	vrt.Assert(err == nil, "there is a driver of zeros")
	driver.ClearRegistry()
	driver.Register("zero", zero)
	driver.Register("file", fs)
	s := &sources{}
	driver.Register("src", s)
	return disk, fs, s
}

// text is any text of characters from a range.
func text(name string, n int, lo, hi byte) string {
	s := vrt.String(name, n)
	for i := 0; i < n; i++ {
		vrt.Assume(vrt.And(s[i] >= lo, s[i] <= hi))
	}
	return s
}

// number is the value of digits.
func number(s string) int64 {
	var n int64
	for i := 0; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}
	return n
}

var dirs = []string{"/", "d/", "/d/e/"}

func quote(s string, q int) string {
	if q == 1 {
		return `"` + s + `"`
	}
	return s
}

// V04Burn burns any table of files.
func V04Burn() {
	_, fs, _ := world()
	n := 1 + vrt.Choose("files", vrt.Param("files", 2, 3))
	form := vrt.Choose("form", 3)
	q, end, validation := form%2, []string{"\n", "\r\n", "\r\n"}[form], []string{"portable", "extended", "portable"}[form]
	var table string
	var paths, urls, sizes []string
	for i := 0; i < n; i++ {
		path := dirs[vrt.Choose("directory", len(dirs))] + text("name", 1, 'a', 'c') + strconv.Itoa(i)
		url := "src://h/" + text("url", 1, 'a', 'z')
		size := "7"
		if i == 0 || vrt.Param("all", 0, 1) == 1 {
			size = []string{"", "0", "42949672"}[vrt.Choose("magnitude", 3)] + text("size", 2, '0', '9')
		}
		table += quote(path, q) + "," + quote(url, q) + "," + quote(size, q) + end
		paths, urls, sizes = append(paths, path), append(urls, url), append(sizes, size)
	}
	fs.Files["/in.csv"] = &fake.File{Data: []byte(table)}

	cmd := &vdisc_cli.BurnCmd{Url: "/x/y.vdsc", Csv: "/in.csv", Iso: vdisc_cli.IsoOptions{NameValidation: validation}}
	vrt.Assert(cmd.Run(&vdisc_cli.Globals{}) == nil, "a table of files is burned")

	v, err := vdisc.Load("/x/y.vdsc", caching.NopCache)
	vrt.Assert(err == nil, "what was burned is loaded")
	w := iso9660.NewWalker(&fake.Image{Data: fs.Files["/x/y.vdsc.isohdr"].Data})
	for i, path := range paths {
		fi, err := w.Lstat(path)
		vrt.Assert(err == nil, "every file of the table is there")
		vrt.Assert(fi.Size() == number(sizes[i]), "a file has the size of the table")
		url, err := v.ExtentURL(fi.Extent())
		vrt.Assert(err == nil && vrt.EqString(url, urls[i]), "a file has the URL of the table")
	}
	vrt.Cover("burned")
}

// V04Refuse burns a table with a line that cannot be burned.
func V04Refuse() {
	_, fs, _ := world()
	name := "/" + text("name", 1, 'a', 'z')
	table := name + ",src://h/a,1\n"
	switch vrt.Choose("line", 4) {
	case 0:
		size := vrt.String("size", 1+vrt.Choose("digits", 3))
		digits := true
		for i := 0; i < len(size); i++ {
			c := size[i]
			vrt.Assume(vrt.And(vrt.And(c > ' ', c < 127), vrt.And(c != ',', c != '"')))
			digits = vrt.And(digits, vrt.And(c >= '0', c <= '9'))
		}
		vrt.Assume(size[0] != '-' && size[0] != '+')
		vrt.Assume(!digits)
		table += "/0,src://h/b," + size + "\n"
	case 1:
		table += name + ",src://h/b,2\n"
	case 2:
		table += name + "/x,src://h/b,2\n"
	case 3:
		table += "/0,src://h/b\n"
	}
	fs.Files["/in.csv"] = &fake.File{Data: []byte(table)}
	cmd := &vdisc_cli.BurnCmd{Url: "/x/y.vdsc", Csv: "/in.csv", Iso: vdisc_cli.IsoOptions{NameValidation: "portable"}}
	var err error
	ended := vrt.Panics(func() { err = cmd.Run(&vdisc_cli.Globals{}) })
	vrt.Assert(ended || err != nil, "a table that cannot be burned is refused")
	vrt.Assert(fs.Files["/x/y.vdsc"] == nil, "a table that is refused makes no vdisc")
	vrt.Cover("refused")
}

// V04Labels burns a table with any labels.
func V04Labels() {
	_, fs, _ := world()
	fs.Files["/in.csv"] = &fake.File{Data: []byte("/a,src://h/a,1\n")}
	label := func(name string) string { return text(name, 2, 'A', 'Z') }
	o := vdisc_cli.IsoOptions{
		NameValidation:              "portable",
		SystemIdentifier:            label("system"),
		VolumeIdentifier:            label("volume"),
		VolumeSetIdentifier:         label("set"),
		PublisherIdentifier:         label("publisher"),
		DataPreparerIdentifier:      label("preparer"),
		ApplicationIdentifier:       label("application"),
		CopyrightFileIdentifier:     label("copyright"),
		AbstractFileIdentifier:      label("abstract"),
		BibliographicFileIdentifier: label("bibliographic"),
	}
	cmd := &vdisc_cli.BurnCmd{Url: "/x/y.vdsc", Csv: "/in.csv", Iso: o}
	vrt.Assert(cmd.Run(&vdisc_cli.Globals{}) == nil, "a table of files is burned")
	var pvd iso9660.PrimaryVolumeDescriptor
	img := &fake.Image{Data: fs.Files["/x/y.vdsc.isohdr"].Data}
	err := iso9660.DecodePrimaryVolumeDescriptor(io.NewSectionReader(img, 16*2048, 2048), &pvd)
	vrt.Assert(err == nil, "the volume is described")
	same := vrt.EqString(pvd.SystemIdentifier, o.SystemIdentifier)
	for _, p := range [][2]string{
		{pvd.VolumeIdentifier, o.VolumeIdentifier},
		{pvd.VolumeSetIdentifier, o.VolumeSetIdentifier},
		{pvd.PublisherIdentifier, o.PublisherIdentifier},
		{pvd.DataPreparerIdentifier, o.DataPreparerIdentifier},
		{pvd.ApplicationIdentifier, o.ApplicationIdentifier},
		{pvd.CopyrightFileIdentifier, o.CopyrightFileIdentifier},
		{pvd.AbstractFileIdentifier, o.AbstractFileIdentifier},
		{pvd.BibliographicFileIdentifier, o.BibliographicFileIdentifier},
	} {
		same = vrt.And(same, vrt.EqString(p[0], p[1]))
	}
	vrt.Assert(same, "the volume has the labels given")
	vrt.Cover("labels")
}

// out is an output file in a directory that only the in-memory disk has.
const out = "/nowhere/out"

// V04Copy copies a file out, with any one operation failing.
func V04Copy() {
	disk, _, s := world()
	b := vdisc.NewISO9660Builder(vdisc.BuilderConfig{URL: "/x/y.vdsc"})
	names := []string{"/a", "/d/b", "l"}
	at := vrt.Choose("path", 3)
	sizes := []int64{3, 5}
	sizes[(at+1)/2] = int64(vrt.Bits("size", vrt.Param("size bits", 3, 5)))
	for i, path := range []string{"/a", "/d/b"} {
		vrt.Assert(b.AddFile(path, "src://h/"+path[len(path)-1:], sizes[i]) == nil, "a file is added")
	}
	vrt.Assert(b.AddSymlink("/l", "d/b") == nil, "a link is added")
	url, err := b.Build()
	vrt.Assert(err == nil, "a vdisc is built")

	seed, size := "abb"[at], sizes[(at+1)/2]
	disk.Put("/nowhere/else", nil, nil)
	old := vrt.Choose("old", 2) * 9
	if old > 0 {
		disk.Put(out, make([]byte, old), nil)
	}
	failing := []string{"", "write", "close", "source"}[vrt.Choose("failing", 4)]
	failed := false
	disk.Fault = func(op, path string) error {
		if path == out && op == failing {
			failed = true
			return fake.ErrFault
		}
		return nil
	}
	s.onRead = func(n int, off int64) (int, error) {
		if failing == "source" {
			failed = true
			return 0, fake.ErrFault
		}
		return n, nil
	}
	cmd := &vdisc_cli.CpCmd{Url: url, Path: names[at], Out: out}
	err = cmd.Run(&vdisc_cli.Globals{Cache: vdisc_cli.CacheConfig{Mode: "disabled"}})
	vrt.Assert((err != nil) == failed, "a copy fails exactly when an operation failed")
	vrt.Assert(disk.Open() == 0, "no file is left open")
	if err != nil {
		vrt.Cover("failed")
		return
	}
	data := disk.Node(out).Data
	vrt.Assert(int64(len(data)) == size, "the copy has the size of the file")
	for i, c := range data {
		vrt.Assert(c == fake.At(seed, int64(i)), "the copy has the bytes of the file")
	}
	vrt.Cover("copied")
}
