package vdisc

import (
	"context"
	"io"
	"os"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	_ "github.com/NVIDIA/vdisc/pkg/storage/zero"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// source is a file that is added.
type source struct {
	path string
	url  string
	size int64
	seed byte
	at   iso9660.LogicalBlockAddress
}

// sources is the driver of the files.
type sources struct {
	files []source
	log   *fake.Log
	open  int
	bad   int // opened with an unknown URL
	asked []string
}

func (s *sources) Name() string { return "sources" }

func (s *sources) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	for _, f := range s.files {
		if vrt.Decide(vrt.EqString(f.url, url)) {
			s.open++
			return &srcObj{fake.Obj{Name: url, Len: size, Seed: f.seed, Log: s.log}, s}, nil
		}
	}
	s.bad++
	return nil, os.ErrNotExist
}

func (s *sources) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	return nil, os.ErrNotExist
}

type srcObj struct {
	fake.Obj
	s *sources
}

func (o *srcObj) Close() error { o.s.open--; return nil }

// plain is a cache that keeps nothing.
type plain struct{}

func (plain) WithCaching(o storage.Object) storage.Object { return o }

// world has a place to write to and the files.
func world() (*fake.FS, *sources) {
	vos.Use()
	fs := fake.NewFS()
	zero, err := driver.Find("zero:0")
	vrt.Assert(err == nil, "there is a driver of zeros")
	driver.ClearRegistry()
	driver.Register("zero", zero)
	driver.Register("file", fs)
	s := &sources{log: &fake.Log{}}
	driver.Register("src", s)
	return fs, s
}

// lower is any text of lower-case letters.
func lower(name string, n int) string {
	s := vrt.String(name, n)
	for i := 0; i < n; i++ {
		vrt.Assume(vrt.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return s
}

// sectorsOf is the number of sectors of a file.
func sectorsOf(n int64) int64 {
	if vrt.Decide(n == 0) {
		return 1
	}
	return (n + 2047) / 2048
}

var names = []string{"/a", "/d/b", "/c", "/d/e/f"}

var rests = []int64{0, 1, 2047}

var urls = []string{"src://h/x/ab", "src://h/x/a", "src://i/ab", "src://h/x/abc"}

// burn builds a vdisc of the sources.
func burn(s *sources, url string) string {
	b := vdisc.NewISO9660Builder(vdisc.BuilderConfig{URL: url})
	for _, f := range s.files {
		vrt.Assert(b.AddFile(f.path, f.url, f.size) == nil, "a file is added")
	}
	out, err := b.Build()
	vrt.Assert(err == nil, "a vdisc is built")
	return out
}

// locate finds the addresses of the files in the metadata.
func locate(meta []byte, s *sources) {
	w := iso9660.NewWalker(&fake.Image{Data: meta})
	for i := range s.files {
		f := &s.files[i]
		fi, err := w.Lstat(f.path)
		vrt.Assert(err == nil, "every file is found in the image")
		vrt.Assert(fi.Size() == f.size, "every file has its size")
		f.at = fi.Extent()
	}
}

func load(url string, c caching.Cache) vdisc.VDisc {
	v, err := vdisc.Load(url, c)
	vrt.Assert(err == nil, "a vdisc that was built is loaded")
	return v
}

// V01Image reads any range of the image of files of any size.
func V01Image() {
	fs, s := world()
	n := vrt.Choose("files", vrt.Param("files", 2, 3)+1)
	for i := 0; i < n; i++ {
		size := int64(vrt.Bits("blocks", 20))*2048 + rests[vrt.Choose("rest", len(rests))]
		s.files = append(s.files, source{path: names[i], url: urls[i], size: size, seed: byte(i + 1)})
	}
	v := load(burn(s, "/x/y.vdsc"), plain{})
	vrt.Assert(v.FsType() == "iso9660" && v.BlockSize() == 2048, "the type and block size are as built")

	meta := fs.Files["/x/y.vdsc.isohdr"].Data
	img := v.Image()
	locate(meta, s)
	size := int64(len(meta))
	for _, f := range s.files {
		size += sectorsOf(f.size) * 2048
	}
	vrt.Assert(img.Size() == size, "the image has the size of its sectors")

	head := make([]byte, len(meta))
	m, err := img.ReadAt(head, 0)
	vrt.Assert(m == len(meta) && (err == nil || err == io.EOF), "the metadata is read")
	vrt.Assert(vrt.EqBytes(head, meta), "the metadata region is the metadata")

	if n == 0 {
		return
	}
	f := s.files[vrt.Choose("file", n)]
	got, err := v.ExtentURL(f.at)
	vrt.Assert(err == nil && got == f.url, "a file's address has its URL")
	o, err := v.OpenExtent(f.at)
	vrt.Assert(err == nil && o.Size() == f.size && o.URL() == f.url, "a file's address has its object")

	buf := make([]byte, vrt.Param("len", 2, 3))
	off := int64(vrt.Bits("off", 32))
	vrt.Assume(off < sectorsOf(f.size)*2048-int64(len(buf)))
	m, err = img.ReadAt(buf, int64(f.at)*2048+off)
	vrt.Assert(m == len(buf) && err == nil, "a read within a file's sectors succeeds")
	for i, b := range buf {
		if vrt.Decide(off+int64(i) < f.size) {
			vrt.Assert(s.log.Is(b, f.seed, off+int64(i)), "a file's bytes are at its address")
			vrt.Cover("content")
		} else {
			vrt.Assert(b == 0, "a file is followed by zeros")
			vrt.Cover("padding")
		}
	}
	vrt.Assert(s.open == n && s.bad == 0, "reads close what they open")
}

// V01Address asks for any address.
func V01Address() {
	fs, s := world()
	n := vrt.Choose("files", 3)
	for i := 0; i < n; i++ {
		s.files = append(s.files, source{path: names[i], url: urls[i], size: int64(vrt.Bits("size", 13)), seed: byte(i + 1)})
	}
	v := load(burn(s, "/x/y.vdsc"), plain{})
	locate(fs.Files["/x/y.vdsc.isohdr"].Data, s)
	at := iso9660.LogicalBlockAddress(vrt.U32("address"))
	got, err := v.ExtentURL(at)
	o, err2 := v.OpenExtent(at)
	want := ""
	if vrt.Decide(at == 0) {
		want = "/x/y.vdsc.isohdr"
	}
	for _, f := range s.files {
		if vrt.Decide(at == f.at) {
			want = f.url
		}
	}
	if want == "" {
		vrt.Assert(err != nil && err2 != nil && o == nil, "there is nothing at other addresses")
		vrt.Cover("nothing")
		return
	}
	vrt.Assert(err == nil && err2 == nil && got == want && o.URL() == want, "an address has what was put there")
	vrt.Cover("extent")
}

// versioned gives objects a version when they are written.
type versioned struct{ *fake.FS }

type verWriter struct{ driver.ObjectWriter }

func (v versioned) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	w, err := v.FS.Create(ctx, url)
	if err != nil {
		return nil, err
	}
	return verWriter{w}, nil
}

func (w verWriter) Commit() (driver.CommitInfo, error) {
	ci, err := w.ObjectWriter.Commit()
	if err != nil {
		return nil, err
	}
	return driver.NewCommitInfo(ci.ObjectURL() + "?v=7"), nil
}

func (v versioned) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	if !strings.HasSuffix(url, "?v=7") {
		return nil, os.ErrNotExist
	}
	return v.FS.Open(ctx, strings.TrimSuffix(url, "?v=7"), size)
}

// V01URL builds vdiscs of files with any URL at any URL.
func V01URL() {
	fs, s := world()
	driver.Register("mem", fs)
	driver.Register("ver", versioned{fs})
	n := vrt.Param("files", 2, 3)
	bases := []string{"/x/y.vdsc", "y.vdsc", "x/y.vdsc", "mem://h/x/y.vdsc", "mem:///x/y.vdsc", "file:///x/y.vdsc", "ver://h/y.vdsc"}
	base := bases[vrt.Choose("base", len(bases))]
	hosts := []string{"src://h/", "src:///", "/x/"}
	host := hosts[vrt.Choose("host", len(hosts))]
	tail := []string{"", "%2Fz?v=1"}[vrt.Choose("tail", 2)]
	local := host == "/x/"
	if local {
		if strings.Contains(base, ":") {
			return // a path without a scheme is relative to such a vdisc
		}
		fs.Missing = func(path string) *fake.File { return &fake.File{} }
	}
	for i := 0; i < n; i++ {
		f := source{path: names[i], seed: byte(i + 1), size: int64(i) * 2048}
		if local {
			f.size = 0
		}
		f.url = host + lower("url", vrt.Choose("length", 2)+1)
		if i == 0 && !local {
			f.url += tail
		}
		s.files = append(s.files, f)
	}
	url := burn(s, base)
	v := load(url, plain{})
	locate(fs.Files[base+".isohdr"].Data, s)
	version := ""
	if base[0] == 'v' {
		version = "?v=7"
	}
	meta, err := v.ExtentURL(0)
	vrt.Assert(err == nil && meta == base+".isohdr"+version, "the metadata has its URL")
	for _, f := range s.files {
		got, err := v.ExtentURL(f.at)
		vrt.Assert(err == nil, "every file has a URL")
		vrt.Assert(vrt.EqString(got, f.url), "every file has the URL it was added with")
	}
}

// built is two vdiscs, of which the second has one object twice.
type built struct {
	s     *sources
	files [2][]source
	url   [2]string
}

func buildTwo() interface{} {
	fs, s := world()
	b := &built{s: s}
	for k := 0; k < 2; k++ {
		s.files = nil
		for i := 0; i < 2; i++ {
			j := i * (1 - k)
			s.files = append(s.files, source{path: names[i], url: urls[j], size: int64(10 + j), seed: byte(j + 1)})
		}
		url := []string{"/x/y.vdsc", "/x/z.vdsc"}[k]
		b.url[k] = burn(s, url)
		locate(fs.Files[url+".isohdr"].Data, s)
		b.files[k] = s.files
	}
	s.files = b.files[0]
	return b
}

// V01Cached reads images through a cache.
func V01Cached() {
	b := vrt.Setup(buildTwo).(*built)
	s := b.s
	s.log = &fake.Log{}
	sl, err := caching.NewMemorySlicer(8, 2)
	vrt.Assert(err == nil, "a memory cache is made")
	c := caching.NewCache(sl, 0, 1)
	which := vrt.Choose("vdisc", 2)
	v := load(b.url[which], c)
	for i := 0; i < vrt.Param("reads", 2, 3); i++ {
		f := b.files[which][vrt.Choose("file", 2)]
		var r io.ReaderAt = v.Image()
		base := int64(f.at) * 2048
		if vrt.Decide(vrt.Bool("extent")) {
			r, err = v.OpenExtent(f.at)
			vrt.Assert(err == nil, "a file's address has its object")
			base = 0
		}
		buf := make([]byte, 2)
		off := int64(vrt.Bits("off", 4))
		vrt.Assume(off < f.size)
		n, err := r.ReadAt(buf, base+off)
		vrt.Assert(n > 0 && (err == nil || err == io.EOF), "a read within a file succeeds")
		for j := 0; j < n; j++ {
			if vrt.Decide(off+int64(j) < f.size) {
				vrt.Assert(s.log.Is(buf[j], f.seed, off+int64(j)), "a file's bytes are at its address")
				vrt.Cover("content")
			} else {
				vrt.Assert(buf[j] == 0, "a file is followed by zeros")
				vrt.Cover("padding")
			}
		}
	}
}
