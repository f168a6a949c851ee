package isofuse

import (
	"context"
	"errors"
	"os"
	"strings"
	"sync"

	"github.com/jacobsa/fuse"
	"github.com/jacobsa/fuse/fuseops"
	"github.com/jacobsa/fuse/fuseutil"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vfuse/ristretto"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// zzImage is the image of a volume.
type zzImage struct{ fake.Image }

func (m *zzImage) Close() error                   { return nil }
func (m *zzImage) Read([]byte) (int, error)       { return 0, errors.New("not expected") }
func (m *zzImage) Seek(int64, int) (int64, error) { return 0, errors.New("not expected") }
func (m *zzImage) Size() int64                    { return int64(len(m.Data)) }

// zzVolume is an image with the objects of its files.
type zzVolume struct {
	image *zzImage
	files map[iso9660.LogicalBlockAddress]*fake.Obj
	opens []*fake.Obj
	fail  bool
}

func (v *zzVolume) Image() storage.AnonymousObject { return v.image }

func (v *zzVolume) OpenExtent(lba iso9660.LogicalBlockAddress) (storage.Object, error) {
	o, ok := v.files[lba]
	if !ok || v.fail {
		return nil, errors.New("no such extent")
	}
	c := *o
	v.opens = append(v.opens, &c)
	return &c, nil
}

// zzNode is an entry that was added.
type zzNode struct {
	parent *zzNode
	name   string
	kind   fuseutil.DirentType
	size   int64
	target string
	obj    *fake.Obj
	ino    fuseops.InodeID
	kids   []*zzNode
	refs   uint64
}

type zzTree struct {
	vol   *zzVolume
	root  *zzNode
	nodes []*zzNode
	fs    fuseutil.FileSystem
}

func (t *zzTree) dir(n *zzNode, name string) *zzNode {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	k := &zzNode{parent: n, name: name, kind: fuseutil.DT_Directory}
	n.kids = append(n.kids, k)
	t.nodes = append(t.nodes, k)
	return k
}

func (t *zzTree) add(v *iso9660.Volume, p string, size int64, target string) {
	parts := strings.Split(p, "/")[1:]
	n := t.root
	for _, s := range parts[:len(parts)-1] {
		n = t.dir(n, s)
	}
	k := &zzNode{parent: n, name: parts[len(parts)-1], kind: fuseutil.DT_File, size: size}
	var err error
	if target == "" {
		k.obj = &fake.Obj{Name: "obj:" + p, Len: size, Seed: byte(17*len(t.nodes) + 3)}
		err = v.AddFile(p, k.obj)
	} else {
		k.kind, k.target, k.size = fuseutil.DT_Link, target, int64(len(target))
		err = v.AddSymlink(p, target)
	}
	if err != nil {
		panic(err)
	}
	n.kids = append(n.kids, k)
	t.nodes = append(t.nodes, k)
}

func (t *zzTree) finish(v *iso9660.Volume) *zzTree {
	t.vol = &zzVolume{image: &zzImage{}, files: map[iso9660.LogicalBlockAddress]*fake.Obj{}}
	if _, err := v.WriteMetadataTo(&t.vol.image.Image); err != nil {
		panic(err)
	}
	v.VisitFileInodes(func(f *iso9660.FileInode) error {
		t.vol.files[f.Start()] = f.Object().(*fake.Obj)
		return nil
	})
	s, err := NewWithOptions("mnt", t.vol, Options{})
	if err != nil {
		panic(err)
	}
	t.fs = s.fs
	return t
}

func zzStart() (*iso9660.Volume, *zzTree) {
	root := &zzNode{kind: fuseutil.DT_Directory, ino: 1}
	return iso9660.NewVolume(), &zzTree{root: root, nodes: []*zzNode{root}}
}

// zzSmall is a small tree.
func zzSmall() interface{} {
	v, t := zzStart()
	t.add(v, "/a", 5, "")
	t.add(v, "/b/a", 7, "")
	t.add(v, "/b/c/a", 9, "")
	t.add(v, "/l", 0, "b/a")
	return t.finish(v)
}

// zzLarge has a directory of several sectors and a file of several parts.
func zzLarge() interface{} {
	v, t := zzStart()
	t.add(v, "/big", 5<<30, "")
	t.add(v, "/d/e/f", 1, "")
	for i := 0; i < 14; i++ {
		t.add(v, "/d/"+strings.Repeat(string([]byte{'a' + byte(i)}), 60+10*(i%4)), int64(i), "")
	}
	t.add(v, "/d/z", 0, "/")
	t.add(v, "/z", 2, "")
	return t.finish(v)
}

type zzDirent struct {
	ino  fuseops.InodeID
	off  fuseops.DirOffset
	name string
	kind fuseutil.DirentType
}

func zzParse(b []byte) []zzDirent {
	le := func(b []byte) uint64 {
		var v uint64
		for i := len(b) - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[i])
		}
		return v
	}
	var out []zzDirent
	for len(b) > 0 {
		vrt.Assert(len(b) >= 24, "entries are whole")
		n := int(le(b[16:20]))
		size := (24 + n + 7) / 8 * 8
		vrt.Assert(len(b) >= size, "entries are whole")
		out = append(out, zzDirent{fuseops.InodeID(le(b[:8])), fuseops.DirOffset(le(b[8:16])), string(b[24 : 24+n]), fuseutil.DirentType(le(b[20:24]))})
		b = b[size:]
	}
	return out
}

func zzReadDir(fs fuseutil.FileSystem, ino fuseops.InodeID, off fuseops.DirOffset, size int) []zzDirent {
	op := &fuseops.ReadDirOp{Inode: ino, Offset: off, Dst: make([]byte, size)}
	vrt.Assert(fs.ReadDir(context.Background(), op) == nil, "a directory can be read")
	vrt.Assert(op.BytesRead <= size, "a listing fits its buffer")
	return zzParse(op.Dst[:op.BytesRead])
}

// zzLookup looks a name up and gives its inode.
func zzLookup(fs fuseutil.FileSystem, parent *zzNode, name string) (*fuseops.ChildInodeEntry, error) {
	op := &fuseops.LookUpInodeOp{Parent: parent.ino, Name: name}
	err := fs.LookUpInode(context.Background(), op)
	return &op.Entry, err
}

func (n *zzNode) agrees(a fuseops.InodeAttributes) {
	vrt.Assert(a.Mode.IsDir() == (n.kind == fuseutil.DT_Directory), "an inode has its kind")
	vrt.Assert((a.Mode&os.ModeSymlink != 0) == (n.kind == fuseutil.DT_Link), "an inode has its kind")
	if n.kind != fuseutil.DT_Directory {
		vrt.Assert(a.Size == uint64(n.size) && a.Nlink == 1, "an inode has its size")
	}
}

// zzEnter looks up one of the directories of the large tree and gives it with
// a size that holds any of its entries.
func zzEnter(t *zzTree) (*zzNode, int) {
	ristretto.Dropped = nil
	if vrt.Bool("nothing is cached") {
		ristretto.Dropped = func() bool { return true }
	}
	path := [][]string{{}, {"d"}, {"d", "e"}}[vrt.Choose("directory", 3)]
	dir := t.root
	for _, s := range path {
		next := t.dir(dir, s)
		e, err := zzLookup(t.fs, dir, s)
		vrt.Assert(err == nil, "a directory can be looked up")
		next.ino = e.Child
		dir = next
	}
	if len(path) == 1 {
		return dir, 120
	}
	return dir, 32
}

func (n *zzNode) lists(all []zzDirent) {
	vrt.Assert(len(all) == len(n.kids)+2, "a listing has every entry once")
	seen := map[string]bool{}
	for _, e := range all {
		vrt.Assert(!seen[e.name], "a listing has every entry once")
		seen[e.name] = true
		if e.name == "." || e.name == ".." {
			vrt.Assert(e.kind == fuseutil.DT_Directory, "an entry has its kind")
			if e.name == "." {
				vrt.Assert(e.ino == n.ino, "a directory lists itself")
			}
			continue
		}
		var k *zzNode
		for _, c := range n.kids {
			if c.name == e.name {
				k = c
			}
		}
		vrt.Assert(k != nil, "a listing has the names of the directory")
		vrt.Assert(k.kind == e.kind, "an entry has its kind")
	}
}

// F01List lists a directory in steps of any size.
func F01List() {
	t := vrt.Setup(zzLarge).(*zzTree)
	dir, least := zzEnter(t)
	sizes := vrt.Param("sizes", 24, 60)
	// the first steps have any size that holds an entry
	var all []zzDirent
	off := fuseops.DirOffset(0)
	for i := 0; ; i++ {
		size := 4096
		if i < vrt.Param("steps", 2, 3) {
			size = least + 8*vrt.Pick(vrt.Range("size", 0, sizes), 0, sizes)
		}
		list := zzReadDir(t.fs, dir.ino, off, size)
		if len(list) == 0 {
			break
		}
		if i > 1 {
			vrt.Cover("resumed twice")
		}
		all = append(all, list...)
		off = list[len(list)-1].off
		vrt.Assert(i < 40, "a listing ends")
	}
	dir.lists(all)
}

// F01Resume resumes a listing after any entry and looks the entry up.
func F01Resume() {
	t := vrt.Setup(zzLarge).(*zzTree)
	dir, _ := zzEnter(t)
	all := zzReadDir(t.fs, dir.ino, 0, 4096)
	dir.lists(all)
	i := vrt.Pick(vrt.Range("resume", 0, len(all)-1), 0, len(all)-1)
	rest := zzReadDir(t.fs, dir.ino, all[i].off, 4096)
	vrt.Assert(len(rest) == len(all)-1-i, "a listing resumes after an entry")
	for j, e := range rest {
		vrt.Assert(e == all[i+1+j], "a listing is always the same")
	}
	e := all[i]
	if e.name != "." && e.name != ".." {
		vrt.Cover("looked up")
		c, err := zzLookup(t.fs, dir, e.name)
		vrt.Assert(err == nil && c.Child == e.ino, "a listed name has its inode")
		for _, k := range dir.kids {
			if k.name == e.name {
				k.agrees(c.Attributes)
			}
		}
	}
	_, err := zzLookup(t.fs, dir, "missing")
	vrt.Assert(err == fuse.ENOENT, "a name that is not listed does not exist")
}

// F02History runs a history that the kernel could produce.
func F02History() {
	t := vrt.Setup(zzSmall).(*zzTree)
	steps := vrt.Param("steps", 4, 5)
	drop := vrt.Choose("cached", 2)
	ristretto.Dropped = func() bool { return drop == 0 }
	fs := t.fs
	ctx := context.Background()
	live := []*zzNode{t.root}
	inos := map[fuseops.InodeID]*zzNode{1: t.root}
	forgotten := func(n *zzNode) {
		for i, l := range live {
			if l == n {
				live = append(live[:i:i], live[i+1:]...)
				break
			}
		}
		n.refs = 0
		vrt.Assert(fs.GetInodeAttributes(ctx, &fuseops.GetInodeAttributesOp{Inode: n.ino}) != nil, "a forgotten inode is released")
	}
	for i := 0; i < steps; i++ {
		n := live[vrt.Choose("inode", len(live))]
		ops := 1
		if n.kind == fuseutil.DT_Directory {
			ops = 2 + len(n.kids) + 1
		}
		switch op := vrt.Choose("operation", ops); op {
		case 0:
			count := vrt.U64("count")
			vrt.Assume(count > 0)
			vrt.Assert(fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: n.ino, N: count}) == nil, "an inode can be forgotten")
			switch {
			case n == t.root:
			case count >= n.refs:
				// more than was looked up does not underflow
				vrt.Cover("forgotten")
				forgotten(n)
			default:
				vrt.Cover("forgotten in part")
				n.refs -= count
			}
		case 1:
			vrt.Assert(len(zzReadDir(fs, n.ino, 0, 4096)) == len(n.kids)+2, "a directory can be listed")
		default:
			name := "x"
			var want *zzNode
			if op-2 < len(n.kids) {
				want = n.kids[op-2]
				name = want.name
			}
			e, err := zzLookup(fs, n, name)
			if want == nil {
				vrt.Assert(err == fuse.ENOENT, "a missing name does not exist")
				break
			}
			vrt.Cover("lookup")
			vrt.Assert(err == nil, "a name can be looked up")
			want.agrees(e.Attributes)
			o, ok := inos[e.Child]
			vrt.Assert(!ok || o == want, "inodes are distinct")
			inos[e.Child] = want
			vrt.Assert(want.ino == 0 || want.ino == e.Child, "an inode keeps its number")
			want.ino = e.Child
			if want.refs == 0 {
				live = append(live, want)
			}
			want.refs++
		}
	}
	// every inode with lookups is answered
	for _, n := range live {
		op := &fuseops.GetInodeAttributesOp{Inode: n.ino}
		vrt.Assert(fs.GetInodeAttributes(ctx, op) == nil, "an inode with lookups has attributes")
		n.agrees(op.Attributes)
		switch n.kind {
		case fuseutil.DT_File:
			op := &fuseops.OpenFileOp{Inode: n.ino}
			vrt.Assert(fs.OpenFile(ctx, op) == nil, "a file can be opened")
			vrt.Assert(t.vol.opens[len(t.vol.opens)-1].Name == n.obj.Name, "a file is opened at its extent")
		case fuseutil.DT_Link:
			op := &fuseops.ReadSymlinkOp{Inode: n.ino}
			vrt.Assert(fs.ReadSymlink(ctx, op) == nil && op.Target == n.target, "a link has its target")
		default:
			vrt.Assert(len(zzReadDir(fs, n.ino, 0, 4096)) == len(n.kids)+2, "a directory can be listed")
		}
	}
}

// F03Handles opens, reads and releases files.
func F03Handles() {
	t := vrt.Setup(zzSmall).(*zzTree)
	steps := vrt.Param("steps", 3, 4) // the first one opens a file
	ristretto.Dropped = nil
	fs := t.fs
	ctx := context.Background()
	var files []*zzNode
	walk := func(dir *zzNode, name string) *zzNode {
		e, err := zzLookup(fs, dir, name)
		vrt.Assert(err == nil, "a name can be looked up")
		for _, c := range dir.kids {
			if c.name == name {
				c.ino = e.Child
				return c
			}
		}
		vrt.Stop()
		return nil
	}
	files = append(files, walk(t.root, "a"), walk(walk(t.root, "b"), "a"))
	type opened struct {
		n   *zzNode
		obj *fake.Obj
	}
	handles := map[fuseops.HandleID]*opened{}
	for i := 0; i < steps; i++ {
		op := 0
		if i > 0 {
			op = vrt.Choose("operation", 3)
		}
		switch op {
		case 0:
			f := files[vrt.Choose("file", len(files))]
			t.vol.fail = vrt.Bool("open fails")
			op := &fuseops.OpenFileOp{Inode: f.ino}
			err := fs.OpenFile(ctx, op)
			if t.vol.fail {
				vrt.Assert(err != nil, "a failed open is reported")
				break
			}
			vrt.Assert(err == nil, "a file can be opened")
			vrt.Assert(handles[op.Handle] == nil, "open handles are distinct")
			handles[op.Handle] = &opened{f, t.vol.opens[len(t.vol.opens)-1]}
			vrt.Cover("open")
		case 1:
			h := fuseops.HandleID(vrt.Pick(vrt.Range("handle", 0, steps), 0, steps))
			off := vrt.I64("offset")
			vrt.Assume(off >= 0)
			op := &fuseops.ReadFileOp{Handle: h, Offset: off, Dst: make([]byte, 2*vrt.Choose("size", 2))}
			err := fs.ReadFile(ctx, op)
			o := handles[h]
			if o == nil {
				vrt.Cover("unknown handle")
				vrt.Assert(err != nil, "reading a handle that is not open is an error")
				break
			}
			vrt.Assert(err == nil, "a file can be read")
			want := int64(len(op.Dst))
			if off >= o.n.size {
				want = 0
			} else if want > o.n.size-off {
				want = o.n.size - off
			}
			vrt.Assert(int64(op.BytesRead) == want, "a read is cut at the end")
			for j := 0; j < op.BytesRead; j++ {
				vrt.Cover("read")
				vrt.Assert(op.Dst[j] == fake.At(o.n.obj.Seed, off+int64(j)), "a handle reads its file")
			}
		case 2:
			h := fuseops.HandleID(vrt.Pick(vrt.Range("handle", 0, steps), 0, steps))
			op := &fuseops.ReleaseFileHandleOp{Handle: h}
			var err error
			panicked := vrt.Panics(func() { err = fs.ReleaseFileHandle(ctx, op) })
			vrt.Assert(!panicked, "releasing a handle does not crash")
			if o := handles[h]; o != nil {
				vrt.Cover("release")
				vrt.Assert(o.obj.Closed == 1, "a released handle closes its file")
				vrt.Assert(err == nil, "a handle can be released")
				delete(handles, h)
			} else {
				vrt.Assert(err != nil, "releasing a handle that is not open is an error")
			}
		}
		for _, o := range handles {
			vrt.Assert(o.obj.Closed == 0, "an open handle keeps its file open")
		}
	}
}

// zzFind looks up a path of the small tree.
func zzFind(t *zzTree, path ...string) *zzNode {
	n := t.root
	for _, s := range path {
		e, err := zzLookup(t.fs, n, s)
		vrt.Assert(err == nil, "a name can be looked up")
		n = t.dir(n, s)
		n.ino = e.Child
	}
	return n
}

// F03Threads opens, reads and releases files at once.
func F03Threads() {
	t := vrt.Setup(zzSmall).(*zzTree)
	ristretto.Dropped = nil
	ctx := context.Background()
	files := []*zzNode{zzFind(t, "a"), zzFind(t, "b", "a")}
	if vrt.Bool("same file") {
		files[1] = files[0]
	}
	vrt.Preempt(vrt.Param("preemptions", 2, 3))
	wg := &sync.WaitGroup{}
	for _, f := range files {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2; i++ {
				op := &fuseops.OpenFileOp{Inode: f.ino}
				vrt.Assert(t.fs.OpenFile(ctx, op) == nil, "a file can be opened")
				rd := &fuseops.ReadFileOp{Handle: op.Handle, Offset: 1, Dst: make([]byte, 1)}
				vrt.Assert(t.fs.ReadFile(ctx, rd) == nil && rd.BytesRead == 1, "a file can be read")
				vrt.Assert(rd.Dst[0] == fake.At(f.obj.Seed, 1), "a handle reads its file")
				vrt.Assert(t.fs.ReleaseFileHandle(ctx, &fuseops.ReleaseFileHandleOp{Handle: op.Handle}) == nil, "a handle can be released")
			}
		}()
	}
	wg.Wait()
	vrt.Assert(len(t.vol.opens) == 4, "every open opens the file")
	for _, o := range t.vol.opens {
		vrt.Assert(o.Closed == 1, "a released handle closes its file")
	}
	vrt.Cover("done")
}

// F02Threads looks names up and forgets them at once.
func F02Threads() {
	t := vrt.Setup(zzSmall).(*zzTree)
	ristretto.Dropped = nil
	if vrt.Bool("nothing is cached") {
		ristretto.Dropped = func() bool { return true }
	}
	ctx := context.Background()
	b := zzFind(t, "b")
	name := []string{"a", "c"}[vrt.Choose("name", 2)]
	n := t.dir(b, name)
	vrt.Preempt(vrt.Param("preemptions", 2, 3))
	wg := &sync.WaitGroup{}
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e, err := zzLookup(t.fs, b, name)
			vrt.Assert(err == nil, "a name can be looked up")
			n.agrees(e.Attributes)
			op := &fuseops.GetInodeAttributesOp{Inode: e.Child}
			vrt.Assert(t.fs.GetInodeAttributes(ctx, op) == nil, "an inode with lookups has attributes")
			n.agrees(op.Attributes)
			vrt.Assert(t.fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: e.Child, N: 1}) == nil, "an inode can be forgotten")
			n.ino = e.Child
		}()
	}
	wg.Wait()
	vrt.Assert(t.fs.GetInodeAttributes(ctx, &fuseops.GetInodeAttributesOp{Inode: n.ino}) != nil, "a forgotten inode is released")
	vrt.Cover("done")
}
