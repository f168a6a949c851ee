package fake

import (
	"context"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
)

// FS is a file system behind the storage driver interface, with attributes,
// locks, faults and crashes.
type FS struct {
	mu    sync.Mutex
	Files map[string]*File
	Dirs  map[string]bool
	locks map[string]chan bool
	// Fault, when set, is asked before each operation; it may return an
	// error, which fails the operation.
	Fault func(op, path string) error
	// Missing, when set, is asked for a file that is opened and not there.
	Missing func(path string) *File
	Dead    bool // a crash: no operation has an effect
	Open_   int  // open handles
	MaxOpen int  // limit on open handles, if any
	Tmp     int  // files being written
	Locked  int  // locks held
	Removed []string
	Made    []string
	Last    *File // the last file committed
}

// File is a file of an FS.
type File struct {
	Data  []byte
	Xattr map[string][]byte
	Plain bool // its object has no attributes
}

func NewFS() *FS {
	return &FS{Files: map[string]*File{}, Dirs: map[string]bool{}, locks: map[string]chan bool{}}
}

// Install makes f the only driver.
func (f *FS) Install() func() {
	undo := driver.ClearRegistry()
	driver.Register("file", f)
	return undo
}

func (f *FS) Name() string { return "fakefs" }

func (f *FS) fault(op, path string) error {
	if f.Dead {
		return ErrFault
	}
	if f.Fault != nil {
		f.mu.Lock()
		defer f.mu.Unlock()
		return f.Fault(op, path)
	}
	return nil
}

func gone(path string) error {
	return &os.PathError{Op: "open", Path: path, Err: syscall.ENOENT}
}

func (f *FS) Open(ctx context.Context, path string, size int64) (driver.Object, error) {
	if err := f.fault("open", path); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	e := f.Files[path]
	if e == nil && f.Missing != nil {
		if e = f.Missing(path); e != nil {
			f.Files[path] = e
		}
	}
	if e == nil {
		return nil, gone(path)
	}
	if f.MaxOpen > 0 && f.Open_ >= f.MaxOpen {
		return nil, &os.PathError{Op: "open", Path: path, Err: syscall.EMFILE}
	}
	f.Open_++
	o := &fsObj{fs: f, e: e, path: path}
	if e.Plain {
		return &fsPlain{o}, nil
	}
	return o, nil
}

type fsPlain struct{ driver.Object }

type fsObj struct {
	fs     *FS
	e      *File
	path   string
	pos    int64
	closed bool
}

func (o *fsObj) URL() string { return o.path }
func (o *fsObj) Size() int64 { return int64(len(o.e.Data)) }

func (o *fsObj) Close() error {
	o.fs.mu.Lock()
	defer o.fs.mu.Unlock()
	if !o.closed {
		o.closed = true
		o.fs.Open_--
	}
	return nil
}

func (o *fsObj) GetXattr(name string) ([]byte, error) {
	if err := o.fs.fault("getxattr", o.path); err != nil {
		return nil, err
	}
	v, ok := o.e.Xattr[name]
	if !ok {
		return nil, syscall.ENODATA
	}
	return append([]byte(nil), v...), nil
}

func (o *fsObj) ReadAt(p []byte, off int64) (int, error) {
	if o.closed {
		return 0, os.ErrClosed
	}
	if err := o.fs.fault("readat", o.path); err != nil {
		return 0, err
	}
	if off >= int64(len(o.e.Data)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, o.e.Data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (o *fsObj) Read(p []byte) (int, error) {
	n, err := o.ReadAt(p, o.pos)
	o.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

func (o *fsObj) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += o.pos
	case io.SeekEnd:
		off += int64(len(o.e.Data))
	}
	o.pos = off
	return off, nil
}

func (f *FS) Create(ctx context.Context, path string) (driver.ObjectWriter, error) {
	if err := f.fault("create", path); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Tmp++
	return &fsWriter{fs: f, path: path, e: &File{Xattr: map[string][]byte{}}}, nil
}

type fsWriter struct {
	fs   *FS
	path string
	e    *File
	done bool
}

func (w *fsWriter) Write(p []byte) (int, error) {
	if err := w.fs.fault("write", w.path); err != nil {
		// part of it is written
		w.e.Data = append(w.e.Data, p[:len(p)/2]...)
		return len(p) / 2, err
	}
	w.e.Data = append(w.e.Data, p...)
	return len(p), nil
}

func (w *fsWriter) SetXattr(name string, v []byte) error {
	if err := w.fs.fault("setxattr", w.path); err != nil {
		return err
	}
	w.e.Xattr[name] = append([]byte(nil), v...)
	return nil
}

func (w *fsWriter) end() bool {
	if w.done {
		return false
	}
	w.done = true
	w.fs.Tmp--
	return true
}

func (w *fsWriter) Abort() {
	if w.fs.Dead {
		return
	}
	w.fs.mu.Lock()
	defer w.fs.mu.Unlock()
	w.end()
}

func (w *fsWriter) publish() {
	f := w.fs
	f.mu.Lock()
	defer f.mu.Unlock()
	if !w.end() {
		return
	}
	f.Files[w.path] = w.e
	f.Dirs[filepath.Dir(w.path)] = true
	f.Made = append(f.Made, w.path)
	f.Last = w.e
}

// ErrLate fails an operation after it has had its effect.
var ErrLate = os.ErrDeadlineExceeded

func (w *fsWriter) Commit() (driver.CommitInfo, error) {
	if w.done {
		return nil, driver.CommitOnAbortedObjectWriter
	}
	if err := w.fs.fault("commit", w.path); err != nil {
		if err == ErrLate {
			w.publish()
		}
		return nil, err
	}
	w.publish()
	return driver.NewCommitInfo(w.path), nil
}

func (f *FS) Remove(ctx context.Context, path string) error {
	if err := f.fault("remove", path); err != nil {
		return err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Removed = append(f.Removed, path)
	if f.Files[path] == nil {
		return gone(path)
	}
	delete(f.Files, path)
	return nil
}

// Info describes an entry of an FS.
type Info struct {
	Base string
	Dir  bool
	Len  int64
}

func (i *Info) Name() string { return i.Base }
func (i *Info) Size() int64  { return i.Len }
func (i *Info) IsDir() bool  { return i.Dir }
func (i *Info) Mode() os.FileMode {
	if i.Dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (i *Info) ModTime() time.Time { return time.Time{} }
func (i *Info) Sys() interface{}   { return nil }

func (f *FS) Stat(ctx context.Context, path string) (os.FileInfo, error) {
	if err := f.fault("stat", path); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if e := f.Files[path]; e != nil {
		return &Info{Base: filepath.Base(path), Len: int64(len(e.Data))}, nil
	}
	if f.Dirs[path] {
		return &Info{Base: filepath.Base(path), Dir: true}, nil
	}
	return nil, gone(path)
}

func (f *FS) Readdir(ctx context.Context, path string) ([]os.FileInfo, error) {
	if err := f.fault("readdir", path); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	seen := map[string]os.FileInfo{}
	under := path + "/"
	for p, e := range f.Files {
		if strings.HasPrefix(p, under) {
			rest := p[len(under):]
			if i := strings.IndexByte(rest, '/'); i >= 0 {
				seen[rest[:i]] = &Info{Base: rest[:i], Dir: true}
			} else {
				seen[rest] = &Info{Base: rest, Len: int64(len(e.Data))}
			}
		}
	}
	for p := range f.Dirs {
		if p == path {
			continue
		}
		if strings.HasPrefix(p, under) {
			rest := p[len(under):]
			if i := strings.IndexByte(rest, '/'); i >= 0 {
				rest = rest[:i]
			}
			seen[rest] = &Info{Base: rest, Dir: true}
		}
	}
	if len(seen) == 0 && !f.Dirs[path] {
		return nil, gone(path)
	}
	var names []string
	for n := range seen {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []os.FileInfo
	for _, n := range names {
		out = append(out, seen[n])
	}
	return out, nil
}

type fsLock struct {
	fs     *FS
	path   string
	closed bool
}

func (f *FS) Lock(ctx context.Context, path string) (io.Closer, error) {
	if err := f.fault("lock", path); err != nil {
		return nil, err
	}
	f.mu.Lock()
	c := f.locks[path]
	if c == nil {
		c = make(chan bool, 1)
		f.locks[path] = c
	}
	f.mu.Unlock()
	c <- true
	f.mu.Lock()
	f.Locked++
	f.mu.Unlock()
	return &fsLock{fs: f, path: path}, nil
}

func (f *FS) RLock(ctx context.Context, path string) (io.Closer, error) { return f.Lock(ctx, path) }

// Close releases the lock, even when it reports an error.
func (l *fsLock) Close() error {
	err := l.fs.fault("unlock", l.path)
	l.fs.mu.Lock()
	c := l.fs.locks[l.path]
	was := l.closed
	l.closed = true
	if !was {
		l.fs.Locked--
	}
	l.fs.mu.Unlock()
	if !was {
		<-c
	}
	return err
}

// Unlock releases all locks, whose holders are gone.
func (f *FS) Unlock() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.locks = map[string]chan bool{}
	f.Locked = 0
}
