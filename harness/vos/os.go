package vos

import (
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModeDir     = os.ModeDir
	ModePerm    = os.ModePerm
	ModeSymlink = os.ModeSymlink
	ModeType    = os.ModeType

	PathSeparator = os.PathSeparator
	DevNull       = os.DevNull
	SEEK_SET      = 0
	SEEK_CUR      = 1
	SEEK_END      = 2
)

var (
	ErrInvalid    = os.ErrInvalid
	ErrPermission = os.ErrPermission
	ErrExist      = os.ErrExist
	ErrNotExist   = os.ErrNotExist
	ErrClosed     = os.ErrClosed

	Stdin  = os.Stdin
	Stdout = os.Stdout
	Stderr = os.Stderr

	Interrupt = os.Interrupt
	Kill      = os.Kill
	Args      = os.Args
)

func IsNotExist(err error) bool                  { return os.IsNotExist(err) }
func IsExist(err error) bool                     { return os.IsExist(err) }
func IsPermission(err error) bool                { return os.IsPermission(err) }
func IsTimeout(err error) bool                   { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool               { return os.IsPathSeparator(c) }
func SameFile(a, b os.FileInfo) bool             { return a == b }
func Getpid() int                                { return 1 }
func Getuid() int                                { return 0 }
func Getgid() int                                { return 0 }
func Getenv(k string) string                     { return "" }
func LookupEnv(k string) (string, bool)          { return "", false }
func Environ() []string                          { return nil }
func Exit(code int)                              { panic("exit") }
func Hostname() (string, error)                  { return "host", nil }
func TempDir() string                            { return "/tmp" }
func Getwd() (string, error)                     { return "/work", nil }
func NewSyscallError(call string, e error) error { return os.NewSyscallError(call, e) }

// File is an open file.
type File struct {
	d      *Disk
	n      *Node
	name   string // as opened
	path   string
	fd     int
	flag   int
	pos    int64
	closed bool
	listed bool
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.open("open", name, flag, perm)
}

func (d *Disk) open(op, name string, flag int, perm os.FileMode) (*File, error) {
	if err := d.fault(op, name); err != nil {
		return nil, err
	}
	if d.MaxOpen > 0 && len(d.fds) >= d.MaxOpen {
		return nil, fail("open", name, syscall.EMFILE)
	}
	path := clean(name)
	if path == "" {
		return nil, fail("open", name, syscall.ENOENT)
	}
	n := d.names[path]
	switch {
	case n == nil && flag&O_CREATE == 0:
		return nil, fail("open", name, syscall.ENOENT)
	case n == nil:
		if p := d.names[filepath.Dir(path)]; p == nil {
			return nil, fail("open", name, syscall.ENOENT)
		} else if !p.Dir {
			return nil, fail("open", name, syscall.ENOTDIR)
		}
		n = &Node{Xattr: map[string][]byte{}, mode: perm, links: 1}
		d.names[path] = n
	case flag&O_CREATE != 0 && flag&O_EXCL != 0:
		return nil, fail("open", name, syscall.EEXIST)
	case n.Dir && flag&(O_WRONLY|O_RDWR) != 0:
		return nil, fail("open", name, syscall.EISDIR)
	case flag&O_TRUNC != 0:
		n.Data = nil
	}
	f := &File{d: d, n: n, name: name, path: path, fd: d.next, flag: flag}
	d.fds[d.next] = f
	d.next++
	return f, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.open("create", d.tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	d := disk()
	d.mu.Lock()
	name := d.tempName(dir, pattern)
	d.mu.Unlock()
	return name, Mkdir(name, 0700)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.closed {
		return ^uintptr(0)
	}
	return uintptr(f.fd)
}

// use starts an operation on an open file, with its disk locked.
func (f *File) use(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return f.d.fault(op, f.path)
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if f.closed {
		return &os.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	// a close that fails closes nevertheless
	err := f.d.fault("close", f.path)
	f.closed = true
	delete(f.d.fds, f.fd)
	if f.n.locks != nil {
		delete(f.n.locks, f)
		f.d.cond.Broadcast()
	}
	return err
}

func (f *File) Sync() error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("sync"); err != nil {
		return err
	}
	f.n.sync()
	return nil
}

func (f *File) Stat() (os.FileInfo, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("stat"); err != nil {
		return nil, err
	}
	return f.n.info(f.path), nil
}

func (f *File) Chmod(mode os.FileMode) error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("chmod"); err != nil {
		return err
	}
	f.n.mode = mode
	return nil
}

func (f *File) Write(p []byte) (int, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if f.flag&O_APPEND != 0 {
		f.pos = int64(len(f.n.Data))
	}
	n, err := f.write(p, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	return f.write(p, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) write(p []byte, off int64) (int, error) {
	err := f.use("write")
	if err != nil {
		if f.closed || f.d.Dead {
			return 0, err
		}
		// part of it is written
		p = p[:len(p)/2]
	} else if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, fail("write", f.name, syscall.EBADF)
	}
	end := off + int64(len(p))
	data := append([]byte(nil), f.n.Data...)
	for int64(len(data)) < end {
		data = append(data, 0)
	}
	copy(data[off:], p)
	f.n.Data = data
	return len(p), err
}

func (f *File) Truncate(size int64) error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("truncate"); err != nil {
		return err
	}
	data := append([]byte(nil), f.n.Data...)
	for int64(len(data)) < size {
		data = append(data, 0)
	}
	f.n.Data = data[:size]
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	n, err := f.read(p, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) read(p []byte, off int64) (int, error) {
	if err := f.use("read"); err != nil {
		return 0, err
	}
	if f.n.Dir {
		return 0, fail("read", f.name, syscall.EISDIR)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if off >= int64(len(f.n.Data)) {
		return 0, io.EOF
	}
	return copy(p, f.n.Data[off:]), nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if off < 0 {
		return 0, &os.PathError{Op: "readat", Path: f.name, Err: os.ErrInvalid}
	}
	n, err := f.read(p, off)
	if err == nil && n < len(p) {
		err = io.EOF
	}
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, fail("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("readdir"); err != nil {
		return nil, err
	}
	if !f.n.Dir {
		return nil, fail("readdir", f.name, syscall.ENOTDIR)
	}
	if f.listed {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	f.listed = true
	return f.d.list(f.path), nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.Readdir(n)
	var out []string
	for _, fi := range l {
		out = append(out, fi.Name())
	}
	return out, err
}

func (d *Disk) list(path string) []os.FileInfo {
	var out []os.FileInfo
	for p, n := range d.names {
		if p != "/" && filepath.Dir(p) == path {
			out = append(out, n.info(p))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func ReadDirInfo(name string) ([]os.FileInfo, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.Readdir(-1)
}

func Stat(name string) (os.FileInfo, error) {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("stat", name); err != nil {
		return nil, err
	}
	n := d.names[clean(name)]
	if n == nil {
		return nil, fail("stat", name, syscall.ENOENT)
	}
	return n.info(clean(name)), nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm os.FileMode) error {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("mkdir", name); err != nil {
		return err
	}
	path := clean(name)
	if d.names[path] != nil {
		return fail("mkdir", name, syscall.EEXIST)
	}
	if p := d.names[filepath.Dir(path)]; p == nil {
		return fail("mkdir", name, syscall.ENOENT)
	} else if !p.Dir {
		return fail("mkdir", name, syscall.ENOTDIR)
	}
	d.names[path] = &Node{Dir: true, mode: perm}
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("mkdir", name); err != nil {
		return err
	}
	var need []string
	for path := clean(name); ; path = filepath.Dir(path) {
		n := d.names[path]
		if n != nil && !n.Dir {
			return fail("mkdir", name, syscall.ENOTDIR)
		}
		if n != nil {
			break
		}
		need = append(need, path)
	}
	for _, path := range need {
		d.names[path] = &Node{Dir: true, mode: perm}
	}
	return nil
}

func Remove(name string) error {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("remove", name); err != nil {
		return err
	}
	path := clean(name)
	n := d.names[path]
	if n == nil {
		return fail("remove", name, syscall.ENOENT)
	}
	if n.Dir && len(d.list(path)) > 0 {
		return fail("remove", name, syscall.ENOTEMPTY)
	}
	delete(d.names, path)
	d.Removed = append(d.Removed, path)
	return nil
}

func RemoveAll(name string) error {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("remove", name); err != nil {
		return err
	}
	path := clean(name)
	var all []string
	for p := range d.names {
		if p == path || strings.HasPrefix(p, path+"/") {
			all = append(all, p)
		}
	}
	sort.Strings(all)
	for _, p := range all {
		delete(d.names, p)
		d.Removed = append(d.Removed, p)
	}
	return nil
}

func Rename(from, to string) error {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("rename", from); err != nil {
		return err
	}
	a, b := clean(from), clean(to)
	n := d.names[a]
	e := syscall.Errno(0)
	switch {
	case n == nil || d.names[filepath.Dir(b)] == nil:
		e = syscall.ENOENT
	case mount(a) != mount(b):
		e = syscall.EXDEV
	case d.names[b] != nil && d.names[b].Dir:
		e = syscall.EEXIST
	case n.Dir:
		e = syscall.EINVAL // directories are not renamed here
	}
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	delete(d.names, a)
	d.names[b] = n
	return nil
}

func Link(from, to string) error {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("link", from); err != nil {
		return err
	}
	a, b := clean(from), clean(to)
	n := d.names[a]
	e := syscall.Errno(0)
	switch {
	case n == nil || d.names[filepath.Dir(b)] == nil:
		e = syscall.ENOENT
	case d.names[b] != nil:
		e = syscall.EEXIST
	case mount(a) != mount(b):
		e = syscall.EXDEV
	}
	if e != 0 {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	d.names[b] = n
	return nil
}

func Chmod(name string, mode os.FileMode) error {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("chmod", name); err != nil {
		return err
	}
	n := d.names[clean(name)]
	if n == nil {
		return fail("chmod", name, syscall.ENOENT)
	}
	n.mode = mode
	return nil
}

func Chtimes(name string, a, m time.Time) error { return Chmod(name, 0644) }

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 64)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

// ---- system calls on descriptors

// ByFd is the open file with a descriptor.
func ByFd(fd int) *File {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.fds[fd]
}

// errno is the error of a system call.
func errno(err error) error {
	if e, ok := err.(*os.PathError); ok {
		return e.Err
	}
	return err
}

func Fsetxattr(fd int, name string, value []byte, flags int) error {
	f := ByFd(fd)
	if f == nil {
		return syscall.EBADF
	}
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("setxattr"); err != nil {
		return errno(err)
	}
	m := copyAttrs(f.n.Xattr)
	m[name] = append([]byte(nil), value...)
	f.n.Xattr = m
	return nil
}

func Fgetxattr(fd int, name string, dest []byte) (int, error) {
	f := ByFd(fd)
	if f == nil {
		return 0, syscall.EBADF
	}
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("getxattr"); err != nil {
		return -1, errno(err)
	}
	v, ok := f.n.Xattr[name]
	if !ok {
		return -1, syscall.ENODATA
	}
	if len(dest) == 0 {
		return len(v), nil
	}
	if len(v) > len(dest) {
		return -1, syscall.ERANGE
	}
	return copy(dest, v), nil
}

func Fsync(fd int) error {
	f := ByFd(fd)
	if f == nil {
		return syscall.EBADF
	}
	return errno(f.Sync())
}

const (
	lockSH = syscall.LOCK_SH
	lockEX = syscall.LOCK_EX
	lockNB = syscall.LOCK_NB
	lockUN = syscall.LOCK_UN
)

// Flock locks like flock(2): locks belong to open files.
func Flock(fd int, how int) error {
	f := ByFd(fd)
	if f == nil {
		return syscall.EBADF
	}
	d := f.d
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := f.use("flock"); err != nil {
		return errno(err)
	}
	n := f.n
	if n.locks == nil {
		n.locks = map[*File]int{}
	}
	if how&lockUN != 0 {
		delete(n.locks, f)
		d.cond.Broadcast()
		return nil
	}
	want := how &^ lockNB
	for {
		free := true
		for g, h := range n.locks {
			if g != f && (h == lockEX || want == lockEX) {
				free = false
			}
		}
		if free {
			n.locks[f] = want
			return nil
		}
		if how&lockNB != 0 {
			return syscall.EWOULDBLOCK
		}
		d.cond.Wait()
	}
}

// Statfs reports the space of a directory that is there.
func Statfs(path string, st *syscall.Statfs_t) error {
	d := disk()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.fault("statfs", path); err != nil {
		return errno(err)
	}
	if d.names[clean(path)] == nil {
		return syscall.ENOENT
	}
	if d.Space != nil {
		d.Space(st)
	}
	return nil
}

func Mmap(fd int, offset int64, length, prot, flags int) ([]byte, error) {
	f := ByFd(fd)
	if f == nil {
		return nil, syscall.EBADF
	}
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if err := f.use("mmap"); err != nil {
		return nil, errno(err)
	}
	if length <= 0 {
		return nil, syscall.EINVAL
	}
	out := make([]byte, length)
	if offset < int64(len(f.n.Data)) {
		copy(out, f.n.Data[offset:])
	}
	return out, nil
}

func Munmap(b []byte) error { return nil }
