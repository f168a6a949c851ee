// Package vos stands in for package os in the packages of the tree that use
// the file system. It works on an in-memory file system with faults, crashes
// and durability, and has no effect on the real one.
package vos

import (
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Disk is a file system.
type Disk struct {
	mu    sync.Mutex
	cond  *sync.Cond
	names map[string]*Node
	fds   map[int]*File
	next  int // the next descriptor
	temps int
	// Fault, when set, is asked before each operation and may fail it.
	Fault func(op, path string) error
	Dead  bool // after a crash no operation has an effect
	// MaxOpen limits the open files, if set.
	MaxOpen int
	Removed []string
	// Space, when set, answers Statfs.
	Space func(st *syscall.Statfs_t)
}

// Node is a file or directory.
type Node struct {
	Data  []byte
	Xattr map[string][]byte
	Dir   bool
	mode  os.FileMode
	// what survives a crash
	safe      []byte
	safeXattr map[string][]byte
	locks     map[*File]int
	links     int
}

var cur *Disk

// Use makes an empty disk the current one.
func Use() *Disk {
	d := &Disk{names: map[string]*Node{}, fds: map[int]*File{}, next: 3}
	d.cond = sync.NewCond(&d.mu)
	d.names["/"] = &Node{Dir: true, mode: 0755}
	d.names["/tmp"] = &Node{Dir: true, mode: 0755}
	cur = d
	return d
}

func disk() *Disk {
	if cur == nil {
		return Use()
	}
	return cur
}

// Put makes a file, with its directories, that has always been there.
func (d *Disk) Put(path string, data []byte, xattr map[string][]byte) *Node {
	for dir := filepath.Dir(path); d.names[dir] == nil; dir = filepath.Dir(dir) {
		d.names[dir] = &Node{Dir: true, mode: 0755}
	}
	n := &Node{Data: data, Xattr: map[string][]byte{}, mode: 0644, links: 1}
	for k, v := range xattr {
		n.Xattr[k] = v
	}
	n.sync()
	d.names[path] = n
	return n
}

// Node is the file with the given name, if there is one.
func (d *Disk) Node(path string) *Node {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.names[path]
}

// Names lists the files, without directories.
func (d *Disk) Names() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var out []string
	for p, n := range d.names {
		if !n.Dir {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Open counts the open files.
func (d *Disk) Open() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.fds)
}

// Restart follows a crash: what was not synchronised is lost, the processes
// are gone.
func (d *Disk) Restart() {
	d.Dead, d.Fault = false, nil
	d.fds = map[int]*File{}
	for _, n := range d.names {
		n.Data, n.Xattr = n.safe, copyAttrs(n.safeXattr)
		n.locks = nil
	}
}

func copyAttrs(m map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (n *Node) sync() {
	n.safe = append([]byte(nil), n.Data...)
	n.safeXattr = copyAttrs(n.Xattr)
}

// fault asks for a fault; d is locked.
func (d *Disk) fault(op, path string) error {
	if d.Dead {
		return &os.PathError{Op: op, Path: path, Err: syscall.EIO}
	}
	if d.Fault != nil {
		if err := d.Fault(op, path); err != nil {
			return &os.PathError{Op: op, Path: path, Err: err}
		}
	}
	return nil
}

func fail(op, path string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: path, Err: e}
}

func clean(path string) string {
	if path == "" {
		return ""
	}
	if !strings.HasPrefix(path, "/") {
		path = "/work/" + path
	}
	return filepath.Clean(path)
}

// mount is the file system a path is on: each top directory is one.
func mount(path string) string {
	path = path[1:]
	if i := strings.IndexByte(path, '/'); i >= 0 {
		return path[:i]
	}
	return path
}

// Info describes a file.
type Info struct {
	name string
	size int64
	mode os.FileMode
}

func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() os.FileMode  { return i.mode }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) ModTime() time.Time { return time.Time{} }
func (i *Info) Sys() interface{}   { return nil }

func (n *Node) info(path string) os.FileInfo {
	m := n.mode
	if n.Dir {
		m |= os.ModeDir
	}
	return &Info{filepath.Base(path), int64(len(n.Data)), m}
}

func (d *Disk) tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	d.temps++
	k := strconv.Itoa(d.temps)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pattern = pattern[:i] + k + pattern[i+1:]
	} else {
		pattern += k
	}
	return filepath.Join(dir, pattern)
}
