// Package syscall stands in for package syscall, see vos.
package syscall

import (
	"syscall"

	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
)

const (
	LOCK_SH = syscall.LOCK_SH
	LOCK_EX = syscall.LOCK_EX
	LOCK_NB = syscall.LOCK_NB
	LOCK_UN = syscall.LOCK_UN

	O_RDONLY = syscall.O_RDONLY
	O_RDWR   = syscall.O_RDWR
	O_CREAT  = syscall.O_CREAT

	PROT_READ   = syscall.PROT_READ
	PROT_WRITE  = syscall.PROT_WRITE
	MAP_SHARED  = syscall.MAP_SHARED
	MAP_PRIVATE = syscall.MAP_PRIVATE

	ENODATA      = syscall.ENODATA
	ENOTSUP      = syscall.ENOTSUP
	ENOENT       = syscall.ENOENT
	EEXIST       = syscall.EEXIST
	ERANGE       = syscall.ERANGE
	EINTR        = syscall.EINTR
	EIO          = syscall.EIO
	EXDEV        = syscall.EXDEV
	EINVAL       = syscall.EINVAL
	ENOTDIR      = syscall.ENOTDIR
	EISDIR       = syscall.EISDIR
	ENOTEMPTY    = syscall.ENOTEMPTY
	ENOSYS       = syscall.ENOSYS
	EPERM        = syscall.EPERM
	EACCES       = syscall.EACCES
	EBADF        = syscall.EBADF
	EWOULDBLOCK  = syscall.EWOULDBLOCK
	EAGAIN       = syscall.EAGAIN
	ENAMETOOLONG = syscall.ENAMETOOLONG
	ELOOP        = syscall.ELOOP
	ENOSPC       = syscall.ENOSPC

	S_IFMT  = syscall.S_IFMT
	S_IFDIR = syscall.S_IFDIR
	S_IFREG = syscall.S_IFREG
	S_IFLNK = syscall.S_IFLNK

	SIGTERM = syscall.SIGTERM
	SIGINT  = syscall.SIGINT
)

type (
	Errno    = syscall.Errno
	Statfs_t = syscall.Statfs_t
	Stat_t   = syscall.Stat_t
)

func Flock(fd, how int) error                        { return vos.Flock(fd, how) }
func Fsync(fd int) error                             { return vos.Fsync(fd) }
func Rename(from, to string) error                   { return vos.Rename(from, to) }
func Unlink(name string) error                       { return vos.Remove(name) }
func Statfs(path string, st *syscall.Statfs_t) error { return vos.Statfs(path, st) }
func Munmap(b []byte) error                          { return vos.Munmap(b) }
func Mmap(fd int, off int64, n, prot, flags int) ([]byte, error) {
	return vos.Mmap(fd, off, n, prot, flags)
}
