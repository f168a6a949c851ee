// Package unix stands in for golang.org/x/sys/unix, see vos.
package unix

import (
	"syscall"

	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
)

const (
	LOCK_SH = syscall.LOCK_SH
	LOCK_EX = syscall.LOCK_EX
	LOCK_NB = syscall.LOCK_NB
	LOCK_UN = syscall.LOCK_UN

	ENODATA   = syscall.ENODATA
	ENOTSUP   = syscall.ENOTSUP
	ENOENT    = syscall.ENOENT
	EEXIST    = syscall.EEXIST
	ERANGE    = syscall.ERANGE
	EINTR     = syscall.EINTR
	EIO       = syscall.EIO
	EXDEV     = syscall.EXDEV
	EINVAL    = syscall.EINVAL
	ENOTDIR   = syscall.ENOTDIR
	EISDIR    = syscall.EISDIR
	ENOTEMPTY = syscall.ENOTEMPTY

	XATTR_CREATE  = 1
	XATTR_REPLACE = 2
)

type (
	Errno    = syscall.Errno
	Statfs_t = syscall.Statfs_t
)

func Fsetxattr(fd int, name string, v []byte, flags int) error {
	return vos.Fsetxattr(fd, name, v, flags)
}
func Fgetxattr(fd int, name string, dest []byte) (int, error) { return vos.Fgetxattr(fd, name, dest) }
func Flock(fd, how int) error                                 { return vos.Flock(fd, how) }
func Fsync(fd int) error                                      { return vos.Fsync(fd) }
func Fdatasync(fd int) error                                  { return vos.Fsync(fd) }
func Rename(from, to string) error                            { return vos.Rename(from, to) }
func Unlink(name string) error                                { return vos.Remove(name) }
func Statfs(path string, st *syscall.Statfs_t) error          { return vos.Statfs(path, st) }
