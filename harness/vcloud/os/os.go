// Package os stands in for the environment of the process.
package os

import "os"

type (
	FileInfo  = os.FileInfo
	FileMode  = os.FileMode
	File      = os.File
	PathError = os.PathError
	Signal    = os.Signal
)

const (
	ModeDir     = os.ModeDir
	ModePerm    = os.ModePerm
	ModeSymlink = os.ModeSymlink
)

var (
	ErrNotExist   = os.ErrNotExist
	ErrExist      = os.ErrExist
	ErrInvalid    = os.ErrInvalid
	ErrPermission = os.ErrPermission
	ErrClosed     = os.ErrClosed
	Stdout        = os.Stdout
	Stderr        = os.Stderr
)

// Env is set by the harness.
var Env map[string]string

func Getenv(k string) string { return Env[k] }

func LookupEnv(k string) (string, bool) {
	v, ok := Env[k]
	return v, ok
}

func IsNotExist(err error) bool   { return os.IsNotExist(err) }
func IsExist(err error) bool      { return os.IsExist(err) }
func IsPermission(err error) bool { return os.IsPermission(err) }
func IsTimeout(err error) bool    { return os.IsTimeout(err) }
