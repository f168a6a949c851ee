// Package ioutil stands in for io/ioutil, see vos.
package ioutil

import (
	"io"
	"io/ioutil"
	"os"

	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
)

var Discard = ioutil.Discard

func ReadAll(r io.Reader) ([]byte, error)                     { return ioutil.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                     { return ioutil.NopCloser(r) }
func TempFile(dir, pattern string) (*vos.File, error)         { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return vos.MkdirTemp(dir, pattern) }
func ReadFile(name string) ([]byte, error)                    { return vos.ReadFile(name) }
func WriteFile(name string, data []byte, m os.FileMode) error { return vos.WriteFile(name, data, m) }
func ReadDir(name string) ([]os.FileInfo, error)              { return vos.ReadDirInfo(name) }
