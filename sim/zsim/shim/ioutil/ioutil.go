// Package ioutil is the simulated io/ioutil.
package ioutil

import (
	"io"
	"io/fs"
	"zsim/shim/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, d []byte, p fs.FileMode) error { return os.WriteFile(n, d, p) }
func TempFile(dir, pattern string) (*os.File, error)    { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return os.MkdirTemp(dir, pattern) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
