// Package filepath is path/filepath with its filesystem access simulated.
package filepath

import (
	"path/filepath"
	"zsim/core"
	"zsim/shim/os"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	d, err := os.Getwd()
	return filepath.Join(d, p), err
}
func EvalSymlinks(p string) (string, error) {
	_, err := os.Stat(p)
	return filepath.Clean(p), err
}
func Glob(string) ([]string, error) { core.NotSupported("filepath.Glob"); return nil, nil }
