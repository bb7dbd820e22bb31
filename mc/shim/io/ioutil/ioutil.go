// Package ioutil routes file access to the in-memory file system.
package ioutil

import (
	"io/fs"

	vos "verif/mc/shim/os"
)

func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func TempDir(dir, pattern string) (string, error)     { return vos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := vos.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, err
}
