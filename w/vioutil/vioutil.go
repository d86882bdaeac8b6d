// Package vioutil stands in for io/ioutil in the overlay build.
package vioutil

import (
	"io"
	"io/fs"
	"io/ioutil"

	"verif.local/w/vos"
)

var (
	ReadAll   = io.ReadAll
	NopCloser = io.NopCloser
	Discard   = io.Discard
	TempDir   = ioutil.TempDir
)

func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }

func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := vos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var r []fs.FileInfo
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, nil
}
