// Package simioutil is io/ioutil under the simulator.
package simioutil

import (
	"io/fs"

	"dst/sx/simos"
)

// ReadDir is ioutil.ReadDir.
func ReadDir(p string) ([]fs.FileInfo, error) {
	f, err := simos.Open(p)
	if err != nil {
		return nil, err
	}
	return f.Readdir(-1)
}
