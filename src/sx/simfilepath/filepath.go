// Package simfilepath redirects the impure functions of path/filepath.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"strings"
	"syscall"

	"dst/kern"
	"dst/sx/simos"
)

// Abs is filepath.Abs.
func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := simos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

// EvalSymlinks is filepath.EvalSymlinks.
func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Lstat(p); err != nil {
		return "", err
	}
	n, e := kern.K.Stat(p, true)
	if e != 0 {
		return "", &fs.PathError{Op: "lstat", Path: p, Err: syscall.Errno(e)}
	}
	r := n.Path()
	if !filepath.IsAbs(p) {
		return filepath.Rel(kern.K.Cwd, r)
	}
	return r, nil
}

// WalkDir is filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(path, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk is filepath.Walk.
func Walk(root string, fn filepath.WalkFunc) error {
	i, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, i fs.FileInfo, fn filepath.WalkFunc) error {
	if !i.IsDir() {
		return fn(path, i, nil)
	}
	es, err := simos.ReadDir(path)
	err1 := fn(path, i, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		p := filepath.Join(path, e.Name())
		fi, err := simos.Lstat(p)
		if err != nil {
			if err := fn(p, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err := walk(p, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

var _ = strings.Join
