// Package simos redirects the parts of package os the code under test uses to
// inspect the world to the simulated kernel.
package simos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"dst/kern"
)

type info struct {
	name string
	n    *kern.Inode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(i.n.Size) }
func (i info) Mode() fs.FileMode  { return modeOf(i.n) }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any {
	return &syscall.Stat_t{Ino: uint64(i.n.Ino), Dev: 1, Mode: uint32(i.n.Mode), Nlink: 1}
}

func modeOf(n *kern.Inode) fs.FileMode {
	m := fs.FileMode(n.Mode & 0o777)
	if n.Dir {
		m |= fs.ModeDir
	}
	if n.IsLink {
		m |= fs.ModeSymlink
	}
	return m
}

type entry struct {
	dir string
	e   kern.Entry
}

func (e entry) Name() string { return e.e.Name }
func (e entry) IsDir() bool  { return e.e.Dir }
func (e entry) Type() fs.FileMode {
	switch {
	case e.e.Dir:
		return fs.ModeDir
	case e.e.Link:
		return fs.ModeSymlink
	}
	return 0
}
func (e entry) Info() (fs.FileInfo, error) { return Lstat(e.dir + "/" + e.e.Name) }

func perr(op, p string, e syscall.Errno) error { return &os.PathError{Op: op, Path: p, Err: e} }

// Lstat is os.Lstat.
func Lstat(p string) (fs.FileInfo, error) {
	n, e := kern.K.Stat(p, false)
	if e != 0 {
		return nil, perr("lstat", p, e)
	}
	return info{path.Base(p), n}, nil
}

// Stat is os.Stat.
func Stat(p string) (fs.FileInfo, error) {
	n, e := kern.K.Stat(p, true)
	if e != 0 {
		return nil, perr("stat", p, e)
	}
	return info{path.Base(p), n}, nil
}

// Readlink is os.Readlink.
func Readlink(p string) (string, error) {
	s, e := kern.K.Readlink(p)
	if e != 0 {
		return "", perr("readlink", p, e)
	}
	return s, nil
}

// ReadDir is os.ReadDir.
func ReadDir(p string) ([]fs.DirEntry, error) {
	es, op, e := kern.K.ReadDir(p)
	if e != 0 {
		return nil, perr(op, p, e)
	}
	var r []fs.DirEntry
	for _, x := range es {
		r = append(r, entry{p, x})
	}
	return r, nil
}

// Getwd is os.Getwd.
func Getwd() (string, error) { return kern.K.Cwd, nil }

// LookupEnv and Getenv: an empty environment.
func LookupEnv(string) (string, bool) { return "", false }

// Getenv is os.Getenv.
func Getenv(string) string { return "" }

// Getpid is os.Getpid.
func Getpid() int { return 4242 }

// Exit ends the program: a crash as far as any property is concerned.
func Exit(code int) { panic("os.Exit called") }

// SameFile is os.SameFile.
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

// File is an open directory or file (read only).
type File struct {
	name string
	es   []fs.DirEntry
	err  error
	got  bool
	n    *kern.Inode
}

// Open is os.Open.
func Open(p string) (*File, error) {
	n, e := kern.K.Stat(p, true)
	if e != 0 {
		return nil, perr("open", p, e)
	}
	return &File{name: p, n: n}, nil
}

func (f *File) Name() string               { return f.name }
func (f *File) Close() error               { return nil }
func (f *File) Stat() (fs.FileInfo, error) { return info{path.Base(f.name), f.n}, nil }
func (f *File) load() {
	if !f.got {
		f.got = true
		f.es, f.err = ReadDir(f.name)
	}
}

// ReadDir is (*os.File).ReadDir.
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	f.load()
	if f.err != nil {
		return nil, f.err
	}
	if n <= 0 {
		r := f.es
		f.es = nil
		return r, nil
	}
	if len(f.es) == 0 {
		return nil, io.EOF
	}
	if n > len(f.es) {
		n = len(f.es)
	}
	r := f.es[:n]
	f.es = f.es[n:]
	return r, nil
}

// Readdir is (*os.File).Readdir.
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			return r, err
		}
		r = append(r, i)
	}
	return r, err
}

// Readdirnames is (*os.File).Readdirnames.
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

// DirFS is unused but kept out of reach of the real filesystem.
func DirFS(dir string) fs.FS { panic("simos: DirFS is not simulated") }

var _ = strings.Join
