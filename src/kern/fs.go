package kern

import (
	"strings"
	"syscall"

	"dst/sim"
)

// Handle is an open file of the simulated outside world.
type Handle struct {
	n     *Inode
	write bool
	dir   bool
}

// Inode gives the file.
func (h *Handle) Inode() *Inode { return h.n }

// BeginOp numbers a filesystem operation of the outside world.
func (k *Kernel) BeginOp(id int) { k.opSeq = id }

func okname(name string) bool {
	return name != "" && name != "." && name != ".." && !strings.Contains(name, "/")
}

// Mkdir creates a directory.
func (k *Kernel) Mkdir(path string) syscall.Errno {
	sim.SyncPoint()
	d, name, n, e := k.walk(path, false)
	if n != nil {
		return syscall.EEXIST
	}
	if d == nil || !okname(name) || e != syscall.ENOENT || !d.Linked && d.Parent != nil {
		return pick(e, syscall.ENOENT)
	}
	if last(path) != name {
		return syscall.ENOENT
	}
	x := k.newInode(true)
	k.attach(d, name, x)
	k.emit(d, x, InCreate, name, 0, false)
	return 0
}

func last(path string) string {
	path = strings.TrimRight(path, "/")
	return path[strings.LastIndexByte(path, '/')+1:]
}

func pick(a, b syscall.Errno) syscall.Errno {
	if a != 0 {
		return a
	}
	return b
}

// Symlink creates a symbolic link.
func (k *Kernel) Symlink(target, path string) syscall.Errno {
	sim.SyncPoint()
	d, name, n, e := k.walk(path, false)
	if n != nil {
		return syscall.EEXIST
	}
	if d == nil || last(path) != name {
		return pick(e, syscall.ENOENT)
	}
	x := k.newInode(false)
	x.IsLink, x.Link, x.Mode = true, target, 0o777
	k.attach(d, name, x)
	k.emit(d, x, InCreate, name, 0, false)
	return 0
}

// Open opens a file; create and trunc as O_CREAT and O_TRUNC.
func (k *Kernel) Open(path string, write, create, trunc bool) (*Handle, syscall.Errno) {
	sim.SyncPoint()
	d, name, n, e := k.walk(path, true)
	if n == nil {
		if !create || d == nil || e != syscall.ENOENT {
			return nil, pick(e, syscall.ENOENT)
		}
		n = k.newInode(false)
		n.Mode = 0o644
		k.attach(d, name, n)
		n.open++
		k.emit(d, n, InCreate, name, 0, false)
		k.pair(n, InOpen)
		return &Handle{n: n, write: write}, 0
	}
	if n.Dir && write {
		return nil, syscall.EISDIR
	}
	n.open++
	k.pair(n, InOpen)
	if trunc && write {
		n.Size = 0
		k.pair(n, InModify)
	}
	return &Handle{n: n, write: write, dir: n.Dir}, 0
}

// WriteH writes to an open file.
func (k *Kernel) WriteH(h *Handle, nbytes int) {
	sim.SyncPoint()
	h.n.Size += nbytes
	k.pair(h.n, InModify)
}

// ReadH reads from an open file.
func (k *Kernel) ReadH(h *Handle) {
	sim.SyncPoint()
	k.pair(h.n, InAccess)
}

// CloseH closes an open file.
func (k *Kernel) CloseH(h *Handle) {
	sim.SyncPoint()
	m := uint32(InCloseNowrite)
	if h.write {
		m = InCloseWrite
	}
	k.pair(h.n, m)
	h.n.open--
	k.reap(h.n)
}

// reap destroys an unlinked inode nobody holds open.
func (k *Kernel) reap(n *Inode) {
	if n.Linked || n.dead {
		return
	}
	if n.open > 0 || n.held > 0 {
		// an open unlinked object keeps its directory alive
		if n.holds == nil && n.Parent != nil {
			n.holds = n.Parent
			n.holds.held++
		}
		return
	}
	n.dead = true
	k.emit(n, n, InDeleteSelf, "", 0, true)
	for _, in := range k.Insts {
		if w := in.byIno[n]; w != nil && !in.closed {
			in.drop(w, true)
		}
	}
	if h := n.holds; h != nil {
		n.holds = nil
		h.held--
		k.reap(h)
	}
}

// Chmod changes permission bits.
func (k *Kernel) Chmod(path string, mode uint32) syscall.Errno {
	sim.SyncPoint()
	_, _, n, e := k.walk(path, true)
	if e != 0 {
		return e
	}
	n.Mode = mode
	k.Perms++
	k.pair(n, InAttrib)
	return 0
}

// Unlink removes a file.
func (k *Kernel) Unlink(path string) syscall.Errno {
	sim.SyncPoint()
	d, name, n, e := k.walk(path, false)
	if e != 0 {
		return e
	}
	if n.Dir {
		return syscall.EISDIR
	}
	k.detach(n)
	if k.Cfg.OldOrder {
		k.emit(d, n, InDelete, name, 0, false)
		k.emit(n, n, InAttrib, "", 0, true)
		k.reap(n)
		return 0
	}
	k.emit(n, n, InAttrib, "", 0, true)
	k.reap(n)
	k.emit(d, n, InDelete, name, 0, false)
	return 0
}

// Rmdir removes an empty directory.
func (k *Kernel) Rmdir(path string) syscall.Errno {
	sim.SyncPoint()
	d, name, n, e := k.walk(path, false)
	if e != 0 {
		return e
	}
	if !n.Dir {
		return syscall.ENOTDIR
	}
	if len(n.Ents) > 0 {
		return syscall.ENOTEMPTY
	}
	if d == nil {
		return syscall.EBUSY
	}
	k.detach(n)
	if k.Cfg.OldOrder {
		k.emit(d, n, InDelete, name, 0, false)
		k.reap(n)
		return 0
	}
	k.reap(n)
	k.emit(d, n, InDelete, name, 0, false)
	return 0
}

// Rename moves a file or directory.
func (k *Kernel) Rename(from, to string) syscall.Errno {
	sim.SyncPoint()
	od, oname, n, e := k.walk(from, false)
	if e != 0 {
		return e
	}
	nd, nname, t, e := k.walk(to, false)
	if t == nil && (nd == nil || e != syscall.ENOENT || last(to) != nname) {
		return pick(e, syscall.ENOENT)
	}
	if od == nil || nd == nil {
		return syscall.EBUSY
	}
	if t == n {
		return 0
	}
	for p := nd; p != nil; p = p.Parent {
		if p == n {
			return syscall.EINVAL
		}
	}
	for p := od; p != nil; p = p.Parent {
		if p == t && t != nil {
			return syscall.ENOTEMPTY
		}
	}
	if t != nil {
		if n.Dir && !t.Dir {
			return syscall.ENOTDIR
		}
		if !n.Dir && t.Dir {
			return syscall.EISDIR
		}
		if t.Dir && len(t.Ents) > 0 {
			return syscall.ENOTEMPTY
		}
		k.detach(t)
	}
	k.cookie++
	c := k.cookie
	sim.Seq()
	delete(od.Ents, oname)
	nd.Ents[nname] = n
	n.Parent, n.Name = nd, nname
	k.mutSeq = sim.CurSeq()
	k.MovedSeq = k.mutSeq
	k.repath(n)
	k.emit(od, n, InMovedFrom, oname, c, false)
	k.emit(nd, n, InMovedTo, nname, c, false)
	if t != nil {
		k.emit(t, t, InAttrib, "", 0, true)
	}
	k.emit(n, n, InMoveSelf, "", 0, true)
	if t != nil {
		k.reap(t)
	}
	return 0
}

// RemoveAll deletes a tree bottom-up, as rm -r does.
func (k *Kernel) RemoveAll(path string) {
	_, _, n, e := k.walk(path, false)
	if e != 0 {
		return
	}
	if !n.Dir {
		k.Unlink(path)
		return
	}
	for _, c := range sortedEnts(n) {
		k.RemoveAll(join(path, c))
	}
	k.Rmdir(path)
}

// MkdirAll creates a path of directories.
func (k *Kernel) MkdirAll(path string) {
	for i := 1; i <= len(path); i++ {
		if i == len(path) || path[i] == '/' {
			k.Mkdir(path[:i])
		}
	}
}

// Entry is a directory entry as seen by the code under test.
type Entry struct {
	Name string
	Dir  bool
	Link bool
}

// ReadDir reads a directory on behalf of the code under test.
func (k *Kernel) ReadDir(path string) ([]Entry, string, syscall.Errno) {
	if e := k.enter("open", path); e != 0 {
		return nil, "open", e
	}
	_, _, n, e := k.walk(path, true)
	if e != 0 {
		return nil, "open", k.refuse(e)
	}
	if k.Unprivileged && n.Mode&0o400 == 0 {
		k.barred = n
		return nil, "open", k.refuse(syscall.EACCES)
	}
	if !n.Dir { // opened with O_DIRECTORY
		return nil, "open", syscall.ENOTDIR
	}
	n.open++
	k.pair(n, InOpen)
	closer := func() {
		k.pair(n, InCloseNowrite)
		n.open--
		k.reap(n)
	}
	if e := k.enter("getdents", path); e != 0 {
		closer()
		return nil, "readdirent", e
	}
	if !n.Linked && n.Parent != nil {
		closer()
		return nil, "readdirent", syscall.ENOENT
	}
	var r []Entry
	for _, c := range sortedEnts(n) {
		x := n.Ents[c]
		r = append(r, Entry{c, x.Dir, x.IsLink})
	}
	k.pair(n, InAccess)
	if n.Linked || n.Parent == nil {
		k.pair(n, InAccess)
	}
	closer()
	return r, "", 0
}

// Stat is lstat or stat on behalf of the code under test.
func (k *Kernel) Stat(path string, follow bool) (*Inode, syscall.Errno) {
	s := "lstat"
	if follow {
		s = "stat"
	}
	if e := k.enter(s, path); e != 0 {
		return nil, e
	}
	_, _, n, e := k.walk(path, follow)
	if e != 0 {
		return nil, k.refuse(e)
	}
	return n, 0
}

// Readlink on behalf of the code under test.
func (k *Kernel) Readlink(path string) (string, syscall.Errno) {
	if e := k.enter("readlink", path); e != 0 {
		return "", e
	}
	_, _, n, e := k.walk(path, false)
	if e != 0 {
		return "", k.refuse(e)
	}
	if !n.IsLink {
		return "", syscall.EINVAL
	}
	return n.Link, 0
}
