// Package kern is a simulated operating system kernel: a small in-memory
// filesystem, inotify, epoll and pipes, with fault injection. Its behaviour is
// validated against the real kernel by the conformance test in dst/conform.
package kern

import (
	"sort"
	"strings"
	"syscall"

	"dst/sim"
)

// Inotify bits (Linux ABI).
const (
	InAccess       = 0x1
	InModify       = 0x2
	InAttrib       = 0x4
	InCloseWrite   = 0x8
	InCloseNowrite = 0x10
	InOpen         = 0x20
	InMovedFrom    = 0x40
	InMovedTo      = 0x80
	InCreate       = 0x100
	InDelete       = 0x200
	InDeleteSelf   = 0x400
	InMoveSelf     = 0x800
	InAllEvents    = 0xfff
	InUnmount      = 0x2000
	InQOverflow    = 0x4000
	InIgnored      = 0x8000
	InOnlydir      = 0x1000000
	InDontFollow   = 0x2000000
	InExclUnlink   = 0x4000000
	InMaskCreate   = 0x10000000
	InMaskAdd      = 0x20000000
	InIsdir        = 0x40000000
	InOneshot      = 0x80000000
	allBits        = InAllEvents | InUnmount | InQOverflow | InIgnored | InOnlydir | InDontFollow | InExclUnlink | InMaskCreate | InMaskAdd | InIsdir | InOneshot
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	Ino      int
	Dir      bool
	Link     string // symlink target
	IsLink   bool
	Mode     uint32 // permission bits
	Size     int
	Ents     map[string]*Inode
	Parent   *Inode
	Name     string
	Linked   bool
	LastPath string // path when it was last linked
	Paths    []PathSpan
	open     int
	held     int // open unlinked children
	holds    *Inode
	dead     bool
	Born     int64
}

// PathSpan records where an inode was during a period. An inode whose ancestors
// move changes its path too.
type PathSpan struct {
	Path     string
	From, To int64 // To == 0: still there
}

// Note is one notification the kernel would give to an all-seeing watcher.
type Note struct {
	Seq    int64
	Ino    *Inode // inode the notification is addressed to (the watched object)
	At     string // path of Ino when emitted ("" if unlinked)
	Name   string
	Mask   uint32
	Cookie uint32
	Op     int // operation that caused it
	Self   bool
	Obj    *Inode    // the object changed
	Q      []*Queued // where it was queued (or merged)
	Lost   bool      // dropped by a queue overflow
	Gone   string    // last path of Ino if At is empty
	Orphan bool      // the object has no name any more
}

// Full is the path a user would expect to see.
func (n *Note) Full() string {
	if n.Name == "" {
		return n.At
	}
	return join(n.At, n.Name)
}

// Queued is a notification queued to an inotify instance.
type Queued struct {
	Seq    int64
	Inst   *Inotify
	Wd     int32
	Mask   uint32
	Cookie uint32
	Name   string
	Ino    *Inode
	Note   *Note
	ReadAt int64 // 0: not read yet
	Merged int   // identical tail notifications merged into this one
}

// WatchEnt is one inotify watch.
type WatchEnt struct {
	Wd   int32
	Mask uint32
	Ino  *Inode
	Path string // path given when last added
	Seq  int64  // when created
	Upd  int64  // when the mask was last changed
}

// Inotify is an inotify instance.
type Inotify struct {
	k        *Kernel
	next     int32
	W        map[int32]*WatchEnt
	byIno    map[*Inode]*WatchEnt
	q        []*Queued
	overQ    bool
	waiters  []*sim.Task
	closed   bool
	eps      []*epItem
	nonblock bool
}

type pipe struct {
	buf      []byte
	rclosed  bool
	wclosed  bool
	waiters  []*sim.Task
	eps      []*epItem
	nonblock bool
}

type pipeR struct{ *pipe }
type pipeW struct{ *pipe }

type epItem struct {
	ep     *epoll
	fd     int
	obj    any
	events uint32
	data   int32
	pad    int32
	edge   bool // edge pending
	off    bool // oneshot fired
	gone   bool
}

type epoll struct {
	items   []*epItem
	waiters []*sim.Task
	closed  bool
}

// Fault is an armed fault: after Skip more matching calls, N calls fail with Err,
// or take Stall nanoseconds longer.
type Fault struct {
	Sys    string
	Skip   int
	N      int
	Err    syscall.Errno
	Stall  int64
	Path   string // only for calls naming this path (optional)
	Who    string // api: only calls made in a caller's goroutine; bg: only in the package's own
	HitSeq int64
	Hit    int
}

// Config are the kernel's tunables for a run.
type Config struct {
	QMax     int    `json:"qmax,omitempty"`     // queue length limit
	RMax     int    `json:"rmax,omitempty"`     // notifications per read(2), as if the buffer were small
	WMax     int    `json:"wmax,omitempty"`     // watch limit
	OldOrder bool   `json:"oldorder,omitempty"` // parent DELETE before DELETE_SELF
	Cookie0  uint32 `json:"cookie0,omitempty"`
	Wd0      int32  `json:"wd0,omitempty"`
	Atomic   bool   `json:"atomic,omitempty"` // no scheduling points inside an operation
}

// Denial is a watch the kernel refused because of the watch limit.
type Denial struct {
	Seq int64
	Ino *Inode
}

// Kernel is the simulated kernel.
type Kernel struct {
	Cfg          Config
	Root         *Inode
	Cwd          string
	inoSeq       int
	fds          map[int]any
	cookie       uint32
	Notes        []*Note
	Queue        []*Queued // everything ever queued
	Insts        []*Inotify
	Faults       []*Fault
	Fired        map[string]int // fault kinds that fired
	Calls        map[string]int
	Overs        int
	LastOver     int64
	FirstOver    int64
	LastFault    int64
	Denied       []Denial // watches refused to the package's own tasks
	opSeq        int
	Bad          []string // descriptor misuse by the code under test
	ioSync       int
	watches      int
	rmBad        int
	Log          func(format string, a ...any)
	mutSeq       int64
	MovedSeq     int64 // last time an entry was removed or renamed
	Unprivileged bool
	All          []*Inode // every directory ever made
	barred       *Inode   // the last inode access was refused to
	Refused      int      // calls of the package refused with EACCES
	Perms        int      // changes of permission bits
}

// K is the kernel of the current run.
var K = New(Config{})

// New boots a kernel.
func New(c Config) *Kernel {
	if c.QMax == 0 {
		c.QMax = 16384
	}
	if c.WMax == 0 {
		c.WMax = 1 << 30
	}
	k := &Kernel{Cfg: c, fds: map[int]any{}, Fired: map[string]int{}, Calls: map[string]int{}, Cwd: "/", cookie: c.Cookie0}
	k.Unprivileged = true
	k.Root = k.newInode(true)
	k.Root.Linked = true
	k.Root.Paths = []PathSpan{{Path: "/"}}
	for fd := 0; fd < 3; fd++ {
		k.fds[fd] = "std"
	}
	return k
}

func (k *Kernel) newInode(dir bool) *Inode {
	k.inoSeq++
	n := &Inode{Ino: k.inoSeq, Dir: dir, Mode: 0o755, Born: sim.CurSeq()}
	if dir {
		n.Ents = map[string]*Inode{}
		k.All = append(k.All, n)
	}
	return n
}

func join(dir, name string) string {
	if dir == "/" {
		return "/" + name
	}
	return dir + "/" + name
}

// Path is the current path of n, "" if it is not linked.
func (n *Inode) Path() string {
	if n.Parent == nil {
		if n.Linked {
			return "/"
		}
		return ""
	}
	p := n
	var parts []string
	for p.Parent != nil {
		if !p.Linked {
			return ""
		}
		parts = append(parts, p.Name)
		p = p.Parent
	}
	if !p.Linked {
		return ""
	}
	var b strings.Builder
	for i := len(parts) - 1; i >= 0; i-- {
		b.WriteByte('/')
		b.WriteString(parts[i])
	}
	return b.String()
}

// PathAt returns the path n had at seq, "" if none.
func (n *Inode) PathAt(seq int64) string {
	for i := len(n.Paths) - 1; i >= 0; i-- {
		p := n.Paths[i]
		if p.From <= seq && (p.To == 0 || p.To > seq) {
			return p.Path
		}
	}
	return ""
}

// HadPath reports whether n ever was at path p.
func (n *Inode) HadPath(p string) bool {
	for _, s := range n.Paths {
		if s.Path == p {
			return true
		}
	}
	return false
}

// StableAt returns the path n has had without interruption from seq a to b ("" if none).
func (n *Inode) StableAt(a, b int64) string {
	for _, s := range n.Paths {
		if s.From <= a && (s.To == 0 || s.To > b) {
			return s.Path
		}
	}
	return ""
}

// repath records the path of n and everything below it after a structural change.
func (k *Kernel) repath(n *Inode) {
	q := sim.CurSeq()
	p := n.Path()
	if len(n.Paths) > 0 {
		l := &n.Paths[len(n.Paths)-1]
		if l.To == 0 {
			if l.Path == p {
				return
			}
			l.To = q
		}
	}
	if p != "" {
		n.Paths = append(n.Paths, PathSpan{Path: p, From: q})
		n.LastPath = p
	}
	for _, c := range sortedEnts(n) {
		k.repath(n.Ents[c])
	}
}

func sortedEnts(n *Inode) []string {
	r := make([]string, 0, len(n.Ents))
	for c := range n.Ents {
		r = append(r, c)
	}
	sort.Strings(r)
	return r
}

// Entries lists the names in a directory in order.
func (n *Inode) Entries() []string { return sortedEnts(n) }

func (k *Kernel) attach(dir *Inode, name string, n *Inode) {
	sim.Seq()
	dir.Ents[name] = n
	n.Parent, n.Name, n.Linked = dir, name, true
	k.mutSeq = sim.CurSeq()
	k.repath(n)
}

func (k *Kernel) detach(n *Inode) {
	sim.Seq()
	n.LastPath = n.Path()
	delete(n.Parent.Ents, n.Name)
	n.Linked = false
	k.mutSeq = sim.CurSeq()
	k.MovedSeq = k.mutSeq
	k.repath(n)
}

// ---- path resolution ----

// walk resolves path; follow decides whether a final symlink is followed. It
// returns the parent directory and final name too.
func (k *Kernel) walk(path string, follow bool) (dir *Inode, name string, n *Inode, err syscall.Errno) {
	return k.walkd(path, follow, 0)
}

func (k *Kernel) walkd(path string, follow bool, depth int) (dir *Inode, name string, n *Inode, err syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	cur := k.Root
	if path[0] != '/' {
		path = k.Cwd + "/" + path
	}
	parts := strings.Split(path, "/")
	var comps []string
	for _, p := range parts {
		if p != "" && p != "." {
			comps = append(comps, p)
		}
	}
	mustDir := strings.HasSuffix(path, "/") || strings.HasSuffix(path, "/.")
	dir, name, n = nil, "", cur
	for i, c := range comps {
		if !cur.Dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if k.Unprivileged && cur.Mode&0o100 == 0 {
			k.barred = cur
			return nil, "", nil, syscall.EACCES
		}
		if c == ".." {
			if cur.Parent != nil {
				cur = cur.Parent
			}
			dir, name, n = cur.Parent, cur.Name, cur
			continue
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		x := cur.Ents[c]
		last := i == len(comps)-1
		dir, name, n = cur, c, x
		if x == nil {
			if !last {
				dir, name = nil, ""
			}
			return dir, name, nil, syscall.ENOENT
		}
		if x.IsLink && (!last || follow || mustDir) {
			rest := strings.Join(comps[i+1:], "/")
			t := x.Link
			if t == "" {
				return nil, "", nil, syscall.ENOENT
			}
			if t[0] != '/' {
				t = cur.Path() + "/" + t
			}
			if rest != "" {
				t += "/" + rest
			}
			if mustDir {
				t += "/"
			}
			return k.walkd(t, follow, depth+1)
		}
		cur = x
	}
	if mustDir && !cur.Dir {
		return nil, "", nil, syscall.ENOTDIR
	}
	return dir, name, n, 0
}

// Lookup resolves a path following symlinks (harness use, no permissions).
func (k *Kernel) Lookup(path string) *Inode {
	u := k.Unprivileged
	k.Unprivileged = false
	defer func() { k.Unprivileged = u }()
	_, _, n, e := k.walk(path, true)
	if e != 0 {
		return nil
	}
	return n
}

// ---- notification ----

func (k *Kernel) point() {
	if !k.Cfg.Atomic {
		sim.SyncPoint()
	}
}

func (k *Kernel) emit(n *Inode, obj *Inode, mask uint32, name string, cookie uint32, self bool) {
	if obj.Dir && mask&(InDeleteSelf|InMoveSelf) == 0 {
		mask |= InIsdir
	}
	note := &Note{Seq: sim.Seq(), Ino: n, At: n.Path(), Name: name, Mask: mask, Cookie: cookie, Op: k.opSeq, Self: self, Obj: obj, Gone: n.LastPath, Orphan: !obj.Linked && obj.Parent != nil}
	k.Notes = append(k.Notes, note)
	for _, in := range k.Insts {
		if in.closed {
			continue
		}
		w := in.byIno[n]
		if w == nil || w.Mask&mask&InAllEvents == 0 {
			continue
		}
		if w.Mask&InExclUnlink != 0 && !obj.Linked && obj.Parent != nil && mask&(InOpen|InAccess|InModify|InCloseWrite|InCloseNowrite) != 0 {
			continue
		}
		in.queue(w.Wd, mask, cookie, name, n, note)
		if w.Mask&InOneshot != 0 {
			in.drop(w, true)
		}
	}
	k.point()
}

// pair emits a notification to the parent (with name) and then to the object itself.
func (k *Kernel) pair(n *Inode, mask uint32) {
	if n.Linked && n.Parent != nil {
		k.emit(n.Parent, n, mask, n.Name, 0, false)
	} else if n.Parent != nil {
		// unlinked but open: the old dentry still reports to the old parent
		if !n.Parent.dead {
			k.emit(n.Parent, n, mask, n.Name, 0, false)
		}
	}
	k.emit(n, n, mask, "", 0, true)
}

func (in *Inotify) queue(wd int32, mask, cookie uint32, name string, n *Inode, note *Note) {
	k := in.k
	if len(in.q) >= k.Cfg.QMax {
		k.Overs++
		k.Fired["queue_overflow"]++
		k.LastOver = sim.Seq()
		if k.FirstOver == 0 {
			k.FirstOver = k.LastOver
		}
		if note != nil {
			note.Lost = true
		}
		if in.overQ {
			return
		}
		in.overQ = true
		in.push(&Queued{Seq: sim.Seq(), Inst: in, Wd: -1, Mask: InQOverflow})
		return
	}
	if len(in.q) > 0 && mask&InIgnored == 0 {
		l := in.q[len(in.q)-1]
		if l.Wd == wd && l.Mask == mask && l.Name == name && mask&InQOverflow == 0 {
			l.Merged++
			if note != nil {
				note.Q = append(note.Q, l)
			}
			return
		}
	}
	q := &Queued{Seq: sim.Seq(), Inst: in, Wd: wd, Mask: mask, Cookie: cookie, Name: name, Ino: n, Note: note}
	if note != nil {
		note.Q = append(note.Q, q)
	}
	in.push(q)
}

func (in *Inotify) push(q *Queued) {
	in.q = append(in.q, q)
	in.k.Queue = append(in.k.Queue, q)
	if in.k.Log != nil {
		in.k.Log("kernel queues wd=%d mask=%#x cookie=%d name=%q", q.Wd, q.Mask, q.Cookie, q.Name)
	}
	wake(&in.waiters)
	wakeEps(in.eps)
}

func wake(ws *[]*sim.Task) {
	for _, t := range *ws {
		sim.Ready(t)
	}
	*ws = nil
}

func wakeEps(eps []*epItem) {
	for _, it := range eps {
		it.edge = true
		wake(&it.ep.waiters)
	}
}

// Structure identifies the shape of the filesystem: it changes with every creation,
// removal and move.
func (k *Kernel) Structure() int64 { return k.mutSeq }
