package kern

import (
	"encoding/binary"
	"fmt"
	"syscall"
	"unsafe"

	"dst/sim"
)

// enter is the common entry of every system call made by the code under test.
func (k *Kernel) enter(sys string, path string) syscall.Errno {
	sim.SyncPoint()
	k.Calls[sys]++
	for _, f := range k.Faults {
		if f.Sys != sys || f.N <= 0 || (f.Path != "" && f.Path != path) {
			continue
		}
		if f.Who != "" {
			t := sim.Cur()
			if t == nil || t.Daemon != (f.Who == "bg") {
				continue
			}
		}
		if f.Skip > 0 {
			f.Skip--
			continue
		}
		f.N--
		if f.Stall > 0 {
			k.Fired[sys+":stall"]++
			k.logf("%s stalls for %dms (injected)", sys, f.Stall/1e6)
			sim.Sleep(f.Stall)
			continue
		}
		f.Hit++
		f.HitSeq = sim.Seq()
		k.LastFault = f.HitSeq
		k.Fired[sys+":"+errName(f.Err)]++
		k.logf("%s fails with %v (injected)", sys, f.Err)
		return f.Err
	}
	return 0
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EINTR:
		return "EINTR"
	case syscall.EAGAIN:
		return "EAGAIN"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.ENFILE:
		return "ENFILE"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EIO:
		return "EIO"
	case syscall.ENOENT:
		return "ENOENT"
	}
	return fmt.Sprintf("errno%d", int(e))
}

func (k *Kernel) logf(f string, a ...any) {
	if k.Log != nil {
		k.Log(f, a...)
	}
}

func (k *Kernel) alloc(o any) int {
	for fd := 0; ; fd++ {
		if _, ok := k.fds[fd]; !ok {
			k.fds[fd] = o
			return fd
		}
	}
}

// OpenFDs is the number of descriptors held by the code under test.
func (k *Kernel) OpenFDs() int {
	n := 0
	for _, o := range k.fds {
		switch o.(type) {
		case *Inotify, *epoll, pipeR, pipeW:
			n++
		}
	}
	return n
}

// FDKinds describes the descriptors the code under test holds.
func (k *Kernel) FDKinds() string {
	r := ""
	for fd := 0; fd < 64; fd++ {
		switch k.fds[fd].(type) {
		case *Inotify:
			r += fmt.Sprintf(" inotify(%d)", fd)
		case *epoll:
			r += fmt.Sprintf(" epoll(%d)", fd)
		case pipeR, pipeW:
			r += fmt.Sprintf(" pipe(%d)", fd)
		}
	}
	return r
}

type foreign struct{ path string }

// OpenForeign opens a descriptor that belongs to the rest of the program.
func (k *Kernel) OpenForeign() int { return k.alloc(&foreign{}) }

// CloseForeign closes it; it reports whether it was still the same descriptor.
func (k *Kernel) CloseForeign(fd int) bool {
	if _, ok := k.fds[fd].(*foreign); !ok {
		return false
	}
	delete(k.fds, fd)
	return true
}

// InotifyInit creates an instance.
func (k *Kernel) InotifyInit(flags int) (int, syscall.Errno) {
	if e := k.enter("inotify_init", ""); e != 0 {
		return -1, e
	}
	in := &Inotify{k: k, W: map[int32]*WatchEnt{}, byIno: map[*Inode]*WatchEnt{}, next: k.Cfg.Wd0, nonblock: flags&syscall.O_NONBLOCK != 0}
	k.Insts = append(k.Insts, in)
	return k.alloc(in), 0
}

func (k *Kernel) inst(fd int) (*Inotify, syscall.Errno) {
	o, ok := k.fds[fd]
	if !ok {
		k.Bad = append(k.Bad, fmt.Sprintf("inotify call on closed descriptor %d", fd))
		return nil, syscall.EBADF
	}
	in, ok := o.(*Inotify)
	if !ok {
		k.Bad = append(k.Bad, fmt.Sprintf("inotify call on descriptor %d which is a %T", fd, o))
		return nil, syscall.EINVAL
	}
	return in, 0
}

// InotifyAddWatch adds or modifies a watch.
func (k *Kernel) InotifyAddWatch(fd int, path string, mask uint32) (int, syscall.Errno) {
	if e := k.enter("inotify_add_watch", path); e != 0 {
		return -1, e
	}
	if mask&allBits == 0 || mask&InMaskAdd != 0 && mask&InMaskCreate != 0 {
		return -1, syscall.EINVAL
	}
	in, e := k.inst(fd)
	if e != 0 {
		return -1, e
	}
	_, _, n, e := k.walk(path, mask&InDontFollow == 0)
	if e != 0 {
		return -1, k.refuse(e)
	}
	if mask&InOnlydir != 0 && !n.Dir {
		return -1, syscall.ENOTDIR
	}
	if k.Unprivileged && n.Mode&0o400 == 0 {
		k.barred = n
		return -1, k.refuse(syscall.EACCES)
	}
	keep := mask & (InAllEvents | InExclUnlink | InOneshot)
	if w := in.byIno[n]; w != nil {
		if mask&InMaskCreate != 0 {
			return -1, syscall.EEXIST
		}
		if mask&InMaskAdd != 0 {
			w.Mask |= keep
		} else {
			w.Mask = keep
		}
		w.Path = path
		w.Upd = sim.Seq()
		k.logf("inotify_add_watch(%q, %#x) = %d (existing)", path, mask, w.Wd)
		return int(w.Wd), 0
	}
	if k.watches >= k.Cfg.WMax {
		k.Fired["watch_limit"]++
		if t := sim.Cur(); t != nil && t.Daemon {
			k.Denied = append(k.Denied, Denial{sim.Seq(), n})
		}
		return -1, syscall.ENOSPC
	}
	in.next++
	k.watches++
	q := sim.Seq()
	w := &WatchEnt{Wd: in.next, Mask: keep, Ino: n, Path: path, Seq: q, Upd: q}
	in.W[w.Wd] = w
	in.byIno[n] = w
	k.logf("inotify_add_watch(%q, %#x) = %d", path, mask, w.Wd)
	return int(w.Wd), 0
}

// refuse notes that a call of the package failed for lack of permission.
func (k *Kernel) refuse(e syscall.Errno) syscall.Errno {
	if e != syscall.EACCES || k.barred == nil {
		return e
	}
	k.Refused++
	k.Fired["permission"]++
	if t := sim.Cur(); t != nil && t.Daemon {
		k.Denied = append(k.Denied, Denial{sim.Seq(), k.barred})
	}
	return e
}

func (in *Inotify) drop(w *WatchEnt, ignored bool) {
	delete(in.W, w.Wd)
	delete(in.byIno, w.Ino)
	in.k.watches--
	if ignored {
		in.queue(w.Wd, InIgnored, 0, "", w.Ino, nil)
	}
}

// InotifyRmWatch removes a watch.
func (k *Kernel) InotifyRmWatch(fd int, wd int32) syscall.Errno {
	if e := k.enter("inotify_rm_watch", ""); e != 0 {
		return e
	}
	in, e := k.inst(fd)
	if e != 0 {
		return e
	}
	w := in.W[wd]
	if w == nil {
		k.rmBad++
		return syscall.EINVAL
	}
	k.logf("inotify_rm_watch(%d) (%s)", wd, w.Path)
	in.drop(w, true)
	return 0
}

// Watches lists the live watches of all instances.
func (k *Kernel) Watches() []*WatchEnt {
	var r []*WatchEnt
	for _, in := range k.Insts {
		for wd := k.Cfg.Wd0; wd <= in.next; wd++ {
			if w := in.W[wd]; w != nil {
				r = append(r, w)
			}
		}
	}
	return r
}

// Pending is the number of queued unread notifications.
func (k *Kernel) Pending() int {
	n := 0
	for _, in := range k.Insts {
		if !in.closed {
			n += len(in.q)
		}
	}
	return n
}

func evSize(name string) int {
	if name == "" {
		return 16
	}
	return 16 + (len(name)+1+15)/16*16
}

// Read implements read(2) on inotify and pipe descriptors.
func (k *Kernel) Read(fd int, p []byte) (int, syscall.Errno) {
	kind := "read"
	if _, ok := k.fds[fd].(*Inotify); ok {
		kind = "read_inotify"
	}
	if e := k.enter(kind, ""); e != 0 {
		return -1, e
	}
	o, ok := k.fds[fd]
	if !ok {
		k.Bad = append(k.Bad, fmt.Sprintf("read on closed descriptor %d", fd))
		return -1, syscall.EBADF
	}
	switch o := o.(type) {
	case *Inotify:
		for len(o.q) == 0 {
			if o.nonblock {
				return -1, syscall.EAGAIN
			}
			o.waiters = append(o.waiters, sim.Cur())
			sim.Block("read(inotify)")
		}
		n, left := 0, k.Cfg.RMax
		q := sim.Seq()
		for len(o.q) > 0 {
			if k.Cfg.RMax > 0 {
				if left == 0 {
					k.Fired["partial_read"]++
					break
				}
				left--
			}
			ev := o.q[0]
			sz := evSize(ev.Name)
			if n+sz > len(p) {
				if n == 0 {
					return -1, syscall.EINVAL
				}
				k.Fired["partial_read"]++
				break
			}
			b := p[n : n+sz]
			for i := range b {
				b[i] = 0
			}
			binary.NativeEndian.PutUint32(b[0:], uint32(ev.Wd))
			binary.NativeEndian.PutUint32(b[4:], ev.Mask)
			binary.NativeEndian.PutUint32(b[8:], ev.Cookie)
			binary.NativeEndian.PutUint32(b[12:], uint32(sz-16))
			copy(b[16:], ev.Name)
			n += sz
			ev.ReadAt = q
			o.q[0] = nil
			o.q = o.q[1:]
			if ev.Mask == InQOverflow {
				o.overQ = false
			}
		}
		k.logf("read(inotify) = %d bytes", n)
		return n, 0
	case pipeR:
		for len(o.buf) == 0 {
			if o.wclosed {
				return 0, 0
			}
			if o.nonblock {
				return -1, syscall.EAGAIN
			}
			o.waiters = append(o.waiters, sim.Cur())
			sim.Block("read(pipe)")
		}
		n := copy(p, o.buf)
		o.buf = o.buf[n:]
		sim.Acquire(unsafe.Pointer(&k.ioSync))
		return n, 0
	}
	return -1, syscall.EINVAL
}

// Write implements write(2) on pipes.
func (k *Kernel) Write(fd int, p []byte) (int, syscall.Errno) {
	if e := k.enter("write", ""); e != 0 {
		return -1, e
	}
	o, ok := k.fds[fd]
	if !ok {
		k.Bad = append(k.Bad, fmt.Sprintf("write on closed descriptor %d", fd))
		return -1, syscall.EBADF
	}
	w, ok := o.(pipeW)
	if !ok {
		return -1, syscall.EBADF
	}
	if w.rclosed {
		return -1, syscall.EPIPE
	}
	sim.Release(unsafe.Pointer(&k.ioSync))
	w.buf = append(w.buf, p...)
	wake(&w.waiters)
	wakeEps(w.eps)
	return len(p), 0
}

// Pipe creates a pipe.
func (k *Kernel) Pipe(flags int) (int, int, syscall.Errno) {
	if e := k.enter("pipe", ""); e != 0 {
		return -1, -1, e
	}
	p := &pipe{nonblock: flags&syscall.O_NONBLOCK != 0}
	r := k.alloc(pipeR{p})
	w := k.alloc(pipeW{p})
	return r, w, 0
}

// Close closes a descriptor. An injected error still releases it, as Linux does.
func (k *Kernel) Close(fd int) syscall.Errno {
	fe := k.enter("close", "")
	o, ok := k.fds[fd]
	if !ok {
		k.Bad = append(k.Bad, fmt.Sprintf("close of descriptor %d which is not open", fd))
		return syscall.EBADF
	}
	if s, ok := o.(string); ok {
		k.Bad = append(k.Bad, fmt.Sprintf("close of %s descriptor %d", s, fd))
		return syscall.EBADF
	}
	if _, ok := o.(*foreign); ok {
		k.Bad = append(k.Bad, fmt.Sprintf("close of descriptor %d which belongs to the rest of the program", fd))
	}
	delete(k.fds, fd)
	switch o := o.(type) {
	case *Inotify:
		o.closed = true
		k.watches -= len(o.W)
		o.W = map[int32]*WatchEnt{}
		o.byIno = map[*Inode]*WatchEnt{}
		o.q = nil
		unep(o.eps)
	case pipeR:
		o.rclosed = true
		unep(o.eps)
	case pipeW:
		o.wclosed = true
		wake(&o.waiters)
		wakeEps(o.eps)
	case *epoll:
		o.closed = true
		for _, it := range o.items {
			it.gone = true
		}
	}
	return fe
}

func unep(eps []*epItem) {
	for _, it := range eps {
		it.gone = true
		for i, x := range it.ep.items {
			if x == it {
				it.ep.items = append(it.ep.items[:i:i], it.ep.items[i+1:]...)
				break
			}
		}
	}
}

// EpollCreate creates an epoll instance.
func (k *Kernel) EpollCreate() (int, syscall.Errno) {
	if e := k.enter("epoll_create", ""); e != 0 {
		return -1, e
	}
	return k.alloc(&epoll{}), 0
}

const (
	epollIn      = 0x1
	epollHup     = 0x10
	epollOneshot = 1 << 30
	epollET      = 1 << 31
)

func (it *epItem) ready() uint32 {
	if it.off || it.gone {
		return 0
	}
	var r uint32
	switch o := it.obj.(type) {
	case *Inotify:
		if len(o.q) > 0 {
			r |= epollIn
		}
	case pipeR:
		if len(o.buf) > 0 {
			r |= epollIn
		}
		if o.wclosed {
			r |= epollHup
		}
	}
	r &= it.events | epollHup
	if it.events&epollET != 0 && !it.edge {
		return 0
	}
	return r
}

// EpollCtl controls an epoll instance: op 1 add, 2 del, 3 mod.
func (k *Kernel) EpollCtl(epfd, op, fd int, events uint32, data, pad int32) syscall.Errno {
	if e := k.enter("epoll_ctl", ""); e != 0 {
		return e
	}
	ep, ok := k.fds[epfd].(*epoll)
	if !ok {
		k.Bad = append(k.Bad, fmt.Sprintf("epoll_ctl on descriptor %d", epfd))
		return syscall.EBADF
	}
	o, ok := k.fds[fd]
	if !ok {
		return syscall.EBADF
	}
	var it *epItem
	for _, x := range ep.items {
		if x.obj == o && x.fd == fd {
			it = x
		}
	}
	switch op {
	case 1:
		if it != nil {
			return syscall.EEXIST
		}
		it = &epItem{ep: ep, fd: fd, obj: o, events: events, data: data, pad: pad, edge: true}
		switch o := o.(type) {
		case *Inotify:
			o.eps = append(o.eps, it)
		case pipeR:
			o.eps = append(o.eps, it)
		case pipeW:
		default:
			return syscall.EPERM
		}
		ep.items = append(ep.items, it)
	case 2:
		if it == nil {
			return syscall.ENOENT
		}
		unep([]*epItem{it})
	case 3:
		if it == nil {
			return syscall.ENOENT
		}
		it.events, it.data, it.pad, it.off, it.edge = events, data, pad, false, true
	default:
		return syscall.EINVAL
	}
	wake(&ep.waiters)
	return 0
}

// EpollOut is one result of EpollWait.
type EpollOut struct {
	Events    uint32
	Data, Pad int32
}

// EpollWait waits for events.
func (k *Kernel) EpollWait(epfd int, max int, msec int) ([]EpollOut, syscall.Errno) {
	ep0, ok := k.fds[epfd].(*epoll)
	if e := k.enter("epoll_wait", ""); e != 0 {
		return nil, e
	}
	ep, ok2 := k.fds[epfd].(*epoll)
	if !ok2 {
		if ok {
			ep, ok2 = ep0, true // closed during the call: keeps waiting on the old object
		} else {
			k.Bad = append(k.Bad, fmt.Sprintf("epoll_wait on descriptor %d", epfd))
			return nil, syscall.EBADF
		}
	}
	if max <= 0 {
		return nil, syscall.EINVAL
	}
	expired := msec == 0
	var tm *sim.Timer
	for {
		var out []EpollOut
		var moved []*epItem
		for _, it := range ep.items {
			if len(out) == max {
				break
			}
			if r := it.ready(); r != 0 {
				out = append(out, EpollOut{r, it.data, it.pad})
				it.edge = false
				if it.events&epollOneshot != 0 {
					it.off = true
				}
				moved = append(moved, it)
			}
		}
		if len(out) > 0 {
			if tm != nil {
				tm.Cancel()
			}
			// reported items go to the tail, as in the kernel's ready list
			for _, m := range moved {
				for i, x := range ep.items {
					if x == m {
						ep.items = append(append(ep.items[:i:i], ep.items[i+1:]...), m)
						break
					}
				}
			}
			return out, 0
		}
		if expired {
			return nil, 0
		}
		me := sim.Cur()
		if msec > 0 && tm == nil {
			tm = sim.S.After(int64(msec)*1e6, func() { expired = true; sim.Ready(me) })
		}
		ep.waiters = append(ep.waiters, me)
		sim.Block("epoll_wait")
		// a signal may interrupt the wait
		for _, f := range k.Faults {
			if f.Sys == "epoll_wait" && f.N > 0 && f.Err == syscall.EINTR {
				if f.Skip > 0 {
					f.Skip--
					continue
				}
				f.N--
				f.Hit++
				f.HitSeq = sim.Seq()
				k.LastFault = f.HitSeq
				k.Fired["epoll_wait:EINTR"]++
				return nil, syscall.EINTR
			}
		}
	}
}

// Getpid etc. are not simulated: nothing depends on them.

// SetNonblock sets O_NONBLOCK.
func (k *Kernel) SetNonblock(fd int, nb bool) syscall.Errno {
	switch o := k.fds[fd].(type) {
	case *Inotify:
		o.nonblock = nb
	case pipeR:
		o.nonblock = nb
	case pipeW:
	default:
		return syscall.EBADF
	}
	return 0
}

// PollFd is one descriptor polled.
type PollFd struct {
	Fd         int
	In         bool
	Ready, Bad bool
}

// Poll is poll(2), built on a temporary epoll set.
func (k *Kernel) Poll(fds []PollFd, msec int) (int, syscall.Errno) {
	if e := k.enter("epoll_wait", ""); e != 0 {
		return -1, e
	}
	ep := &epoll{}
	n := 0
	for i := range fds {
		o, ok := k.fds[fds[i].Fd]
		if !ok {
			fds[i].Bad = true
			n++
			continue
		}
		it := &epItem{ep: ep, fd: fds[i].Fd, obj: o, events: epollIn, data: int32(i)}
		switch o := o.(type) {
		case *Inotify:
			o.eps = append(o.eps, it)
		case pipeR:
			o.eps = append(o.eps, it)
		}
		ep.items = append(ep.items, it)
	}
	if n > 0 {
		return n, 0
	}
	tmp := -1000 - len(k.fds)
	k.fds[tmp] = ep
	defer func() {
		delete(k.fds, tmp)
		for _, it := range ep.items {
			it.gone = true
		}
	}()
	out, e := k.EpollWait(tmp, len(fds), msec)
	if e != 0 {
		return -1, e
	}
	for _, o := range out {
		fds[o.Data].Ready = true
	}
	return len(out), 0
}
