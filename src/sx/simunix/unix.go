// Package simunix is the system call surface of golang.org/x/sys/unix under the
// simulated kernel.
package simunix

import (
	"syscall"
	"time"

	"dst/kern"

	"golang.org/x/sys/unix"
)

func err(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func InotifyInit1(flags int) (int, error) { fd, e := kern.K.InotifyInit(flags); return fd, err(e) }
func InotifyInit() (int, error)           { return InotifyInit1(0) }

func InotifyAddWatch(fd int, path string, mask uint32) (int, error) {
	wd, e := kern.K.InotifyAddWatch(fd, path, mask)
	return wd, err(e)
}

func InotifyRmWatch(fd int, wd uint32) (int, error) {
	e := kern.K.InotifyRmWatch(fd, int32(wd))
	if e != 0 {
		return -1, e
	}
	return 0, nil
}

func EpollCreate1(flag int) (int, error) { fd, e := kern.K.EpollCreate(); return fd, err(e) }
func EpollCreate(size int) (int, error)  { return EpollCreate1(0) }

func EpollCtl(epfd, op, fd int, ev *unix.EpollEvent) error {
	var x unix.EpollEvent
	if ev != nil {
		x = *ev
	}
	return err(kern.K.EpollCtl(epfd, op, fd, x.Events, x.Fd, x.Pad))
}

func EpollWait(epfd int, events []unix.EpollEvent, msec int) (int, error) {
	out, e := kern.K.EpollWait(epfd, len(events), msec)
	if e != 0 {
		return -1, e
	}
	for i, o := range out {
		events[i] = unix.EpollEvent{Events: o.Events, Fd: o.Data, Pad: o.Pad}
	}
	return len(out), nil
}

func Pipe(p []int) error { return Pipe2(p, 0) }

func Pipe2(p []int, flags int) error {
	if len(p) != 2 {
		return syscall.EINVAL
	}
	r, w, e := kern.K.Pipe(flags)
	if e != 0 {
		return e
	}
	p[0], p[1] = r, w
	return nil
}

func Read(fd int, p []byte) (int, error) {
	n, e := kern.K.Read(fd, p)
	return n, err(e)
}

func Write(fd int, p []byte) (int, error) {
	n, e := kern.K.Write(fd, p)
	return n, err(e)
}

func Close(fd int) error { return err(kern.K.Close(fd)) }

func SetNonblock(fd int, nb bool) error { return err(kern.K.SetNonblock(fd, nb)) }
func CloseOnExec(fd int)                {}
func Getpid() int                       { return 4242 }

// Poll is poll(2) for readability.
func Poll(fds []unix.PollFd, timeout int) (int, error) {
	pf := make([]kern.PollFd, len(fds))
	for i, f := range fds {
		pf[i] = kern.PollFd{Fd: int(f.Fd), In: f.Events&unix.POLLIN != 0}
	}
	n, e := kern.K.Poll(pf, timeout)
	for i := range fds {
		fds[i].Revents = 0
		if pf[i].Ready {
			fds[i].Revents = unix.POLLIN
		}
		if pf[i].Bad {
			fds[i].Revents = unix.POLLNVAL
		}
	}
	return n, err(e)
}

// Stat and Lstat fill in what matters.
func Lstat(p string, st *unix.Stat_t) error { return stat(p, st, false) }
func Stat(p string, st *unix.Stat_t) error  { return stat(p, st, true) }

func stat(p string, st *unix.Stat_t, follow bool) error {
	n, e := kern.K.Stat(p, follow)
	if e != 0 {
		return e
	}
	*st = unix.Stat_t{Ino: uint64(n.Ino), Dev: 1, Nlink: 1, Size: int64(n.Size), Mode: n.Mode}
	switch {
	case n.Dir:
		st.Mode |= unix.S_IFDIR
	case n.IsLink:
		st.Mode |= unix.S_IFLNK
	default:
		st.Mode |= unix.S_IFREG
	}
	return nil
}

var _ = time.Now
