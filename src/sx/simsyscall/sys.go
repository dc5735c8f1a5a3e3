// Package simsyscall covers the use of package syscall for the same calls.
package simsyscall

import (
	"syscall"

	"dst/kern"
	"dst/sx/simunix"
)

func InotifyInit1(flags int) (int, error) { return simunix.InotifyInit1(flags) }
func InotifyInit() (int, error)           { return simunix.InotifyInit1(0) }
func InotifyAddWatch(fd int, path string, mask uint32) (int, error) {
	return simunix.InotifyAddWatch(fd, path, mask)
}
func InotifyRmWatch(fd int, wd uint32) (int, error) { return simunix.InotifyRmWatch(fd, wd) }
func EpollCreate1(flag int) (int, error)            { return simunix.EpollCreate1(flag) }
func Read(fd int, p []byte) (int, error)            { return simunix.Read(fd, p) }
func Write(fd int, p []byte) (int, error)           { return simunix.Write(fd, p) }
func Close(fd int) error                            { return simunix.Close(fd) }
func Pipe(p []int) error                            { return simunix.Pipe2(p, 0) }
func Pipe2(p []int, f int) error                    { return simunix.Pipe2(p, f) }
func SetNonblock(fd int, nb bool) error             { return simunix.SetNonblock(fd, nb) }
func EpollCtl(epfd, op, fd int, ev *syscall.EpollEvent) error {
	var x syscall.EpollEvent
	if ev != nil {
		x = *ev
	}
	if e := kern.K.EpollCtl(epfd, op, fd, x.Events, x.Fd, x.Pad); e != 0 {
		return e
	}
	return nil
}
func EpollWait(epfd int, events []syscall.EpollEvent, msec int) (int, error) {
	out, e := kern.K.EpollWait(epfd, len(events), msec)
	if e != 0 {
		return -1, e
	}
	for i, o := range out {
		events[i] = syscall.EpollEvent{Events: o.Events, Fd: o.Data, Pad: o.Pad}
	}
	return len(out), nil
}
