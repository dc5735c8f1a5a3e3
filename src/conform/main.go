// Conform compares the simulated kernel with the real one: random operation
// sequences are run on both and the inotify streams must be identical.
package main

import (
	"encoding/binary"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"dst/kern"
	"dst/sim"

	"golang.org/x/sys/unix"
)

type ev struct {
	Wd           int32
	Mask, Cookie uint32
	Name         string
}

func (e ev) String() string { return fmt.Sprintf("wd%d %#x c%d %q", e.Wd, e.Mask, e.Cookie, e.Name) }

func parse(b []byte) (r []ev) {
	for len(b) >= 16 {
		n := int(binary.NativeEndian.Uint32(b[12:]))
		name := string(b[16 : 16+n])
		for len(name) > 0 && name[len(name)-1] == 0 {
			name = name[:len(name)-1]
		}
		r = append(r, ev{int32(binary.NativeEndian.Uint32(b)), binary.NativeEndian.Uint32(b[4:]), binary.NativeEndian.Uint32(b[8:]), name})
		b = b[16+n:]
	}
	return
}

func readReal(fd int) (r []ev) {
	buf := make([]byte, 1<<18)
	for {
		n, err := unix.Read(fd, buf)
		if err != nil || n <= 0 {
			return
		}
		r = append(r, parse(buf[:n])...)
	}
}

func norm(r []ev) []ev {
	m := map[uint32]uint32{0: 0}
	out := make([]ev, len(r))
	for i, e := range r {
		if _, ok := m[e.Cookie]; !ok {
			m[e.Cookie] = uint32(len(m))
		}
		e.Cookie = m[e.Cookie]
		out[i] = e
	}
	return out
}

func main() {
	n := flag.Int("n", 500, "sequences")
	seed := flag.Uint64("seed", 1, "seed")
	flag.Parse()
	total, ops := 0, 0
	for s := 0; s < *n; s++ {
		t, o, err := one(*seed*1000003 + uint64(s))
		if err != nil {
			fmt.Println("DIFFERENCE seed", s, err)
			os.Exit(1)
		}
		total += t
		ops += o
	}
	fmt.Printf("conform: %d sequences, %d operations, %d notifications identical\n", *n, ops, total)
}

func one(seed uint64) (int, int, error) {
	var r sim.Rand
	r.Seed(seed)
	dir, err := os.MkdirTemp("", "conform")
	if err != nil {
		return 0, 0, err
	}
	defer os.RemoveAll(dir)
	k := kern.New(kern.Config{Atomic: true})
	k.Unprivileged = false
	k.MkdirAll("/w")
	fd, err := unix.InotifyInit1(unix.IN_CLOEXEC | unix.IN_NONBLOCK)
	if err != nil {
		return 0, 0, err
	}
	defer unix.Close(fd)
	sfd, _ := k.InotifyInit(syscall.O_NONBLOCK)
	for _, d := range []string{"/a", "/b", "/a/c", "/b/a"} {
		os.Mkdir(dir+d, 0o755)
		k.Mkdir("/w" + d)
	}
	names := []string{"a", "b", "c", "longername_0123456789"}
	path := func() string {
		p := ""
		for d := 1 + r.Intn(3); d > 0; d-- {
			p += "/" + names[r.Intn(len(names))]
		}
		if r.Bool(0.7) { // an existing path
			p = ""
			n := k.Lookup("/w")
			for n != nil && n.Dir {
				es := n.Entries()
				if len(es) == 0 || p != "" && r.Bool(0.4) {
					break
				}
				c := es[r.Intn(len(es))]
				p += "/" + c
				n = n.Ents[c]
			}
			if p == "" {
				p = "/a"
			}
		}
		return p
	}
	R := func(p string) string { return dir + p }
	V := func(p string) string { return "/w" + p }
	type hp struct {
		f *os.File
		h *kern.Handle
	}
	var open []hp
	var log []string
	var real, simu []ev
	var fail error
	drain := func() {
		real = append(real, readReal(fd)...)
		buf := make([]byte, 1<<18)
		for {
			n, e := k.Read(sfd, buf)
			if e != 0 {
				break
			}
			simu = append(simu, parse(buf[:n])...)
		}
		a, b := norm(real), norm(simu)
		for i := 0; i < len(a) || i < len(b); i++ {
			if i >= len(a) || i >= len(b) || a[i] != b[i] {
				fail = fmt.Errorf("streams differ at %d\nops %v\nreal %v\nsim  %v", i, log, a[max(0, i-3):min(len(a), i+8)], b[max(0, i-3):min(len(b), i+8)])
				return
			}
		}
	}
	agree := func(what string, e1 error, e2 syscall.Errno) {
		if e1 == nil || e2 == 0 {
			log = append(log, what)
		}
		var en syscall.Errno
		switch x := e1.(type) {
		case *os.PathError:
			en, _ = x.Err.(syscall.Errno)
		case *os.LinkError:
			en, _ = x.Err.(syscall.Errno)
		case syscall.Errno:
			en = x
		}
		if en != e2 && fail == nil {
			fail = fmt.Errorf("%s: real %v, sim %v\nops %v", what, e1, e2, log)
		}
	}
	nops := 10 + r.Intn(150)
	masks := []uint32{kern.InAllEvents, kern.InAllEvents, kern.InAllEvents, kern.InCreate | kern.InDelete | kern.InMovedFrom | kern.InMovedTo, kern.InModify | kern.InMoveSelf | kern.InDeleteSelf, kern.InAttrib | kern.InMaskAdd, kern.InOpen | kern.InOnlydir, kern.InAllEvents | kern.InDontFollow, kern.InAllEvents | kern.InExclUnlink, kern.InAllEvents | kern.InOneshot}
	for i := 0; i < nops && fail == nil; i++ {
		p := path()
		switch r.Pick(8, 8, 6, 6, 3, 5, 5, 12, 2, 20, 2, 4, 4, 4, 3, 4) {
		case 0:
			agree("mkdir "+p, os.Mkdir(R(p), 0o755), k.Mkdir(V(p)))
		case 1:
			f, e := os.OpenFile(R(p), os.O_CREATE|os.O_WRONLY, 0o644)
			h, e2 := k.Open(V(p), true, true, false)
			agree("create "+p, e, e2)
			if e == nil && e2 == 0 {
				f.Close()
				k.CloseH(h)
			}
		case 2:
			f, e := os.OpenFile(R(p), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
			h, e2 := k.Open(V(p), true, true, true)
			agree("trunc "+p, e, e2)
			if e == nil && e2 == 0 {
				f.Write([]byte("x"))
				k.WriteH(h, 1)
				f.Close()
				k.CloseH(h)
			}
		case 3:
			f, e := os.OpenFile(R(p), os.O_WRONLY, 0o644)
			h, e2 := k.Open(V(p), true, false, false)
			agree("open "+p, e, e2)
			if e == nil && e2 == 0 {
				open = append(open, hp{f, h})
			}
		case 4:
			if len(open) > 0 {
				j := r.Intn(len(open))
				open[j].f.Close()
				k.CloseH(open[j].h)
				open = append(open[:j:j], open[j+1:]...)
				log = append(log, "close")
			}
		case 5:
			agree("unlink "+p, syscall.Unlink(R(p)), k.Unlink(V(p)))
		case 6:
			e1 := syscall.Rmdir(R(p))
			agree("rmdir "+p, e1, k.Rmdir(V(p)))
		case 7:
			q := path()
			e1, e2 := syscall.Rename(R(p), R(q)), k.Rename(V(p), V(q))
			if e1 != nil && e2 != 0 { // which errno is immaterial
				e1 = e2
			}
			agree("rename "+p+" "+q, e1, e2)
		case 8:
			t := path()[1:]
			agree("symlink "+t+" "+p, os.Symlink(t, R(p)), k.Symlink(t, V(p)))
		case 9:
			m := masks[r.Intn(len(masks))]
			w1, e1 := unix.InotifyAddWatch(fd, R(p), m)
			w2, e2 := k.InotifyAddWatch(sfd, V(p), m)
			agree(fmt.Sprintf("watch %s %#x", p, m), e1, e2)
			if w1 != w2 && fail == nil {
				fail = fmt.Errorf("wd %d %d after %v", w1, w2, log)
			}
		case 10:
			wd := 1 + r.Intn(8)
			_, e1 := unix.InotifyRmWatch(fd, uint32(wd))
			agree(fmt.Sprintf("rm %d", wd), e1, k.InotifyRmWatch(sfd, int32(wd)))
		case 11:
			_, e1 := os.ReadDir(R(p))
			_, _, e2 := k.ReadDir(V(p))
			agree("readdir "+p, e1, e2)
		case 12:
			agree("chmod "+p, os.Chmod(R(p), 0o755), k.Chmod(V(p), 0o755))
		case 13:
			if len(open) > 0 {
				j := r.Intn(len(open))
				open[j].f.Write([]byte("y"))
				k.WriteH(open[j].h, 1)
				log = append(log, "write")
			}
		case 14:
			drain()
			log = append(log, "drain")
		case 15:
			f, e := os.Open(R(p))
			h, e2 := k.Open(V(p), false, false, false)
			agree("rdopen "+p, e, e2)
			if e == nil && e2 == 0 {
				f.Close()
				k.CloseH(h)
			}
		}
	}
	if fail == nil {
		drain()
	}
	for _, o := range open {
		o.f.Close()
	}
	_ = filepath.Join
	return len(real), nops, fail
}
