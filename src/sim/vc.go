package sim

import (
	"fmt"
	"unsafe"
)

// VC is a vector clock indexed by task id.
type VC []uint32

func (v *VC) Inc(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

func (v VC) At(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) Join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	d := *v
	for i, x := range o {
		if x > d[i] {
			d[i] = x
		}
	}
}

func (v VC) Copy() VC { return append(VC(nil), v...) }

type epoch struct {
	t    int
	c    uint32
	site int32
}

type cell struct {
	keep any
	w    epoch
	hasW bool
	r    []epoch
}

// Sites maps site ids to source positions (filled by the instrumented package).
var Sites []string

func site(i int32) string {
	if i == atomicSite {
		return "an atomic operation"
	}
	if int(i) < len(Sites) && i >= 0 {
		return Sites[i]
	}
	return fmt.Sprint(i)
}

// acquire joins the clock stored at p into the current task.
func (s *Sim) acquire(p unsafe.Pointer) {
	if !s.RaceOn || s.cur == nil {
		return
	}
	if v := s.syncvc[p]; v != nil {
		s.cur.vc.Join(*v)
	}
}

// release joins the current task's clock into p and advances the task.
func (s *Sim) release(p unsafe.Pointer) {
	if !s.RaceOn || s.cur == nil {
		return
	}
	v := s.syncvc[p]
	if v == nil {
		v = new(VC)
		s.syncvc[p] = v
	}
	v.Join(s.cur.vc)
	s.cur.vc.Inc(s.cur.ID)
}

// Acquire and Release are for simulated OS objects.
func Acquire(p unsafe.Pointer) {
	if S != nil {
		S.acquire(p)
	}
}

func Release(p unsafe.Pointer) {
	if S != nil {
		S.release(p)
	}
}

func (s *Sim) access(p unsafe.Pointer, write bool, st int32) {
	t := s.cur
	if t == nil || s.dead {
		return
	}
	c := s.mem[p]
	if c == nil {
		c = &cell{}
		s.mem[p] = c
	}
	if c.hasW && c.w.t != t.ID && c.w.c > t.vc.At(c.w.t) {
		s.race(st, write, c.w.site, true, t.ID, c.w.t)
	}
	if write {
		for _, r := range c.r {
			if r.t != t.ID && r.c > t.vc.At(r.t) {
				s.race(st, true, r.site, false, t.ID, r.t)
			}
		}
		c.r = c.r[:0]
		c.w, c.hasW = epoch{t.ID, t.vc.At(t.ID), st}, true
		return
	}
	for i := range c.r {
		if c.r[i].t == t.ID {
			c.r[i] = epoch{t.ID, t.vc.At(t.ID), st}
			return
		}
		// drop reads that happened before this one
	}
	k := 0
	for _, r := range c.r {
		if r.c > t.vc.At(r.t) {
			c.r[k] = r
			k++
		}
	}
	c.r = append(c.r[:k], epoch{t.ID, t.vc.At(t.ID), st})
}

func (s *Sim) race(a int32, aw bool, b int32, bw bool, ta, tb int) {
	if len(s.Races) >= 4 {
		return
	}
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	s.Races = append(s.Races, Race{
		A:    fmt.Sprintf("%s at %s by %s", k(aw), site(a), s.tasks[ta].Name),
		B:    fmt.Sprintf("%s at %s by %s", k(bw), site(b), s.tasks[tb].Name),
		What: site(a) + " / " + site(b),
	})
}

// R records a read of *p and is a scheduling point.
func R[T any](p *T, st int32) *T {
	if S != nil {
		Y()
		if s := S; s != nil && s.RaceOn {
			s.access(unsafe.Pointer(p), false, st)
			s.mem[unsafe.Pointer(p)].keep = p
		}
	}
	return p
}

// W records a write of *p just performed.
func W[T any](p *T, st int32) {
	if s := S; s != nil && s.RaceOn && s.cur != nil && !s.dead {
		s.access(unsafe.Pointer(p), true, st)
		s.mem[unsafe.Pointer(p)].keep = p
	}
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR records a read of map m and is a scheduling point.
func MR[M ~map[K]V, K comparable, V any](m M, st int32) M {
	if S != nil {
		Y()
		if s := S; s != nil && s.RaceOn && s.cur != nil && !s.dead && m != nil {
			s.access(mapPtr(m), false, st)
			s.mem[mapPtr(m)].keep = m
		}
	}
	return m
}

// MW records a write to map m just performed.
func MW[M ~map[K]V, K comparable, V any](m M, st int32) {
	if s := S; s != nil && s.RaceOn && s.cur != nil && !s.dead && m != nil {
		s.access(mapPtr(m), true, st)
		s.mem[mapPtr(m)].keep = m
	}
}

// AtomicR and AtomicW record atomic accesses: atomics do not race with each other
// (they synchronise) but do race with plain accesses.
func AtomicR[T any](p *T) {
	if s := S; s != nil && s.RaceOn && s.cur != nil && !s.dead {
		s.atomicAccess(unsafe.Pointer(p), false)
	}
}

func AtomicW[T any](p *T) {
	if s := S; s != nil && s.RaceOn && s.cur != nil && !s.dead {
		s.atomicAccess(unsafe.Pointer(p), true)
	}
}

const atomicSite = int32(-2)

func (s *Sim) atomicAccess(p unsafe.Pointer, write bool) {
	t := s.cur
	c := s.mem[p]
	if c == nil {
		c = &cell{}
		s.mem[p] = c
	}
	if c.hasW && c.w.site != atomicSite && c.w.t != t.ID && c.w.c > t.vc.At(c.w.t) {
		s.race(atomicSite, write, c.w.site, true, t.ID, c.w.t)
	}
	if write {
		for _, r := range c.r {
			if r.site != atomicSite && r.t != t.ID && r.c > t.vc.At(r.t) {
				s.race(atomicSite, true, r.site, false, t.ID, r.t)
			}
		}
		c.r = c.r[:0]
		c.w, c.hasW = epoch{t.ID, t.vc.At(t.ID), atomicSite}, true
		return
	}
	for i := range c.r {
		if c.r[i].t == t.ID && c.r[i].site == atomicSite {
			c.r[i].c = t.vc.At(t.ID)
			return
		}
	}
	c.r = append(c.r, epoch{t.ID, t.vc.At(t.ID), atomicSite})
}
