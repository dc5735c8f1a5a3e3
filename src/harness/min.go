package main

import (
	"time"

	"dst/sim"
)

// repro is a failing execution: a program and the decisions that make it fail.
type repro struct {
	prog *Program
	seed uint64
	dec  []sim.Decision
	v    Violation
	n    int // ops
}

type shrinker struct {
	pr       *Prop
	cat, sig string
	deadline time.Time
	known    func(Violation) bool
	runs     int
}

func (s *shrinker) match(h *History) (Violation, bool) {
	vs, _ := s.pr.evaluate(h)
	for _, v := range vs {
		if v.Cat == s.cat && v.Sig == s.sig && !s.known(v) {
			return v, true
		}
	}
	return Violation{}, false
}

func (s *shrinker) once(p *Program, o RunOpts) *repro {
	s.runs++
	h := Run(p, o)
	defer h.S.Close()
	if v, ok := s.match(h); ok {
		return &repro{prog: p, seed: o.Seed, dec: append([]sim.Decision{}, h.S.Decisions()...), v: v}
	}
	return nil
}

// try looks for a failing execution of p: the given schedule first, then others.
func (s *shrinker) try(p *Program, cur *repro, seeds int) *repro {
	if r := s.once(p, RunOpts{Seed: cur.seed, Replay: true, Dec: cur.dec}); r != nil {
		return r
	}
	for i := 0; i < seeds && time.Now().Before(s.deadline); i++ {
		if r := s.once(p, RunOpts{Seed: mixSeed(cur.seed, uint64(i)*7919+3)}); r != nil {
			return r
		}
	}
	return nil
}

func cloneProg(p *Program) *Program {
	q := *p
	q.Setup = append([]Op{}, p.Setup...)
	q.Chans = append([]ChanSpec{}, p.Chans...)
	q.Phases = nil
	for _, ph := range p.Phases {
		n := Phase{Probe: ph.Probe}
		for _, t := range ph.T {
			n.T = append(n.T, append([]Op{}, t...))
		}
		q.Phases = append(q.Phases, n)
	}
	return &q
}

// shrink reduces the program, then the schedule.
func (s *shrinker) shrink(cur *repro) *repro {
	const seeds = 24
	step := func(edit func(*Program) bool) bool {
		if !time.Now().Before(s.deadline) {
			return false
		}
		p := cloneProg(cur.prog)
		if !edit(p) {
			return false
		}
		if r := s.try(p, cur, seeds); r != nil {
			cur = r
			return true
		}
		return false
	}
	for changed := true; changed && time.Now().Before(s.deadline); {
		changed = false
		// whole phases
		for i := len(cur.prog.Phases) - 1; i >= 0; i-- {
			if step(func(p *Program) bool {
				p.Phases = append(p.Phases[:i], p.Phases[i+1:]...)
				return len(p.Phases) > 0
			}) {
				changed = true
			}
		}
		// threads
		for i := len(cur.prog.Phases) - 1; i >= 0; i-- {
			for j := len(cur.prog.Phases[i].T) - 1; j >= 0; j-- {
				if step(func(p *Program) bool {
					t := p.Phases[i].T
					if len(t) < 2 {
						return false
					}
					p.Phases[i].T = append(t[:j], t[j+1:]...)
					return true
				}) {
					changed = true
				}
			}
		}
		// operations, in chunks of decreasing size
		for i := len(cur.prog.Phases) - 1; i >= 0; i-- {
			for j := range cur.prog.Phases[i].T {
				for sz := (len(cur.prog.Phases[i].T[j]) + 1) / 2; sz >= 1; sz /= 2 {
					for k := len(cur.prog.Phases[i].T[j]) - sz; k >= 0; k -= sz {
						if step(func(p *Program) bool {
							t := p.Phases[i].T[j]
							p.Phases[i].T[j] = append(t[:k], t[k+sz:]...)
							return true
						}) {
							changed = true
							if k > len(cur.prog.Phases[i].T[j]) {
								k = len(cur.prog.Phases[i].T[j])
							}
						}
					}
				}
			}
		}
		for k := len(cur.prog.Setup) - 1; k >= 0; k-- {
			if step(func(p *Program) bool {
				p.Setup = append(p.Setup[:k], p.Setup[k+1:]...)
				return true
			}) {
				changed = true
			}
		}
		// event kinds and repeat counts
		for i := range cur.prog.Phases {
			for j := range cur.prog.Phases[i].T {
				for k := range cur.prog.Phases[i].T[j] {
					for e := len(cur.prog.Phases[i].T[j][k].E) - 1; e >= 0; e-- {
						if step(func(p *Program) bool {
							o := &p.Phases[i].T[j][k]
							if len(o.E) < 2 {
								return false
							}
							o.E = append(append([]string{}, o.E[:e]...), o.E[e+1:]...)
							return true
						}) {
							changed = true
						}
					}
				}
			}
		}
		// configuration
		for _, f := range []func(*Program) bool{
			func(p *Program) bool { x := p.Kern.WMax != 0; p.Kern.WMax = 0; return x },
			func(p *Program) bool { x := p.Kern.QMax != 0; p.Kern.QMax = 0; return x },
			func(p *Program) bool { x := p.Kern.RMax != 0; p.Kern.RMax = 0; return x },
			func(p *Program) bool { x := p.Kern.OldOrder; p.Kern.OldOrder = false; return x },
			func(p *Program) bool { x := !p.Kern.Atomic; p.Kern.Atomic = true; return x },
			func(p *Program) bool { x := p.Kern.Wd0 != 0; p.Kern.Wd0 = 0; return x },
			func(p *Program) bool { x := p.Kern.Cookie0 != 0; p.Kern.Cookie0 = 0; return x },
			func(p *Program) bool { x := p.Policy.StallP != 0; p.Policy.StallP = 0; return x },
			func(p *Program) bool {
				x := p.Policy.PreY != 0 || p.Policy.PreSync != 0
				p.Policy.PreY, p.Policy.PreSync = 0, 0
				return x
			},
			func(p *Program) bool { x := p.Policy.Mode != "fifo"; p.Policy.Mode = "fifo"; return x },
		} {
			if step(f) {
				changed = true
			}
		}
	}
	// drop decisions (an absent decision takes the default)
	dec := cur.dec
	if r := s.once(cur.prog, RunOpts{Seed: cur.seed, Replay: true, Dec: dec}); r != nil {
		for sz := (len(dec) + 1) / 2; sz >= 1 && time.Now().Before(s.deadline); sz /= 2 {
			for k := len(dec) - sz; k >= 0 && time.Now().Before(s.deadline); k -= sz {
				if k+sz > len(dec) {
					continue
				}
				d := append(append([]sim.Decision{}, dec[:k]...), dec[k+sz:]...)
				if r := s.once(cur.prog, RunOpts{Seed: cur.seed, Replay: true, Dec: d}); r != nil {
					dec = d
					r.dec = d
					cur = r
				}
			}
		}
		cur.dec = dec
	}
	return cur
}
