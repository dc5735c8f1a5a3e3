package main

import (
	"fmt"
	"sort"
	"strings"

	"dst/kern"
	notify "dst/sut"
)

// Concurrent Watch and Stop calls must act as if made one at a time (C12). The file
// tree does not change in these runs except for probes, so what a sequence of calls
// leads to is known exactly. Calls on different channels commute, so an order exists
// for all of them if one exists for each channel (linearizability is local); only the
// OS watches combine the channels.

// cpoint is the subscription of a channel to a path.
type cpoint struct {
	ev   notify.Event
	sub  notify.Event // what was asked for with "..."
	mask uint32
	rec  bool
	ino  *kern.Inode
}

// cstate is what a channel is subscribed to.
type cstate map[string]cpoint

func (s cstate) key() string {
	l := ""
	for _, p := range sortedKeys(s) {
		l += fmt.Sprintf("%s %x %x;", p, uint32(s[p].ev), uint32(s[p].sub))
	}
	return l
}

func (s cstate) String() string {
	var l []string
	for _, p := range sortedKeys(s) {
		x := p
		l = append(l, fmt.Sprintf("%s(%s)", x, kindList(s[p].ev)))
		if s[p].rec {
			l = append(l, fmt.Sprintf("%s(%s)", joinp(p, "..."), kindList(s[p].sub)))
		}
	}
	if l == nil {
		return "none"
	}
	return strings.Join(l, " ")
}

func (s cstate) with(rs []*Reg) cstate {
	n := cstate{}
	for k, v := range s {
		n[k] = v
	}
	for _, r := range rs {
		v := n[r.Path]
		v.ev |= r.Ev
		v.mask |= r.Mask
		if r.Rec {
			v.rec = true
			v.sub |= r.Ev
		}
		v.ino = r.Ino
		n[r.Path] = v
	}
	return n
}

// outcomes lists the states channel c may be in after the calls made in (a,b), all of
// which have returned, in some order consistent with real time, from one of the states given.
func (h *History) outcomes(c int, from []cstate, a, b int64) (to []cstate, orders int) {
	var ws []*Reg
	for _, r := range h.Regs {
		if r.C == c && r.Start > a && r.Start < b && r.Err == nil && r.End != 0 {
			ws = append(ws, r)
		}
	}
	var ss []*StopCall
	for _, s := range h.Stops {
		if s.C == c && s.Start > a && s.Start < b {
			ss = append(ss, s)
		}
	}
	seen := map[string]bool{}
	add := func(s cstate) {
		if k := s.key(); !seen[k] {
			seen[k] = true
			to = append(to, s)
		}
	}
	if len(ss) == 0 {
		for _, f := range from {
			add(f.with(ws))
		}
		return to, 1
	}
	// s is the last Stop; the Watches after it are a set closed under "later"
	for _, s := range ss {
		last := true
		for _, t := range ss {
			if t != s && t.Start > s.End {
				last = false
			}
		}
		if !last {
			continue
		}
		var free []*Reg
		var must []*Reg
		for _, w := range ws {
			switch {
			case w.End < s.Start: // before
			case w.Start > s.End:
				must = append(must, w)
			default:
				stop := false // another Stop comes after it
				for _, t := range ss {
					if t != s && t.Start > w.End {
						stop = true
					}
				}
				if !stop {
					free = append(free, w)
				}
			}
		}
		for m := 0; m < 1<<len(free); m++ {
			after := append([]*Reg{}, must...)
			ok := true
			for i, w := range free {
				if m>>i&1 == 1 {
					after = append(after, w)
					for _, x := range ws {
						if x.Start > w.End && !(x.Start > s.End) { // must follow, too
							in := false
							for j, y := range free {
								if y == x && m>>j&1 == 1 {
									in = true
								}
							}
							ok = ok && in
						}
					}
				}
			}
			if ok {
				orders++
				add(cstate{}.with(after))
			}
		}
	}
	return
}

// gets: the state entitles to this notification, and to which path.
func (s cstate) gets(n *kern.Note) (p string, ev notify.Event) {
	at := n.At
	if !n.Ino.Dir {
		at = n.Ino.Path()
	}
	for _, q := range sortedKeys(s) {
		w := s[q]
		if w.ino == n.Ino || w.rec && n.Ino.Dir && at != "" && under(at, q) {
			p = at
			if n.Name != "" {
				p = joinp(at, n.Name)
			}
			for _, k := range kindNames {
				e := w.sub
				if w.ino == n.Ino {
					e = w.ev
				}
				if e&evByName[k] == evByName[k] && kindMask[k]&n.Mask != 0 {
					ev |= evByName[k]
				}
			}
		}
	}
	return
}

// explains: what channel c received of the changes made in (a,b) is what the state entitles to.
func (h *History) explains(s cstate, c int, a, b int64) (ok bool, why string, nob int) {
	type key struct {
		ev   notify.Event
		path string
		mask uint32
	}
	got := map[key]bool{}
	for _, d := range h.Dels {
		if d.C != c || d.Seq < a || d.Seq > b {
			continue
		}
		cov := false
		for q, w := range s {
			if w.ev&d.Ev == d.Ev && (d.Path == q || dirOf(d.Path) == q || w.rec && under(d.Path, q)) {
				cov = true
			}
		}
		if !cov {
			return false, fmt.Sprintf("it received %s %q", evName(d.Ev), d.Path), nob
		}
		got[key{d.Ev, d.Path, d.Mask}] = true
	}
	if h.rt != nil {
		for _, x := range h.rt.changes {
			if x.seq < a || x.seq > b {
				continue
			}
			e := evByName[x.kind]
			for q, w := range s {
				if w.ev&e == e && (x.path == q || dirOf(x.path) == q) || w.sub&e == e && under(x.path, q) {
					nob++
					if !got[key{e, x.path, 0}] && !h.fullSeen().take(c, x.seq, b) {
						return false, fmt.Sprintf("it missed %s %q", x.kind, x.path), nob
					}
				}
			}
		}
		return true, "", nob
	}
	for _, n := range h.K.Notes {
		if n.Seq < a || n.Seq > b || n.Lost || n.Orphan {
			continue
		}
		p, ev := s.gets(n)
		for _, k := range kindNames {
			if e := evByName[k]; ev&e == e && kindMask[k]&n.Mask != 0 {
				nob++
				if !got[key{e, p, n.Mask}] && !h.fullSeen().take(c, n.Seq, b) {
					return false, fmt.Sprintf("it missed %s %q (%s)", k, p, maskName(n.Mask)), nob
				}
			}
		}
	}
	return true, "", nob
}

// atomic: C12.
func (h *History) atomic() (vs []Violation, nob int) {
	if h.S.Panic != nil || len(h.Stuck) > 0 {
		return
	}
	nc := len(h.P.Chans)
	states := make([][]cstate, nc)
	for c := range states {
		states[c] = []cstate{{}}
	}
	if len(h.Snaps) != len(h.P.Phases)+1 {
		return
	}
	multi := func(c int, l []cstate) string {
		var x []string
		for _, s := range l {
			x = append(x, "{"+s.String()+"}")
		}
		return fmt.Sprintf("ch%d: %s", c, strings.Join(x, " or "))
	}
	for i, ph := range h.P.Phases {
		a, b := h.Snaps[i].Seq, h.Snaps[i+1].Seq
		for c := range states {
			if !ph.Probe {
				var n int
				states[c], n = h.outcomes(c, states[c], a, b)
				h.Orders += int64(n)
				continue
			}
			var left []cstate
			why := ""
			for _, s := range states[c] {
				ok, w, n := h.explains(s, c, a, b)
				nob += n
				if ok {
					left = append(left, s)
				} else {
					why += fmt.Sprintf("; with {%s}, %s", s, w)
				}
			}
			if left == nil {
				vs = append(vs, Violation{Cat: "atomic", Sig: "deliveries", Seq: b, Msg: fmt.Sprintf("no order of the calls explains what ch%d receives after them (@%d)%s", c, a, clip(why, 600))})
				return
			}
			states[c] = left
		}
		if h.rt != nil {
			continue // C14 decides on the OS watches
		}
		// some combination accounts for the OS watches held
		combos := []cstate{{}}
		for c := range states {
			var next []cstate
			seen := map[string]bool{}
			for _, x := range combos {
				for _, s := range states[c] {
					n := cstate{}
					for p, v := range x {
						n[p] = v
					}
					for p, v := range s {
						o := n[p]
						o.ev |= v.ev
						o.mask |= v.mask
						o.rec = o.rec || v.rec
						o.ino = v.ino
						n[p] = o
						if v.rec { // reaches below with its own kinds only
							q := "\x00" + p
							o := n[q]
							o.mask |= v.mask
							n[q] = o
						}
					}
					k := ""
					for _, p := range sortedKeys(n) {
						k += fmt.Sprintf("%s %x %v;", p, n[p].mask, n[p].rec)
					}
					if !seen[k] {
						seen[k] = true
						next = append(next, n)
					}
				}
			}
			combos = next
		}
		why := ""
		ok := false
		for _, x := range combos {
			w := h.tableFits(x, h.Snaps[i+1])
			if w == "" {
				ok = true
				break
			}
			if why == "" {
				why = w
			}
		}
		if !ok {
			l := []string{}
			for c := range states {
				l = append(l, multi(c, states[c]))
			}
			vs = append(vs, Violation{Cat: "atomic", Sig: "os-watches", Seq: b, Msg: fmt.Sprintf("no order of the calls explains the OS watches held at @%d: %s; possible subscriptions: %s", b, why, strings.Join(l, ", "))})
			return
		}
	}
	return
}

// tableFits compares the OS watches with a combined state of all channels.
func (h *History) tableFits(x cstate, sn Snap) string {
	have := map[string]uint32{}
	for _, w := range sn.Watches {
		have[w.Path] |= w.Mask
		var m uint32
		for p, v := range x {
			if p[0] == 0 {
				if p = p[1:]; w.Dir && under(w.Path, p) {
					m |= v.mask | kindMask["Create"]
				}
				continue
			}
			if p == w.Path {
				m |= v.mask
				if v.rec {
					m |= kindMask["Create"]
				}
			}
		}
		if m == 0 {
			return fmt.Sprintf("nothing needs the watch on %q", w.Path)
		}
		if y := w.Mask &^ m; y != 0 {
			return fmt.Sprintf("the watch on %q asks for %s which nothing needs", w.Path, maskName(y))
		}
	}
	ps := sortedKeys(x)
	sort.Strings(ps)
	for _, p := range ps {
		if p[0] != 0 {
			if y := x[p].mask &^ have[p]; y != 0 {
				return fmt.Sprintf("no watch on %q asks for %s", p, maskName(y))
			}
		}
	}
	return ""
}
