package main

import (
	"fmt"
	"sort"
	"strings"

	"dst/kern"
	notify "dst/sut"

	"golang.org/x/sys/unix"
)

// Violation is one observed breach.
type Violation struct {
	Cat string // silence | missed | unsound | leak | mask | stuck | panic | race | fd | watcherr | drop | data | atomic
	Sig string // what fails, independent of names and timing
	Msg string
	Seq int64
	Odd bool // a path spelled another way does not denote the entry it names
}

func (v Violation) String() string { return fmt.Sprintf("[%s/%s] %s", v.Cat, v.Sig, v.Msg) }

// possiblyActive: c may legally receive because of r at time d.
func (h *History) possiblyActive(r *Reg, d int64) bool {
	if r.Start >= d {
		return false
	}
	if r.End != 0 && r.Err != nil {
		return false
	}
	for _, s := range h.Stops {
		if s.C == r.C && s.End != 0 && s.End < d && (r.End != 0 && r.End < s.Start) {
			return false
		}
	}
	return true
}

// definitelyActive: r is in force during the whole of [a,b].
func (h *History) definitelyActive(r *Reg, a, b int64) bool {
	if r.End == 0 || r.Err != nil || r.End >= a || r.Bad {
		return false
	}
	for _, s := range h.Stops {
		if s.C == r.C && (s.End == 0 || s.End > r.Start) && s.Start < b {
			return false
		}
	}
	return true
}

func (h *History) prevQ(seq int64) int64 {
	q := int64(0)
	for _, s := range h.Snaps {
		if s.Seq <= seq {
			q = s.Seq
		}
	}
	return q
}

func (h *History) nextQ(seq int64) int64 {
	for _, s := range h.Snaps {
		if s.Seq > seq {
			return s.Seq
		}
	}
	return 1 << 62
}

// basic are the checks that hold for every run.
func (h *History) basic() (vs []Violation) {
	s := h.S
	if s.Panic != nil {
		vs = append(vs, Violation{Cat: "panic", Sig: "panic: " + clip(s.Panic.Value, 80), Msg: fmt.Sprintf("goroutine %s crashed: %s; at %s", s.Panic.Task, s.Panic.Value, s.Panic.Stack), Seq: 1 << 60})
	} else {
		for _, t := range h.Stuck {
			vs = append(vs, Violation{Cat: "stuck", Sig: "stuck", Msg: "never completes: " + t + "; all goroutines: " + strings.Join(s.Blocked(), "; "), Seq: 1 << 60})
			break
		}
		for i, sn := range h.Snaps {
			if sn.Pending > 0 {
				vs = append(vs, Violation{Cat: "stuck", Sig: "unread", Msg: fmt.Sprintf("%d notifications stay unread in the OS queue at quiescence %d although nothing is running; goroutines: %s", sn.Pending, i, strings.Join(sn.Blocked, "; ")), Seq: sn.Seq})
				break
			}
		}
		for _, sn := range h.Snaps {
			for _, b := range sn.Blocked {
				if strings.Contains(b, ": lock") || strings.Contains(b, ": rlock") || strings.Contains(b, ": mutex") {
					vs = append(vs, Violation{Cat: "stuck", Sig: "lock", Msg: "a goroutine waits for a lock nobody will release: " + b, Seq: sn.Seq})
					return
				}
			}
		}
	}
	if s.Panic == nil && len(h.Stuck) == 0 && h.wt == nil {
		vs = append(vs, h.accumulate()...)
	}
	for _, r := range s.Races {
		vs = append(vs, Violation{Cat: "race", Sig: "race " + r.What, Msg: fmt.Sprintf("unsynchronised accesses: %s: %s / %s", r.What, r.A, r.B)})
		break
	}
	for _, b := range h.K.Bad {
		vs = append(vs, Violation{Cat: "fd", Sig: "descriptor", Msg: b})
		break
	}
	if len(h.Closed) > 0 {
		vs = append(vs, Violation{Cat: "silence", Sig: "closed", Msg: fmt.Sprintf("ch%d was closed by the package", h.Closed[0])})
	}
	vs = append(vs, h.Extra...)
	return
}

// accumulate: goroutines are not left behind by events (those started by calls may stay).
func (h *History) accumulate() (vs []Violation) {
	first := -1
	for i, sn := range h.Snaps {
		for _, b := range sn.Blocked {
			if strings.Contains(b, ": send on") || strings.Contains(b, ": select") && strings.Contains(b, "send") {
				return []Violation{{Cat: "pileup", Sig: "send", Msg: fmt.Sprintf("at quiescence %d a goroutine of the package waits for a receiver: %s", i, b), Seq: sn.Seq}}
			}
		}
		calls := 0
		for _, r := range h.Regs {
			if r.Start < sn.Seq {
				calls++
			}
		}
		if calls == 0 {
			continue
		}
		if first < 0 {
			first = sn.Goroutines
		}
		if sn.Goroutines > first+8+4*calls {
			return []Violation{{Cat: "pileup", Sig: "goroutines", Seq: sn.Seq, Msg: fmt.Sprintf("at quiescence %d the package has %d goroutines, %d after the first calls: %s", i, sn.Goroutines, first, strings.Join(sn.Blocked, "; "))}}
		}
	}
	return
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// silence: nothing reaches a channel that is not subscribed (C01).
func (h *History) silence() (vs []Violation) {
	for _, d := range h.Dels {
		ok := false
		for _, r := range h.Regs {
			if r.C == d.C && h.possiblyActive(r, d.Seq) {
				ok = true
				break
			}
		}
		if ok {
			continue
		}
		// was it ever subscribed?
		sig := "never-subscribed"
		for _, s := range h.Stops {
			if s.C == d.C && s.End != 0 && s.End < d.Seq {
				sig = "after-stop"
			}
		}
		if sig == "never-subscribed" {
			for _, r := range h.Regs {
				if r.C == d.C && r.Start < d.Seq {
					sig = "after-failed-watch"
				}
			}
		}
		vs = append(vs, Violation{Cat: "silence", Sig: sig, Msg: fmt.Sprintf("ch%d has no subscription, yet: %s", d.C, d), Seq: d.Seq})
	}
	return
}

// fullSeen are the times at which the package saw that a channel was full and may have
// dropped an event for it; each explains one event.
type fullSeen map[int][]int64

func (h *History) fullSeen() fullSeen {
	f := fullSeen{}
	for c, l := range h.SeenFull {
		f[c] = append([]int64(nil), l...)
	}
	return f
}

func (f fullSeen) take(c int, a, b int64) bool {
	for i, x := range f[c] {
		if x > a && x <= b {
			f[c] = append(f[c][:i], f[c][i+1:]...)
			return true
		}
	}
	return false
}

// dropped only when full (C08).
func (h *History) drops() (vs []Violation) {
	for _, d := range h.Dels {
		if d.Drop && !d.Full {
			vs = append(vs, Violation{Cat: "drop", Sig: "not-full", Msg: "an event was dropped although the channel had room: " + d.String(), Seq: d.Seq})
		}
	}
	return
}

// wpoint is a watchpoint: Watch calls of one channel on one path add up.
type wpoint struct {
	path     string
	ev       notify.Event
	mask     uint32
	rec, amb bool
}

// merged lists the watchpoints c may have at d (c < 0: any channel).
func (h *History) merged(c int, d int64) []*wpoint {
	type key struct {
		c int
		p string
	}
	m := map[key]*wpoint{}
	var r []*wpoint
	for _, g := range h.Regs {
		if c >= 0 && g.C != c || !h.possiblyActive(g, d) {
			continue
		}
		k := key{g.C, g.Path}
		w := m[k]
		if w == nil {
			w = &wpoint{path: g.Path}
			m[k] = w
			r = append(r, w)
		}
		w.ev |= g.Ev
		w.mask |= g.Mask
		w.rec = w.rec || g.Rec
		w.amb = w.amb || g.Amb
	}
	return r
}

type qkey struct {
	wd           int32
	mask, cookie uint32
	name         string
}

// soundness (C03) and data accuracy (C11).
func (h *History) soundness() (vs []Violation) {
	byKey := map[qkey][]*kern.Queued{}
	for _, q := range h.K.Queue {
		k := qkey{q.Wd, q.Mask, q.Cookie, q.Name}
		byKey[k] = append(byKey[k], q)
	}
	type ckey struct {
		c    int
		ev   notify.Event
		wd   int32
		mask uint32
		cook uint32
		path string
	}
	type useKey struct {
		ckey
		q *kern.Queued
	}
	used := map[useKey]int{}
	for _, d := range h.Dels {
		add := func(cat, sig, f string, a ...any) {
			vs = append(vs, Violation{Cat: cat, Sig: sig, Msg: fmt.Sprintf(f, a...) + ": " + d.String(), Seq: d.Seq})
		}
		if d.SysNil {
			add("data", "nil-sys", "event without an OS record")
			continue
		}
		if d.Path == "" || d.Path[0] != '/' || d.Path != "/" && strings.HasSuffix(d.Path, "/") || strings.Contains(d.Path, "//") || strings.Contains(d.Path+"/", "/./") || strings.Contains(d.Path+"/", "/../") {
			add("data", "unclean-path", "path is not absolute and clean")
			continue
		}
		if sys, ok := d.ei.Sys().(*unix.InotifyEvent); !ok || sys == nil || sys.Wd != d.Wd || sys.Mask != d.Mask || sys.Cookie != d.Cookie || d.ei.Event() != d.Ev || d.ei.Path() != d.Path {
			add("data", "mutated", "the event was changed after it had been handed over")
			continue
		}
		// kind, coverage
		kindOK, covOK := false, false
		roots := map[string]bool{}
		for _, m := range h.merged(d.C, d.Seq) {
			ko := m.ev&d.Ev == d.Ev && d.Ev != 0
			co := d.Path == m.path || dirOf(d.Path) == m.path || m.rec && under(d.Path, m.path) || m.amb
			if ko {
				kindOK = true
			}
			if ko && co {
				covOK = true
				roots[m.path] = true
			}
		}
		if !kindOK {
			add("unsound", "kind", "kind not requested")
		} else if !covOK {
			add("unsound", "coverage", "path not covered by any subscription to this kind")
		}
		// kind agrees with the OS record
		n := nameByEv[d.Ev]
		if n == "" || kindMask[n]&d.Mask == 0 {
			add("data", "kind-mask", "kind does not agree with the OS record")
			add("unsound", "kind-mask", "no change of this kind was reported by the OS")
			continue
		}
		// explained by an OS notification
		found, pathOK, room := false, false, (*kern.Queued)(nil)
		ck := ckey{d.C, d.Ev, d.Wd, d.Mask, d.Cookie, d.Path}
		nread := 0
		for i := len(d.Path); i >= 0; i-- {
			// candidate names: last component or none
			var name, dir string
			if i == len(d.Path) {
				name, dir = "", d.Path
			} else if d.Path[i] == '/' {
				name, dir = d.Path[i+1:], d.Path[:i]
				if dir == "" {
					dir = "/"
				}
			} else {
				continue
			}
			for _, q := range byKey[qkey{d.Wd, d.Mask, d.Cookie, name}] {
				if q.ReadAt == 0 || q.ReadAt > d.Seq {
					continue
				}
				found = true
				if q.Ino != nil && hadPathBefore(q.Ino, dir, d.Seq) {
					pathOK = true
					nread++
					if room == nil && used[useKey{ck, q}] < len(roots) {
						room = q
					}
				}
			}
			if i < len(d.Path) {
				break
			}
		}
		if !found || !pathOK {
			// is there any OS record like it, under another name?
			sig := "invented"
			for k := range byKey {
				if k.wd == d.Wd && k.mask == d.Mask && k.cookie == d.Cookie {
					sig = "wrong-path"
				}
			}
			if sig == "wrong-path" {
				add("data", sig, "the OS reported this for another path")
				add("unsound", sig, "the OS reported this for another path")
			} else {
				add("unsound", sig, "no such change was reported by the OS")
				add("data", sig, "no OS record is like the one the event carries")
			}
			continue
		}
		if d.Drop || len(roots) == 0 {
			continue
		}
		if room == nil {
			add("unsound", "duplicate", "delivered once more than the %d times the OS reported it to the %d subscription paths of the channel that cover it", nread, len(roots))
			continue
		}
		used[useKey{ck, room}]++
	}
	return
}

func hadPathBefore(n *kern.Inode, p string, seq int64) bool {
	for _, s := range n.Paths {
		if s.Path == p && s.From < seq {
			return true
		}
	}
	return false
}

// obligation: channel C must get kind Ev for note N with path P.
type obligation struct {
	r    *Reg
	n    *kern.Note
	kind string
	path string
	dyn  bool // directory found after the subscription was made
}

// spanAt returns the path span n was in at seq.
func spanAt(n *kern.Inode, seq int64) *kern.PathSpan {
	for i := range n.Paths {
		s := &n.Paths[i]
		if s.From <= seq && (s.To == 0 || s.To > seq) {
			return s
		}
	}
	return nil
}

// above returns the directory n was in at seq.
func (h *History) above(n *kern.Inode, seq int64) *kern.Inode {
	s := spanAt(n, seq)
	if s == nil {
		return nil
	}
	d := dirOf(s.Path)
	if h.dirs == nil {
		h.dirs = map[string][]*kern.Inode{}
		for _, x := range h.K.All {
			if x.Dir {
				for i := range x.Paths {
					h.dirs[x.Paths[i].Path] = append(h.dirs[x.Paths[i].Path], x)
				}
			}
		}
	}
	for _, x := range h.dirs[d] {
		if s := spanAt(x, seq); s != nil && s.Path == d {
			return x
		}
	}
	return nil
}

// fragile: another subscription may make the package forget r when r's path goes away.
func (h *History) fragile(r *Reg, a, b int64) bool {
	for _, o := range h.Regs {
		if o == r || o.Start >= b || h.gone(o) <= a && !h.possiblyActive(o, a) {
			continue
		}
		if o.Rec && (o.Path == r.Path || under(r.Path, o.Path)) || r.Rec && o.Path == dirOf(r.Path) {
			return true
		}
	}
	return r.Rec
}

// seenBefore: a subscription in force at d makes the package look after p.
func (h *History) seenBefore(d int64, p string) bool {
	for _, o := range h.Regs {
		if h.possiblyActive(o, d) && (o.Path == p || o.Rec && under(p, o.Path)) {
			return true
		}
	}
	return false
}

// seenLater: the package looks after a place where the file went after sp.
func (h *History) seenLater(n *kern.Inode, sp *kern.PathSpan, d int64) bool {
	for i := range n.Paths {
		s := &n.Paths[i]
		if s.From <= sp.From || s.From >= d {
			continue
		}
		for _, o := range h.Regs { // even if it failed or was stopped since
			if o.Start < d && (o.End == 0 || o.End > sp.From || h.possiblyActive(o, sp.From)) && (o.Path == s.Path || o.Rec && under(s.Path, o.Path)) {
				return true
			}
		}
	}
	return false
}

// gone returns the time from which r is certainly over.
func (h *History) gone(r *Reg) int64 {
	if r.End != 0 && r.Err != nil {
		return r.End
	}
	t := int64(1 << 62)
	for _, s := range h.Stops {
		if s.C == r.C && s.End != 0 && r.End != 0 && r.End < s.Start && s.End < t {
			t = s.End
		}
	}
	return t
}

// stale: the package has been looking after p, on behalf of other subscriptions, since
// before the present file came there, without a break until t. It has to notice that.
func (h *History) stale(r *Reg, p string, sp *kern.PathSpan, t int64) bool {
	for changed := true; changed; {
		changed = false
		for _, o := range h.Regs {
			if o != r && o.Start < t && h.gone(o) >= t && (o.Path == p || o.Rec && under(p, o.Path) || o.Amb) {
				t = o.Start
				changed = true
			}
		}
	}
	return sp.From > t
}

// healed: a recursive subscription let the package notice, by time t, the file at p.
func (h *History) healed(r *Reg, ino *kern.Inode, p string, sp *kern.PathSpan, t int64) bool {
	q := h.prevQ(t)
	if sp.From > q || !ino.Dir {
		return false // only directories are looked for
	}
	if h.K.FirstOver > 0 && h.K.FirstOver < t {
		return false // what would have let the package notice may be lost
	}
	for _, d := range h.K.Denied {
		if d.Seq < t {
			for x := ino; x != nil; x = h.above(x, d.Seq) {
				if x == d.Ino {
					return false // it noticed, but was not let
				}
			}
		}
	}
next:
	for _, o := range h.Regs {
		if o == r || !o.Rec || !under(p, o.Path) || o.Ino == nil || o.Amb || !h.definitelyActive(o, sp.From, q) {
			continue
		}
		s := spanAt(o.Ino, o.Start)
		if s == nil || s.Path != o.Path || s.To != 0 && s.To <= t || !h.persistent(o, s) {
			continue
		}
		for a := h.above(ino, q); a != nil && a != o.Ino; a = h.above(a, q) {
			as := spanAt(a, q)
			if as == nil || !under(as.Path, o.Path) || as.To != 0 && as.To <= t || !h.covered(o, a, as.Path, as, q) {
				continue next
			}
		}
		for _, x := range h.Regs { // x went with its path: what o lets notice is watched for o's kinds only
			if x.Rec && x != r && x.Start < t && h.gone(x) > sp.From && under(x.Path, o.Path) && (x.Path == p || under(p, x.Path)) {
				if x.Ino == nil || x.Amb {
					continue next
				}
				if xs := spanAt(x.Ino, x.Start); xs == nil || xs.To != 0 && xs.To <= t {
					continue next
				}
			}
		}
		return true
	}
	return false
}

// covered: the recursive r entitles to the changes in the directory p which is in place
// since sp.From. It does on return of Watch, except for a directory the package has been
// looking after before (on behalf of another subscription) and which was created since:
// the package has to notice that first, provided a recursive subscription lets it.
// A directory created later is covered once the package had the time to notice it.
func (h *History) covered(r *Reg, ino *kern.Inode, p string, sp *kern.PathSpan, pq int64) bool {
	switch {
	case sp.From < r.Start:
		return !h.stale(r, p, sp, r.Start) || h.healed(r, ino, p, sp, r.Start)
	case sp.From <= r.End:
		return !h.stale(r, p, sp, r.End) && sp.From <= pq && r.End < pq
	default:
		return sp.From <= pq
	}
}

// persistent: no earlier subscription has seen another file at the path of r (the
// package does not notice a path being replaced, see #69 in its documentation).
func (h *History) persistent(r *Reg, sp *kern.PathSpan) bool {
	return !h.stale(r, r.Path, sp, r.Start) || h.healed(r, r.Ino, r.Path, sp, r.Start)
}

// denied: the watch limit or missing permissions kept the package from watching the directory when it noticed it.
func (h *History) denied(n *kern.Note) bool {
	for _, d := range h.K.Denied {
		if d.Seq < n.Seq {
			if sp := spanAt(d.Ino, n.Seq); sp != nil && (sp.Path == n.At || under(n.At, sp.Path)) {
				return true
			}
			for p := n.Ino; p != nil; p = p.Parent {
				if p == d.Ino {
					return true
				}
			}
		}
	}
	return false
}

// obligations derives everything the subscriptions in force entitle channels to.
func (h *History) obligations() (obs []obligation) {
	k := h.K
	for _, n := range k.Notes {
		if n.Lost || n.Orphan && n.Mask&(kern.InDelete|kern.InDeleteSelf|kern.InMovedFrom) == 0 {
			continue
		}
		pq, nq := h.prevQ(n.Seq), h.nextQ(n.Seq)
		if nq == 1<<62 {
			continue
		}
		for _, r := range h.Regs {
			if r.Mask&n.Mask == 0 || r.Ino == nil || r.Amb || !h.definitelyActive(r, n.Seq, nq) {
				continue
			}
			p := ""
			dyn := false
			if n.Ino == r.Ino {
				sp := spanAt(n.Ino, r.Start)
				if sp == nil || sp.Path != r.Path || !h.persistent(r, sp) {
					continue
				}
				stay := sp.To == 0 || sp.To > nq
				switch {
				case stay:
				case h.fragile(r, n.Seq, nq):
					continue
				case h.seenLater(n.Ino, sp, nq):
					continue // one OS watch per file: it now goes by the other name
				case sp.To > n.Seq: // left later
				case n.Self && n.Mask&kern.InDeleteSelf != 0 && n.Gone == r.Path && n.At == "" && lastSpan(n.Ino) == sp:
				case n.Self && n.Mask&kern.InMoveSelf != 0 && nextSpan(n.Ino, sp) != nil && nextSpan(n.Ino, sp) == spanAt(n.Ino, n.Seq) && h.opOf(sp.To, n):
				default:
					continue
				}
				p = r.Path
			} else if r.Rec && n.Ino.Dir && n.At != "" && under(n.At, r.Path) {
				rs := spanAt(r.Ino, r.Start)
				if rs == nil || rs.Path != r.Path || rs.To != 0 && rs.To <= nq {
					continue
				}
				sp := spanAt(n.Ino, n.Seq)
				if sp == nil || sp.Path != n.At || sp.To != 0 && sp.To <= nq {
					continue
				}
				if !h.persistent(r, rs) || !h.covered(r, n.Ino, n.At, sp, pq) {
					continue
				}
				above := true
				for a := h.above(n.Ino, n.Seq); a != nil && a != r.Ino && above; a = h.above(a, n.Seq) {
					as := spanAt(a, n.Seq)
					above = as != nil && under(as.Path, r.Path) && h.covered(r, a, as.Path, as, pq)
				}
				if !above {
					continue
				}
				if k.FirstOver > 0 && n.Seq > k.FirstOver && !(sp.From <= h.prevQ(k.FirstOver) && r.End < k.FirstOver) {
					continue
				}
				dyn = sp.From > r.Start
				p = n.At
			} else {
				continue
			}
			if n.Name != "" {
				p = joinp(p, n.Name)
			}
			if r.Rec && h.denied(n) {
				continue
			}
			for _, kd := range r.Kinds {
				if kindMask[kd]&n.Mask != 0 {
					obs = append(obs, obligation{r, n, kd, p, dyn})
				}
			}
		}
	}
	return
}

func lastSpan(n *kern.Inode) *kern.PathSpan { return &n.Paths[len(n.Paths)-1] }

func nextSpan(n *kern.Inode, sp *kern.PathSpan) *kern.PathSpan {
	for i := range n.Paths {
		if &n.Paths[i] == sp && i+1 < len(n.Paths) {
			return &n.Paths[i+1]
		}
	}
	return nil
}

// opOf: the span ended by the operation that caused n.
func (h *History) opOf(to int64, n *kern.Note) bool {
	o, ok := h.opSeqs[n.Op]
	return ok && o.start <= to
}

// completeness (C02, C04, C05, C07, C08, C10).
func (h *History) completeness() (vs []Violation, nob int) {
	obs := h.obligations()
	nob = len(obs)
	type dkey struct {
		c    int
		ev   notify.Event
		path string
		mask uint32
		cook uint32
	}
	dels := map[dkey][]int64{}
	for _, d := range h.Dels {
		k := dkey{d.C, d.Ev, d.Path, d.Mask, d.Cookie}
		dels[k] = append(dels[k], d.Seq)
	}
	for _, ds := range dels {
		sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	}
	full := h.fullSeen()
	type miss struct {
		c  int
		at int64
		v  Violation
	}
	var unmet []miss
	need := map[dkey]map[*kern.Queued]obligation{}
	var keys []dkey
	for _, o := range obs {
		if len(o.n.Q) == 0 {
			sig := "not-watched"
			if o.dyn {
				sig = "not-watched-new-directory"
			}
			vs = append(vs, Violation{Cat: "missed", Sig: sig, Seq: o.n.Seq,
				Msg: fmt.Sprintf("@%d change %s on %q (%s): the package holds no OS watch that reports it, although %s is in force for ch%d", o.n.Seq, maskName(o.n.Mask), o.path, o.kind, o.r, o.r.C), Odd: o.r.Odd && !o.dyn})
			continue
		}
		k := dkey{o.r.C, evByName[o.kind], o.path, o.n.Mask, o.n.Q[0].Cookie}
		if need[k] == nil {
			need[k] = map[*kern.Queued]obligation{}
			keys = append(keys, k)
		}
		need[k][o.n.Q[0]] = o
	}
	for _, k := range keys {
		var qs []*kern.Queued
		for q := range need[k] {
			qs = append(qs, q)
		}
		at := func(q *kern.Queued) int64 {
			if q.ReadAt == 0 {
				return 1 << 61
			}
			return q.ReadAt
		}
		sort.Slice(qs, func(i, j int) bool {
			if at(qs[i]) != at(qs[j]) {
				return at(qs[i]) > at(qs[j])
			}
			return qs[i].Seq > qs[j].Seq
		})
		ds := dels[k]
		j := len(ds) - 1
		for _, q := range qs {
			if j >= 0 && ds[j] > at(q) {
				j--
				continue
			}
			o := need[k][q]
			sig := "lost"
			if q.ReadAt == 0 {
				sig = "unread"
			}
			unmet = append(unmet, miss{k.c, at(q), Violation{Cat: "missed", Sig: sig, Seq: o.n.Seq,
				Msg: fmt.Sprintf("@%d change %s on %q (%s) was queued by the OS (wd %d, read @%d) but ch%d, for which %s is in force, got %d of %d", o.n.Seq, maskName(o.n.Mask), o.path, o.kind, q.Wd, q.ReadAt, o.r.C, o.r, len(ds), len(qs))}})
			if len(h.SeenFull[k.c]) == 0 {
				break
			}
		}
	}
	sort.SliceStable(unmet, func(i, j int) bool { return unmet[i].at > unmet[j].at })
	for _, m := range unmet {
		if !full.take(m.c, m.at, h.nextQ(m.at)) {
			vs = append(vs, m.v)
		}
	}
	return
}

// watchTable compares the OS watches held with what subscriptions need (C06).
func (h *History) watchTable() (vs []Violation) {
	if h.RollbackFault {
		return // undoing a failed call failed, too
	}
	for i, sn := range h.Snaps {
		var act []*Reg
		for _, r := range h.Regs {
			if h.possiblyActive(r, sn.Seq) {
				act = append(act, r)
			}
		}
		pts := h.merged(-1, sn.Seq)
		for _, w := range sn.Watches {
			if (w.Now != w.Path || w.Left) && len(act) > 0 {
				continue // moved away: the package does not follow the files it watches
			}
			var m uint32
			rec, cov := false, false
			for _, r := range pts {
				if r.amb || r.path == w.Path || r.rec && under(w.Path, r.path) && w.Dir {
					m |= r.mask
					cov = true
					if r.rec {
						rec = true
					}
					if r.amb {
						m = ^uint32(0)
					}
				}
			}
			if rec {
				m |= kindMask["Create"]
			}
			if !w.Dir && h.vacated(w.Path, sn.Seq) && len(act) > 0 {
				continue // likewise: took the place of such a directory
			}
			if !cov {
				sig := "leak"
				if len(act) == 0 {
					sig = "leak-all-stopped"
				}
				vs = append(vs, Violation{Cat: "leak", Sig: sig, Seq: sn.Seq, Msg: fmt.Sprintf("at quiescence %d (@%d) the OS watch %d on %q (%s) is still held although no subscription needs it; subscriptions: %s", i, sn.Seq, w.Wd, w.Path, maskName(w.Mask), regList(act))})
				continue
			}
			if x := w.Mask &^ m; x != 0 {
				vs = append(vs, Violation{Cat: "mask", Sig: "wide", Seq: sn.Seq, Msg: fmt.Sprintf("at quiescence %d (@%d) the OS watch %d on %q also asks for %s which no subscription needs there; subscriptions: %s", i, sn.Seq, w.Wd, w.Path, maskName(x), regList(act))})
			}
		}
	}
	return
}

// vacated: a directory was at p, and went, before seq.
func (h *History) vacated(p string, seq int64) bool {
	for _, n := range h.K.All {
		if !n.Dir {
			continue
		}
		for _, s := range n.Paths {
			if s.Path == p && s.To != 0 && s.To < seq {
				return true
			}
		}
	}
	return false
}

func regList(rs []*Reg) string {
	var p []string
	for _, r := range rs {
		p = append(p, r.String())
	}
	if p == nil {
		return "none"
	}
	return strings.Join(p, ", ")
}

// watchErrors: Watch fails exactly when it has a reason to (C07).
func (h *History) watchErrors() (vs []Violation) {
	for _, r := range h.Regs {
		if r.End == 0 || len(r.Op.E) == 0 {
			continue
		}
		switch {
		case r.Err != nil && !r.FaultHit && !r.Bad && !r.Missing && !r.Amb && r.Ino != nil && r.Open && (r.Ino.Dir || !r.Rec):
			sig := "failed-without-cause"
			if r.Churn {
				sig = "failed-because-of-churn-below"
			}
			vs = append(vs, Violation{Cat: "watcherr", Sig: sig, Seq: r.End, Msg: fmt.Sprintf("%s failed with %q although the path exists and every OS call it needs succeeds", r, r.Err), Odd: r.Odd})
		case r.Err == nil && r.Missing:
			vs = append(vs, Violation{Cat: "watcherr", Sig: "nil-for-missing", Seq: r.End, Msg: fmt.Sprintf("%s returned nil although nothing exists at that path", r), Odd: r.Odd})
		case r.Err == nil && r.Bad:
			vs = append(vs, Violation{Cat: "watcherr", Sig: "nil-for-unsupported-kind", Seq: r.End, Msg: fmt.Sprintf("%s returned nil although it asks for an event kind this platform does not have", r)})
		}
	}
	return
}

// readable: the permissions let the package watch n (and everything below it).
func readable(n *kern.Inode, rec bool) bool {
	var ok func(n *kern.Inode) bool
	ok = func(n *kern.Inode) bool {
		if n.Mode&0o500 != 0o500 && n.Dir || n.Mode&0o400 == 0 && !n.IsLink {
			return false
		}
		if !rec {
			return true
		}
		for _, c := range n.Ents {
			if c.Dir && !ok(c) {
				return false
			}
		}
		return true
	}
	for p := n.Parent; p != nil; p = p.Parent {
		if p.Mode&0o100 == 0 {
			return false
		}
	}
	return ok(n)
}
