package main

import (
	"errors"
	"fmt"
	"sort"

	"dst/kern"
	"dst/sim"
	notify "dst/sut"
)

// The natively recursive OS watcher is simulated here: a set of watches on paths, each
// with an event set, recursive or not, in the manner of FSEvents and ReadDirectoryChangesW.

type rtWatch struct {
	path string
	ev   notify.Event
	rec  bool
}

func (w *rtWatch) String() string {
	d := ""
	if w.rec {
		d = "/..."
	}
	return fmt.Sprintf("%s%s(%s)", w.path, d, kindList(w.ev))
}

func kindList(e notify.Event) string {
	s := ""
	for _, n := range kindNames {
		if x := evByName[n]; e&x == x {
			if s != "" {
				s += "|"
			}
			s += n
			e &^= x
		}
	}
	if e != 0 || s == "" {
		s += fmt.Sprintf("+%#x", uint32(e))
	}
	return s
}

// rtNote is one notification of the OS watcher; it is the Sys() of the event.
type rtNote struct {
	id   int
	ch   *rtChange
	from string
	At   int64 // taken from the OS queue
}

// rtChange is one change of the file system.
type rtChange struct {
	seq    int64
	path   string
	kind   string
	notes  []*rtNote
	inCall bool // a Watch or Stop call was in progress
}

// rtState is the simulated OS watcher and what it recorded.
type rtState struct {
	r        *runner
	watches  map[string]*rtWatch
	c        chan notify.EventInfo
	queue    []*rtNote
	notes    []*rtNote
	changes  []*rtChange
	wake     *sim.Task
	calls    int // Watch/Stop calls in progress
	reqs     int
	illegal  []Violation
	snaps    []rtSnap
	stopHit  int64 // since when a request made by Stop has failed, which the package cannot report
	stopping map[*sim.Task]bool
	hitBy    map[*sim.Task]int
}

// rtSnap is the state after a call returned with no other in progress.
type rtSnap struct {
	seq     int64
	watches []rtWatch
}

var errOS = errors.New("the OS refuses the request")

func (s *rtState) fault(req string) error {
	for _, f := range s.r.k.Faults {
		if f.N > 0 && f.Sys == req {
			if f.Skip > 0 {
				f.Skip--
				continue
			}
			f.N--
			if f.Stall > 0 {
				s.r.k.Fired[req+":stall"]++
				sim.Sleep(f.Stall)
				continue
			}
			f.Hit++
			s.r.k.Fired[req]++
			s.hitBy[sim.Cur()]++
			if s.stopping[sim.Cur()] && s.stopHit == 0 {
				s.stopHit = sim.CurSeq()
			}
			return errOS
		}
	}
	return nil
}

func (s *rtState) bad(sig, f string, a ...any) error {
	if s.stopHit > 0 {
		return errOS // the tree is out of step with the OS
	}
	s.illegal = append(s.illegal, Violation{Cat: "illegal", Sig: sig, Msg: fmt.Sprintf(f, a...), Seq: sim.CurSeq()})
	return errors.New("illegal request")
}

func (s *rtState) logf(f string, a ...any) {
	if s.r.k.Log != nil {
		s.r.logf("  OS watcher: "+f, a...)
	}
}

func (s *rtState) checkEv(req, path string, e notify.Event) bool {
	var known notify.Event
	for _, k := range kindNames {
		known |= evByName[k]
	}
	if e == 0 || e&^known != 0 {
		s.bad("event-set", "%s(%q) with the event set %#x", req, path, uint32(e))
		return false
	}
	return true
}

func (s *rtState) set(req, path string, e notify.Event, rec bool) error {
	s.reqs++
	sim.SyncPoint()
	if err := s.fault(req); err != nil {
		s.logf("%s(%q, %s) fails", req, path, kindList(e))
		return err
	}
	s.logf("%s(%q, %s)", req, path, kindList(e))
	if !s.checkEv(req, path, e) {
		return errOS
	}
	if w := s.watches[path]; w != nil {
		return s.bad("already-watched", "%s(%q, %s): the path is already watched for %s", req, path, kindList(e), w)
	}
	s.watches[path] = &rtWatch{path, e, rec}
	sim.SyncPoint()
	return nil
}

func (s *rtState) unset(req, path string) error {
	s.reqs++
	sim.SyncPoint()
	if err := s.fault(req); err != nil {
		s.logf("%s(%q) fails", req, path)
		return err
	}
	s.logf("%s(%q)", req, path)
	if s.watches[path] == nil {
		return s.bad("not-watched", "%s(%q): the path is not watched", req, path)
	}
	delete(s.watches, path)
	sim.SyncPoint()
	return nil
}

func (s *rtState) change(req, oldp, newp string, olde, newe notify.Event, rec bool) error {
	s.reqs++
	sim.SyncPoint()
	if err := s.fault(req); err != nil {
		s.logf("%s(%q -> %q, %s -> %s) fails", req, oldp, newp, kindList(olde), kindList(newe))
		return err
	}
	s.logf("%s(%q -> %q, %s -> %s)", req, oldp, newp, kindList(olde), kindList(newe))
	if !s.checkEv(req, newp, newe) || !s.checkEv(req, oldp, olde) {
		return errOS
	}
	w := s.watches[oldp]
	if w == nil {
		return s.bad("not-watched", "%s(%q -> %q): the path is not watched", req, oldp, newp)
	}
	if w.ev != olde {
		return s.bad("wrong-old-set", "%s(%q -> %q, %s -> %s): the present event set is %s", req, oldp, newp, kindList(olde), kindList(newe), kindList(w.ev))
	}
	if oldp != newp {
		if s.watches[newp] != nil {
			return s.bad("already-watched", "%s(%q -> %q): the path is already watched", req, oldp, newp)
		}
		delete(s.watches, oldp)
		sim.SyncPoint() // a change made right now is lost
	}
	s.watches[newp] = &rtWatch{newp, newe, rec}
	sim.SyncPoint()
	return nil
}

// The watcher interface.

func (s *rtState) Watch(p string, e notify.Event) error { return s.set("Watch", p, e, false) }
func (s *rtState) Unwatch(p string) error               { return s.unset("Unwatch", p) }
func (s *rtState) Rewatch(p string, o, n notify.Event) error {
	return s.change("Rewatch", p, p, o, n, false)
}
func (s *rtState) RecursiveWatch(p string, e notify.Event) error {
	return s.set("RecursiveWatch", p, e, true)
}
func (s *rtState) RecursiveUnwatch(p string) error { return s.unset("RecursiveUnwatch", p) }
func (s *rtState) RecursiveRewatch(op, np string, oe, ne notify.Event) error {
	return s.change("RecursiveRewatch", op, np, oe, ne, true)
}
func (s *rtState) Close() error { return nil }

func (w *rtWatch) reports(p string, e notify.Event) bool {
	return w.ev&e != 0 && (p == w.path || dirOf(p) == w.path || w.rec && under(p, w.path))
}

// touch makes a change happen.
func (s *rtState) touch(p, kind string) {
	c := &rtChange{seq: sim.Seq(), path: p, kind: kind, inCall: s.calls > 0}
	s.changes = append(s.changes, c)
	for _, k := range sortedKeys(s.watches) {
		w := s.watches[k]
		if w.reports(p, evByName[kind]) {
			n := &rtNote{id: len(s.notes) + 1, ch: c, from: w.path}
			s.notes = append(s.notes, n)
			c.notes = append(c.notes, n)
			s.queue = append(s.queue, n)
		}
	}
	s.logf("%s %q: %d notifications", kind, p, len(c.notes))
	if s.wake != nil && len(s.queue) > 0 {
		t := s.wake
		s.wake = nil
		sim.Ready(t)
	}
	sim.SyncPoint()
}

// pump reports the notifications, in order.
func (s *rtState) pump() {
	for {
		for len(s.queue) == 0 {
			s.wake = sim.Cur()
			sim.Block("no OS notifications")
		}
		n := s.queue[0]
		s.queue = s.queue[1:]
		n.At = sim.Seq()
		sim.SendTo[notify.EventInfo](s.c).Do(&notify.SimEvent{E: evByName[n.ch.kind], P: n.ch.path, S: n})
	}
}

func (r *runner) rtMain() {
	s := &rtState{r: r, watches: map[string]*rtWatch{}, stopping: map[*sim.Task]bool{}, hitBy: map[*sim.Task]int{}}
	r.h.rt = s
	s.c = sim.Reg(make(chan notify.EventInfo, 128))
	notify.SimReset()
	tree := notify.SimNewRecursiveTree(s, s.c)
	sim.GoQuiet("os-watcher", s.pump)
	for i, c := range r.p.Chans {
		r.addChan(i, c)
	}
	sim.Quiesce()
	r.snap()
	for pi, ph := range r.p.Phases {
		if ph.Probe {
			for _, p := range append([]string{"/", "/n"}, rtPaths...) {
				for _, k := range allKinds {
					r.h.Probes++
					s.touch(p, k)
				}
				sim.Quiesce()
			}
			r.snap()
			continue
		}
		var ts []*sim.Task
		for ti, ops := range ph.T {
			ops, ti := ops, ti
			ts = append(ts, sim.Spawn(fmt.Sprintf("caller%d.%d", pi+1, ti), func() {
				for _, op := range ops {
					r.rtDo(tree, op, ti, pi)
				}
			}))
		}
		sim.Quiesce()
		bad := false
		for _, t := range ts {
			if !t.Done() {
				bad = true
			}
		}
		r.snap()
		if bad {
			sim.Block("phase did not complete")
		}
	}
}

func (r *runner) rtDo(tree notify.SimTree, op Op, thread, phase int) {
	s := r.h.rt
	r.h.Ops++
	if r.k.Log != nil && op.K != "touch" {
		r.logf("%s", op)
	}
	switch op.K {
	case "watch":
		p, rec, n := r.canon(op.P)
		g := &Reg{C: op.C, Raw: op.P, Path: p, Rec: rec, Op: op, Ino: n, Start: sim.Seq(), Thread: thread, Phase: phase, Missing: n == nil}
		for _, e := range op.E {
			g.Ev |= evByName[e]
			if !contains(g.Kinds, e) {
				g.Kinds = append(g.Kinds, e)
			}
		}
		if len(op.E) > 0 {
			r.h.Regs = append(r.h.Regs, g)
		}
		s.calls++
		hits := s.hitBy[sim.Cur()]
		g.Err = tree.Watch(op.P, r.chans[op.C], r.events(op.E)...)
		s.calls--
		g.End = sim.Seq()
		g.FaultHit = s.hitBy[sim.Cur()] != hits
		if r.k.Log != nil {
			r.logf("%s returned %v; OS watches: %s", op, g.Err, s.list())
		}
		s.rtSnap()
	case "stop":
		st := &StopCall{C: op.C, Start: sim.Seq(), Thread: thread, Phase: phase}
		r.h.Stops = append(r.h.Stops, st)
		s.calls++
		s.stopping[sim.Cur()] = true
		tree.Stop(r.chans[op.C])
		s.stopping[sim.Cur()] = false
		s.calls--
		st.End = sim.Seq()
		if r.k.Log != nil {
			r.logf("%s returned; OS watches: %s", op, s.list())
		}
		s.rtSnap()
	case "touch":
		s.touch(op.P, op.E[0])
	default:
		r.do(op, thread, phase)
	}
}

func (s *rtState) list() string {
	l := ""
	for _, k := range sortedKeys(s.watches) {
		l += s.watches[k].String() + " "
	}
	if l == "" {
		return "none"
	}
	return l
}

func (s *rtState) rtSnap() {
	if s.calls > 0 {
		return
	}
	sn := rtSnap{seq: sim.Seq()}
	for _, k := range sortedKeys(s.watches) {
		sn.watches = append(sn.watches, *s.watches[k])
	}
	s.snaps = append(s.snaps, sn)
}

func (s *rtState) nontrivial() bool { return len(s.notes) > 0 }

// rtCoherent: the OS watches cover the subscriptions, and are gone with them (C14).
func (h *History) rtCoherent() (vs []Violation) {
	s := h.rt
	vs = append(vs, s.illegal...)
	for _, sn := range s.snaps {
		if s.stopHit > 0 && sn.seq > s.stopHit {
			break // the package could not report this
		}
		var act []*Reg
		for _, r := range h.Regs {
			if h.possiblyActive(r, sn.seq) {
				act = append(act, r)
			}
		}
		if len(act) == 0 && len(sn.watches) > 0 {
			vs = append(vs, Violation{Cat: "leak", Sig: "leak-all-stopped", Seq: sn.seq, Msg: fmt.Sprintf("@%d no subscription is left, yet the OS watch %s is still set", sn.seq, &sn.watches[0])})
		}
		for i := range sn.watches {
			w := &sn.watches[i]
			rec := false
			var need notify.Event
			for _, r := range act {
				if r.Path == w.path || under(r.Path, w.path) || r.Rec && under(w.path, r.Path) {
					need |= r.Ev
					rec = rec || r.Rec || r.Path != w.path
				}
			}
			if x := w.ev &^ need; x != 0 {
				vs = append(vs, Violation{Cat: "leak", Sig: "wide", Seq: sn.seq, Msg: fmt.Sprintf("@%d the OS watch %s is also set for %s, which no subscription needs; subscriptions: %s", sn.seq, w, kindList(x), regList(act))})
			}
			for _, r := range h.Regs { // a watch stays recursive until it is removed
				if r.Start < sn.seq && (r.Path == w.path && r.Rec || under(r.Path, w.path)) {
					rec = true
				}
			}
			if w.rec && !rec {
				vs = append(vs, Violation{Cat: "leak", Sig: "recursive", Seq: sn.seq, Msg: fmt.Sprintf("@%d the OS watch %s is recursive, which no subscription has ever needed; subscriptions: %s", sn.seq, w, regList(act))})
			}
		}
		for _, r := range act {
			if !h.definitelyActive(r, sn.seq, sn.seq+1) {
				continue
			}
			var got notify.Event
			for _, w := range sn.watches {
				if w.path == r.Path && (w.rec || !r.Rec) || under(r.Path, w.path) && w.rec || dirOf(r.Path) == w.path && !r.Ino.Dir {
					got |= w.ev
				}
			}
			if miss := r.Ev &^ got; miss != 0 {
				vs = append(vs, Violation{Cat: "uncovered", Sig: "uncovered", Seq: sn.seq, Msg: fmt.Sprintf("@%d no OS watch covers %s for %s; OS watches: %v", sn.seq, r, kindList(miss), sn.watches)})
			}
		}
	}
	for _, r := range h.Regs {
		if r.End == 0 {
			continue
		}
		if r.Missing && r.Err == nil {
			vs = append(vs, Violation{Cat: "watcherr", Sig: "nil-for-missing", Seq: r.End, Msg: fmt.Sprintf("%s returned nil although nothing exists at that path", r)})
		}
		if r.FaultHit && r.Err == nil {
			vs = append(vs, Violation{Cat: "watcherr", Sig: "error-swallowed", Seq: r.End, Msg: fmt.Sprintf("%s returned nil although the OS watcher failed a request it made", r)})
		}
		if !r.FaultHit && r.Err != nil && !r.Missing && len(s.illegal) == 0 && s.stopHit == 0 {
			vs = append(vs, Violation{Cat: "watcherr", Sig: "failed-without-cause", Seq: r.End, Msg: fmt.Sprintf("%s failed with %q although no request failed", r, r.Err)})
		}
	}
	return
}

// rtDeliveries: who gets what (C13).
func (h *History) rtDeliveries() (vs []Violation, nob int) {
	s := h.rt
	type key struct{ c, note int }
	got := map[key]int{}
	for _, d := range h.Dels {
		n, _ := d.ei.Sys().(*rtNote)
		if n == nil {
			vs = append(vs, Violation{Cat: "unsound", Sig: "invented", Seq: d.Seq, Msg: "no OS notification behind: " + d.String()})
			continue
		}
		d.Wd = int32(n.id)
		if d.Path != n.ch.path || d.Ev != evByName[n.ch.kind] {
			vs = append(vs, Violation{Cat: "unsound", Sig: "altered", Seq: d.Seq, Msg: "differs from the OS notification: " + d.String()})
			continue
		}
		cov := 0
		for _, m := range h.merged(d.C, d.Seq) {
			if m.ev&d.Ev == d.Ev && (d.Path == m.path || dirOf(d.Path) == m.path || m.rec && under(d.Path, m.path)) {
				cov++
			}
		}
		if cov == 0 {
			if h.anyActive(d.C, d.Seq) {
				vs = append(vs, Violation{Cat: "unsound", Sig: "coverage", Seq: d.Seq, Msg: "no subscription of the channel covers it: " + d.String()})
			}
			continue
		}
		k := key{d.C, n.id}
		got[k]++
		if got[k] > cov && !d.Drop {
			vs = append(vs, Violation{Cat: "unsound", Sig: "duplicate", Seq: d.Seq, Msg: fmt.Sprintf("delivered %d times for one OS notification and %d covering subscription paths: %s", got[k], cov, d)})
		}
	}
	full := h.fullSeen()
	for _, c := range s.changes {
		nq := h.nextQ(c.seq)
		if nq == 1<<62 {
			continue
		}
		for ci := range h.P.Chans {
			paths := map[string]bool{}
			var ex *Reg
			for _, r := range h.Regs {
				if r.C != ci || r.Ev&evByName[c.kind] == 0 || !h.definitelyActive(r, c.seq, nq) || !r.covers(c.path) {
					continue
				}
				paths[r.Path] = true
				ex = r
			}
			if ex == nil {
				continue
			}
			nob++
			if len(c.notes) == 0 {
				if !c.inCall && s.stopHit == 0 {
					vs = append(vs, Violation{Cat: "missed", Sig: "not-watched", Seq: c.seq, Msg: fmt.Sprintf("@%d %s of %q: no OS watch reports it, although %s is in force for ch%d", c.seq, c.kind, c.path, ex, ci)})
				}
				continue
			}
			for _, n := range c.notes {
				if g := got[key{ci, n.id}]; g < len(paths) && !full.take(ci, c.seq, nq) {
					vs = append(vs, Violation{Cat: "missed", Sig: "lost", Seq: c.seq, Msg: fmt.Sprintf("@%d %s of %q, reported by the OS, reached ch%d %d times where it has %d covering subscription paths, such as %s", c.seq, c.kind, c.path, ci, g, len(paths), ex)})
				}
			}
		}
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Seq < vs[j].Seq })
	return
}

func (h *History) anyActive(c int, d int64) bool {
	for _, r := range h.Regs {
		if r.C == c && h.possiblyActive(r, d) {
			return true
		}
	}
	return false
}

// The universe of the native watcher runs.
var rtSetup = []Op{{K: "mkdirall", P: "/w/a/b/c"}, {K: "mkdirall", P: "/w/a/d"}, {K: "mkdir", P: "/w/e"}, {K: "create", P: "/w/f"}, {K: "create", P: "/w/a/f"}, {K: "create", P: "/w/a/b/f"}}
var rtDirs = []string{"/w", "/w/a", "/w/a/b", "/w/a/b/c", "/w/a/d", "/w/e"}
var rtFiles = []string{"/w/f", "/w/a/f", "/w/a/b/f"}
var rtPaths = []string{"/w", "/w/f", "/w/n", "/w/a", "/w/a/f", "/w/a/n", "/w/a/b", "/w/a/b/f", "/w/a/b/n", "/w/a/b/c", "/w/a/b/c/n", "/w/a/d", "/w/a/d/n", "/w/e", "/w/e/n"}

var rtMissing = []string{"/w/x", "/w/a/x/...", "/w/a/b/x", "/x/y/..."}

var rtFaults = []string{"Watch", "Rewatch", "RecursiveWatch", "RecursiveRewatch", "RecursiveRewatch"}

func generateRT(pr *Profile, seed uint64) *Program {
	var r sim.Rand
	r.Seed(seed ^ 0x1234567)
	p := &Program{Kind: "rtree", Cwd: "/w", Setup: rtSetup, Policy: drawPolicy(&r), Kern: kern.Config{Atomic: true}}
	bt := func(x [2]int) int { return x[0] + r.Intn(x[1]-x[0]+1) }
	nch := bt(pr.Chans)
	for i := 0; i < nch; i++ {
		p.Chans = append(p.Chans, ChanSpec{Cap: pr.Cap[r.Intn(len(pr.Cap))], Mode: pr.Modes[r.Intn(len(pr.Modes))]})
	}
	// a small part of the tree, so that subscriptions meet
	dirs, files := rtDirs, rtFiles
	if r.Bool(0.5) {
		dirs, files = rtDirs[1:4], rtFiles[1:]
	}
	paths := rtPaths
	if r.Bool(0.08) { // the root directory
		dirs = append([]string{"/"}, dirs...)
		paths = append([]string{"/", "/n"}, paths...)
	}
	watch := func() Op {
		d := dirs[r.Intn(len(dirs))]
		rec := r.Bool(pr.RecP)
		if !rec && r.Bool(0.15) {
			d = files[r.Intn(len(files))]
		}
		if rec {
			d += "/..."
		}
		if r.Bool(0.02) {
			d = rtMissing[r.Intn(len(rtMissing))]
		}
		op := Op{K: "watch", P: d, C: r.Intn(nch)}
		if r.Bool(0.01) {
			return op // changes nothing
		}
		n := 1 + r.Intn(2)
		if r.Bool(0.15) {
			n = 4
		}
		for len(op.E) < n {
			k := allKinds[r.Intn(4)]
			if !contains(op.E, k) {
				op.E = append(op.E, k)
			}
		}
		return op
	}
	var ks []string
	var ws []int
	for _, k := range sortedKeys(pr.W) {
		ks = append(ks, k)
		ws = append(ws, pr.W[k])
	}
	gone := false
	for i := bt(pr.Phases); i > 0; i-- {
		var ph Phase
		for t := bt(pr.Threads); t > 0; t-- {
			var ops []Op
			for n := bt(pr.Ops); n > 0; n-- {
				switch k := ks[r.Pick(ws...)]; k {
				case "watch":
					ops = append(ops, watch())
				case "stop":
					ops = append(ops, Op{K: "stop", C: r.Intn(nch)})
				case "touch":
					ops = append(ops, Op{K: "touch", P: paths[r.Intn(len(paths))], E: []string{allKinds[r.Intn(4)]}})
				case "yield":
					ops = append(ops, Op{K: "yield", N: int64(1 + r.Intn(10))})
				}
			}
			ph.T = append(ph.T, ops)
		}
		if r.Bool(0.07) {
			f := Op{K: "fault", S: rtFaults[r.Intn(len(rtFaults))], N: int64(1 + r.Intn(2)), Skp: r.Intn(1 + r.Intn(3)), D: []int64{2e6, 150e6, 3e9, 70e9}[r.Intn(4)]}
			if r.Bool(0.6) {
				f = freezeOp(&r)
			}
			ti := r.Intn(len(ph.T))
			ph.T[ti] = append([]Op{f}, ph.T[ti]...)
		}
		if r.Bool(pr.FaultP) && !gone {
			f := Op{K: "fault", S: rtFaults[r.Intn(len(rtFaults))], N: 1, Skp: r.Intn(1 + r.Intn(3))}
			ti := r.Intn(len(ph.T))
			ph.T[ti] = append([]Op{f}, ph.T[ti]...)
			p.Phases = append(p.Phases, ph, Phase{T: [][]Op{{{K: "heal"}}}})
		} else {
			p.Phases = append(p.Phases, ph)
		}
		if r.Bool(pr.ProbeMid) {
			p.Phases = append(p.Phases, Phase{Probe: true})
		}
	}
	if pr.ProbeEnd {
		p.Phases = append(p.Phases, Phase{Probe: true})
	}
	if r.Bool(pr.FinalStop) {
		var ops []Op
		for i := 0; i < nch; i++ {
			ops = append(ops, Op{K: "stop", C: i})
		}
		p.Phases = append(p.Phases, Phase{T: [][]Op{ops}}, Phase{Probe: true})
	}
	return p
}
