package main

import (
	"fmt"
	"sort"
	"strings"
	"unsafe"

	"dst/kern"
	"dst/sim"
	notify "dst/sut"
)

// Runs of Kind "watcher" drive the platform's OS watcher itself, over the simulated
// kernel: Watch, Rewatch, Unwatch and Close, one at a time as the trees above it make
// them, while the file system changes and notifications are being handled (C15).

// wtCall is one call to the watcher.
type wtCall struct {
	k          string
	path       string
	ino        *kern.Inode
	old        *wtCall // in force before
	kinds      []string
	ev         notify.Event
	start, end int64
	err        error
	hit        bool // a system call it made failed
	fds        int  // descriptors open when it returned
	watches    int
}

func (c *wtCall) String() string {
	switch c.k {
	case "wt.watch", "wt.rewatch":
		return fmt.Sprintf("%s(%q, %s)", strings.ToUpper(c.k[3:4])+c.k[4:], c.path, strings.Join(c.kinds, "|"))
	case "wt.unwatch":
		return fmt.Sprintf("Unwatch(%q)", c.path)
	}
	return "Close()"
}

type wtState struct {
	r     *runner
	w     notify.SimWatcher
	calls []*wtCall
	cur   map[string]*wtCall // watched now
	base  map[*sim.Task]bool // goroutines that are not the watcher's
	left  []Violation
	order int // the calls are ordered, as by the lock of a tree
}

func (s *wtState) goroutines() (l []string) {
	for _, t := range s.r.s.Daemons() {
		if !s.base[t] {
			l = append(l, t.Name+": "+t.Why())
		}
	}
	return
}

func (r *runner) wtMain() {
	s := &wtState{r: r, cur: map[string]*wtCall{}, base: map[*sim.Task]bool{}}
	r.h.wt = s
	notify.SimReset()
	for i, c := range r.p.Chans {
		r.addChan(i, c)
	}
	sim.Quiesce()
	for _, t := range r.s.Daemons() {
		s.base[t] = true
	}
	s.w = notify.SimNewWatcher(r.chans[0])
	r.snap()
	for pi, ph := range r.p.Phases {
		if ph.Probe {
			r.probe()
			s.snap()
			continue
		}
		var ts []*sim.Task
		for ti, ops := range ph.T {
			ops, ti := ops, ti
			ts = append(ts, sim.Spawn(fmt.Sprintf("caller%d.%d", pi+1, ti), func() {
				for _, op := range ops {
					r.wtDo(s, op, ti, pi)
				}
			}))
		}
		sim.Quiesce()
		bad := false
		for _, t := range ts {
			if !t.Done() {
				bad = true
			}
		}
		s.snap()
		if bad {
			sim.Block("phase did not complete")
		}
	}
}

// snap is called at quiescence.
func (s *wtState) snap() {
	s.r.snap()
	if n := len(s.calls); n > 0 && s.calls[n-1].k == "wt.close" && s.calls[n-1].err == nil && s.calls[n-1].end != 0 {
		if l := s.goroutines(); len(l) > 0 {
			s.left = append(s.left, Violation{Cat: "closed", Sig: "goroutines", Seq: s.calls[n-1].end, Msg: fmt.Sprintf("Close() returned @%d, yet goroutines of the watcher go on: %s", s.calls[n-1].end, strings.Join(l, "; "))})
		}
	}
}

func (r *runner) wtDo(s *wtState, op Op, thread, phase int) {
	if !strings.HasPrefix(op.K, "wt.") {
		r.do(op, thread, phase)
		return
	}
	r.h.Ops++
	c := &wtCall{k: op.K, path: op.P}
	for _, e := range op.E {
		c.ev |= evByName[e]
		c.kinds = append(c.kinds, e)
	}
	old := s.cur[op.P]
	if op.K == "wt.watch" && old != nil {
		c.k = "wt.rewatch" // what the trees do
	}
	if (op.K == "wt.rewatch" || op.K == "wt.unwatch") && old == nil {
		return
	}
	c.ino, c.old = r.k.Lookup(op.P), old
	s.calls = append(s.calls, c)
	hits := r.hits()
	if r.k.Log != nil {
		r.logf("%s", c)
	}
	c.start = sim.Seq()
	sim.Acquire(unsafe.Pointer(&s.order))
	var err error
	switch c.k {
	case "wt.watch":
		err = s.w.Watch(op.P, c.ev)
	case "wt.rewatch":
		err = s.w.Rewatch(op.P, old.ev, c.ev)
	case "wt.unwatch":
		err = s.w.Unwatch(op.P)
	case "wt.close":
		err = s.w.Close()
	}
	sim.Release(unsafe.Pointer(&s.order))
	c.fds, c.watches = r.k.OpenFDs(), len(r.k.Watches())
	c.err = err
	c.hit = r.hits() != hits
	c.end = sim.Seq()
	if r.k.Log != nil {
		r.logf("%s returned %v", c, err)
	}
	switch {
	case c.k == "wt.close":
		s.cur = map[string]*wtCall{}
		if err != nil { // once more, with the fault gone
			for _, f := range r.k.Faults {
				f.N = 0
			}
			r.wtDo(s, Op{K: "wt.close"}, thread, phase)
		}
	case err != nil:
	case c.k == "wt.unwatch":
		delete(s.cur, op.P)
	default:
		s.cur[op.P] = c
	}
}

// wtClosed: what Close promises (C15).
func (h *History) wtClosed() (vs []Violation, nob int) {
	s := h.wt
	vs = append(vs, s.left...)
	for i, c := range s.calls {
		if c.end == 0 {
			continue // stuck; reported as such
		}
		if c.err != nil && !c.hit {
			gone := c.ino == nil || c.k == "wt.rewatch"
			if c.k == "wt.close" || c.k == "wt.unwatch" && c.old.ino != nil && len(c.old.ino.Paths) == 1 || !gone && c.k == "wt.watch" && h.K.Lookup(c.path) == c.ino && len(c.ino.Paths) == 1 {
				vs = append(vs, Violation{Cat: "closed", Sig: "failed-without-cause", Seq: c.end, Msg: fmt.Sprintf("%s failed with %q although no system call failed", c, c.err)})
			}
		}
		if c.k != "wt.close" || c.err != nil {
			continue
		}
		if c.fds > 0 {
			vs = append(vs, Violation{Cat: "closed", Sig: "descriptors", Seq: c.end, Msg: fmt.Sprintf("Close() returned @%d with %d descriptors still open", c.end, c.fds)})
		}
		if c.watches > 0 {
			vs = append(vs, Violation{Cat: "closed", Sig: "watches", Seq: c.end, Msg: fmt.Sprintf("Close() returned @%d with %d OS watches still set", c.end, c.watches)})
		}
		next := int64(1) << 62
		if i+1 < len(s.calls) {
			next = s.calls[i+1].start
		}
		for _, d := range h.Dels {
			if d.Seq > c.end && d.Seq < next {
				vs = append(vs, Violation{Cat: "closed", Sig: "reported", Seq: d.Seq, Msg: fmt.Sprintf("the watcher was closed @%d, yet: %s", c.end, d)})
				break
			}
		}
	}
	// Every event comes from the present instance and from a path watched for it.
	for _, d := range h.Dels {
		open := int64(0) // end of the last successful Close before d
		for _, c := range s.calls {
			if c.k == "wt.close" && c.err == nil && c.end != 0 && c.end < d.Seq {
				open = c.end
			}
		}
		okQ, okW := false, false
		for _, q := range h.K.Queue {
			if q.Wd == d.Wd && q.Mask == d.Mask && q.Cookie == d.Cookie && q.ReadAt != 0 && q.ReadAt < d.Seq && q.Seq > open && (q.Name == "" && q.Ino != nil && q.Ino.HadPath(d.Path) || q.Name != "" && q.Ino != nil && joinp(dirOf(d.Path), q.Name) == d.Path && q.Ino.HadPath(dirOf(d.Path))) {
				okQ = true
			}
		}
		for _, c := range s.calls {
			if (c.k == "wt.watch" || c.k == "wt.rewatch") && c.start > open && c.start < d.Seq && (c.err == nil || c.end == 0) && c.ev&d.Ev == d.Ev && (c.path == d.Path || c.path == dirOf(d.Path)) {
				okW = true
			}
		}
		if !okQ {
			vs = append(vs, Violation{Cat: "reused", Sig: "stale-event", Seq: d.Seq, Msg: "not a notification of the watcher since it was last closed: " + d.String()})
			break
		}
		if !okW {
			vs = append(vs, Violation{Cat: "reused", Sig: "not-asked-for", Seq: d.Seq, Msg: "nothing was watched for it since the watcher was last closed: " + d.String()})
			break
		}
	}
	// What is watched is reported, before and after Close alike.
	for _, n := range h.K.Notes {
		if n.Lost {
			continue
		}
		nq := h.nextQ(n.Seq)
		if nq == 1<<62 {
			continue
		}
		sp := spanAt(n.Ino, n.Seq)
		if sp == nil || sp.To != 0 && sp.To <= nq {
			continue
		}
		// the call that decides on this path; nothing may interfere until quiescence
		var w *wtCall
		for _, c := range s.calls {
			if c.path != sp.Path && c.k != "wt.close" {
				continue
			}
			if c.start < n.Seq || c.start < nq {
				w = c
			}
		}
		if w == nil || w.k != "wt.watch" && w.k != "wt.rewatch" || w.end == 0 || w.end > n.Seq || w.err != nil || w.ino != n.Ino || sp.From > w.start {
			continue
		}
		for _, kd := range w.kinds {
			if kindMask[kd]&n.Mask == 0 {
				continue
			}
			nob++
			p := sp.Path
			if n.Name != "" {
				p = joinp(p, n.Name)
			}
			if len(n.Q) == 0 {
				vs = append(vs, Violation{Cat: "reused", Sig: "not-watched", Seq: n.Seq, Msg: fmt.Sprintf("@%d change %s on %q: no OS watch reports it although %s returned nil @%d", n.Seq, maskName(n.Mask), p, w, w.end)})
				break
			}
			ok := false
			for _, d := range h.Dels {
				if d.Ev&evByName[kd] == evByName[kd] && d.Path == p && d.Mask == n.Mask && d.Cookie == n.Q[0].Cookie && d.Seq > n.Seq {
					ok = true
					break
				}
			}
			if !ok {
				vs = append(vs, Violation{Cat: "reused", Sig: "lost", Seq: n.Seq, Msg: fmt.Sprintf("@%d change %s on %q, queued by the OS, was not reported as %s although %s is in force", n.Seq, maskName(n.Mask), p, kd, w)})
				break
			}
		}
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Seq < vs[j].Seq })
	return
}

var wtFaults = []Op{
	{S: "inotify_init", Err: "EMFILE", Who: "api"}, {S: "epoll_create", Err: "EMFILE", Who: "api"}, {S: "pipe", Err: "EMFILE", Who: "api"}, {S: "epoll_ctl", Err: "ENOMEM", Who: "api"}, {S: "epoll_ctl", Err: "ENOMEM", Who: "api", Skp: 1},
	{S: "inotify_add_watch", Err: "ENOSPC", Who: "api"}, {S: "inotify_rm_watch", Err: "ENOMEM", Who: "api"}, {S: "write", Err: "EAGAIN", Who: "api"},
	{S: "epoll_wait", Err: "EINTR"}, {S: "read_inotify", Err: "EINTR"}, {S: "read_inotify", Err: "EIO"}, {S: "close", Err: "EINTR", Who: "bg"},
}

func generateWT(pr *Profile, seed uint64) *Program {
	g := &gen{pr: pr, links: map[string]string{}, dn: nameSets[0][0], fn: nameSets[0][1], maxd: 4}
	g.r.Seed(seed ^ 0x7654321)
	p := &Program{Kind: "watcher", Cwd: "/w", Policy: drawPolicy(&g.r)}
	p.Kern = kern.Config{OldOrder: g.r.Bool(0.15), Atomic: g.r.Bool(0.3)}
	p.Race = g.r.Bool(pr.Race)
	g.root = "/w"
	g.dirs = []string{"/w"}
	p.Setup = []Op{{K: "mkdirall", P: "/w"}}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		p.Setup = append(p.Setup, g.fsOp("mkdir"))
	}
	for i := g.r.Intn(3); i > 0; i-- {
		p.Setup = append(p.Setup, g.fsOp("create"))
	}
	p.Chans = []ChanSpec{{Cap: pr.Cap[g.r.Intn(len(pr.Cap))], Mode: pr.Modes[g.r.Intn(len(pr.Modes))]}}
	api := func() Op {
		d := g.pick(g.inRoot())
		if len(g.files) > 0 && g.r.Bool(0.25) {
			d = g.pick(g.files)
		}
		switch g.r.Pick(6, 2, 2, 3, 3) {
		case 0:
			return Op{K: "wt.watch", P: d, E: g.kinds()}
		case 1:
			return Op{K: "wt.rewatch", P: d, E: g.kinds()}
		case 2:
			return Op{K: "wt.unwatch", P: d}
		case 3:
			return Op{K: "wt.close"}
		}
		return Op{K: "yield", N: int64(1 + g.r.Intn(30))}
	}
	for i := g.between(pr.Phases); i > 0; i-- {
		var ph Phase
		var ops []Op
		ops = append(ops, Op{K: "wt.watch", P: g.pick(g.inRoot()), E: g.kinds()})
		for n := g.between([2]int{0, 5}); n > 0; n-- {
			ops = append(ops, api())
		}
		if g.r.Bool(0.5) {
			ops = append(ops, Op{K: "yield", N: int64(1 + g.r.Intn(40))}, Op{K: "wt.close"})
		}
		ph.T = append(ph.T, ops)
		for t := g.between(pr.Threads); t > 0; t-- {
			var ops []Op
			for n := g.between(pr.Ops); n > 0; n-- {
				ops = append(ops, g.ops()...)
			}
			ph.T = append(ph.T, ops)
		}
		if g.r.Bool(0.07) {
			at := g.r.Intn(len(ph.T[0]) + 1)
			ph.T[0] = append(ph.T[0][:at:at], append([]Op{g.stall()}, ph.T[0][at:]...)...)
		}
		if g.r.Bool(pr.FaultP) {
			f := wtFaults[g.r.Intn(len(wtFaults))]
			f.Skp += g.r.Intn(1 + g.r.Intn(3))
			f.K = "fault"
			f.N = 1
			at := g.r.Intn(len(ph.T[0]) + 1)
			ph.T[0] = append(ph.T[0][:at:at], append([]Op{f}, ph.T[0][at:]...)...)
			p.Phases = append(p.Phases, ph, Phase{T: [][]Op{{{K: "heal"}}}})
		} else {
			p.Phases = append(p.Phases, ph)
		}
		if g.r.Bool(pr.ProbeMid) {
			p.Phases = append(p.Phases, Phase{Probe: true})
		}
	}
	p.Phases = append(p.Phases, Phase{Probe: true}, Phase{T: [][]Op{{{K: "wt.close"}}}}, Phase{Probe: true})
	return p
}
