package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"dst/kern"
	"dst/sim"
	notify "dst/sut"

	"golang.org/x/sys/unix"
)

// RunOpts selects how a program is run.
type RunOpts struct {
	Seed   uint64
	Replay bool
	Dec    []sim.Decision
	Log    bool
}

type runner struct {
	h     *History
	p     *Program
	k     *kern.Kernel
	s     *sim.Sim
	chans []chan notify.EventInfo
	opID  int
	regs  map[string]bool
}

// Run executes a program in a fresh simulation.
func Run(p *Program, o RunOpts) *History {
	s := sim.New(o.Seed, p.Policy, o.Dec, o.Replay)
	s.RaceOn = p.Race
	h := &History{P: p, S: s, opSeqs: map[int]opRec{}, SeenFull: map[int][]int64{}}
	k := kern.New(p.Kern)
	kern.K = k
	h.K = k
	r := &runner{h: h, p: p, k: k, s: s}
	if o.Log {
		k.Log = func(f string, a ...any) { r.logf("  kernel: "+f, a...) }
	}
	k.Cwd = p.Cwd
	if k.Cwd == "" {
		k.Cwd = "/"
	}
	stuck := s.Run(func() { r.main(o) })
	sort.SliceStable(h.Dels, func(i, j int) bool { return h.Dels[i].Seq < h.Dels[j].Seq })
	for _, t := range stuck {
		if strings.HasPrefix(t.Name, "drain") {
			continue
		}
		h.Stuck = append(h.Stuck, t.Name+": "+t.Why())
	}
	if s.Budget {
		h.Stuck = append(h.Stuck, "step budget exhausted (livelock)")
	}
	return h
}

func (r *runner) logf(f string, a ...any) {
	who := ""
	if t := sim.Cur(); t != nil {
		who = t.Name
	}
	r.h.Log = append(r.h.Log, fmt.Sprintf("@%d [%s] %s", sim.CurSeq(), who, fmt.Sprintf(f, a...)))
}

func (r *runner) main(o RunOpts) {
	k := r.k
	atomic := k.Cfg.Atomic
	k.Cfg.Atomic = true
	for _, op := range r.p.Setup {
		r.fsop(op)
	}
	k.Cfg.Atomic = atomic
	switch r.p.Kind {
	case "rtree":
		r.rtMain()
		return
	case "watcher":
		r.wtMain()
		return
	}
	notify.SimReset()
	for i, c := range r.p.Chans {
		r.addChan(i, c)
	}
	sim.Quiesce()
	r.snap()
	for pi, ph := range r.p.Phases {
		r.h.phaseQ = append(r.h.phaseQ, len(r.h.Snaps)-1)
		if ph.Probe {
			r.probe()
			r.snap()
			continue
		}
		var ts []*sim.Task
		for ti, ops := range ph.T {
			ops, ti := ops, ti
			ts = append(ts, sim.Spawn(fmt.Sprintf("caller%d.%d", pi+1, ti), func() {
				for _, op := range ops {
					r.do(op, ti, pi)
				}
			}))
		}
		sim.Quiesce()
		bad := false
		for _, t := range ts {
			if !t.Done() {
				bad = true
			}
		}
		r.snap()
		if bad {
			sim.Block("phase did not complete")
		}
	}
}

func (r *runner) addChan(i int, c ChanSpec) {
	ch := make(chan notify.EventInfo, c.Cap)
	r.chans = append(r.chans, ch)
	sim.Reg(ch)
	st := sim.Of(ch)
	st.OnSend = func(v any) { sim.NoPreempt(func() { r.delivery(i, v, false, false) }) }
	st.OnDrop = func(v any) { sim.NoPreempt(func() { r.delivery(i, v, true, st.Full()) }) }
	st.OnFull = func() { sim.NoPreempt(func() { r.h.SeenFull[i] = append(r.h.SeenFull[i], sim.Seq()) }) }
	st.OnClose = func() { r.h.Closed = append(r.h.Closed, i) }
	switch c.Mode {
	case "eager":
		sim.GoQuiet(fmt.Sprintf("drain%d", i), func() {
			for {
				ei, ok := sim.Recv2(ch)
				if !ok {
					return
				}
				use(ei)
			}
		})
	case "slow":
		sim.GoQuiet(fmt.Sprintf("drain%d", i), func() {
			for n := 0; ; n++ {
				ei, ok := sim.Recv2(ch)
				if !ok {
					return
				}
				use(ei)
				sim.Sleep(50_000)
				if n < 64 && n%7 == 3 {
					sim.Sleep(2e9)
				}
			}
		})
	}
}

// use reads an event as its receiver would.
func use(ei notify.EventInfo) {
	if ei != nil {
		ei.Event()
		_ = ei.Path()
		ei.Sys()
	}
}

func (r *runner) delivery(c int, v any, drop, full bool) {
	d := &Delivery{C: c, Seq: sim.Seq(), Drop: drop, Full: full}
	ei, ok := v.(notify.EventInfo)
	if !ok || ei == nil {
		r.h.Extra = append(r.h.Extra, Violation{Cat: "data", Sig: "nil-event", Msg: fmt.Sprintf("ch%d was given a nil event", c), Seq: d.Seq})
		return
	}
	d.ei = ei
	d.Ev, d.Path = ei.Event(), ei.Path()
	if s, ok := ei.Sys().(*unix.InotifyEvent); ok && s != nil {
		d.Wd, d.Mask, d.Cookie = s.Wd, s.Mask, s.Cookie
	} else if n, ok := ei.Sys().(*rtNote); ok && n != nil {
		d.Wd = int32(n.id)
	} else {
		d.SysNil = true
	}
	if t := sim.Cur(); t != nil {
		d.task = t.Name
	}
	r.h.Dels = append(r.h.Dels, d)
	if r.k.Log != nil {
		r.logf("%s", d)
	}
}

func (r *runner) snap() {
	sn := Snap{Seq: sim.Seq(), FDs: r.k.OpenFDs(), Kinds: r.k.FDKinds(), Pending: r.k.Pending()}
	for _, w := range r.k.Watches() {
		sn.Watches = append(sn.Watches, WatchSnap{w.Wd, w.Path, w.Ino.Path(), w.Mask, w.Ino.Dir, left(w.Ino, w.Path)})
	}
	sn.Blocked = r.s.Blocked()
	sn.Goroutines = len(r.s.Daemons())
	r.h.Snaps = append(r.h.Snaps, sn)
	if r.k.Log != nil {
		r.logf("--- quiescent; OS watches: %s", watchList(sn.Watches))
	}
}

func left(n *kern.Inode, p string) bool {
	for _, s := range n.Paths {
		if s.Path == p && s.To != 0 {
			return true
		}
	}
	return false
}

func watchList(ws []WatchSnap) string {
	var p []string
	for _, w := range ws {
		p = append(p, fmt.Sprintf("%d:%s(%s)", w.Wd, w.Path, maskName(w.Mask)))
	}
	if p == nil {
		return "none"
	}
	return strings.Join(p, " ")
}

func (r *runner) events(names []string) []notify.Event {
	var es []notify.Event
	for _, n := range names {
		es = append(es, evByName[n])
	}
	return es
}

// canon resolves a Watch argument the way its documentation describes.
func (r *runner) canon(raw string) (p string, rec bool, n *kern.Inode) {
	if strings.HasSuffix(raw, "...") {
		rec = true
		raw = raw[:len(raw)-3]
	}
	if !path.IsAbs(raw) {
		raw = r.k.Cwd + "/" + raw
	}
	raw = path.Clean(raw)
	n = r.k.Lookup(raw)
	if n == nil {
		return raw, rec, nil
	}
	return n.Path(), rec, n
}

func (r *runner) do(op Op, thread, phase int) {
	r.h.Ops++
	if r.k.Log != nil {
		r.logf("%s", op)
	}
	switch op.K {
	case "watch":
		r.watch(op, thread, phase)
	case "stop":
		st := &StopCall{C: op.C, Start: sim.Seq(), Thread: thread, Phase: phase}
		r.h.Stops = append(r.h.Stops, st)
		hits := r.obstacles()
		notify.Stop(r.chans[op.C])
		if r.obstacles() != hits {
			r.h.RollbackFault = true // Stop has no way to report that the OS refused
		}
		st.End = sim.Seq()
		if r.k.Log != nil {
			r.logf("Stop(ch%d) returned", op.C)
		}
	case "sleep":
		sim.Sleep(op.N)
	case "yield":
		for i := int64(0); i < op.N; i++ {
			sim.SyncPoint()
		}
	case "fault":
		r.k.Faults = append(r.k.Faults, &kern.Fault{Sys: op.S, Skip: op.Skp, N: int(op.N), Err: errnoByName[op.Err], Who: op.Who, Path: op.P, Stall: op.D})
	case "freeze":
		sim.Freeze(op.Skp, op.D, func() {
			r.k.Fired["goroutine:frozen"]++
			r.logf("a goroutine is frozen for %dms (injected)", op.D/1e6)
		})
	case "heal":
		for _, f := range r.k.Faults {
			f.N = 0
		}
	default:
		r.fsop(op)
	}
}

func (r *runner) watch(op Op, thread, phase int) {
	p, rec, n := r.canon(op.P)
	g := &Reg{C: op.C, Raw: op.P, Path: p, Rec: rec, Op: op, Ino: n, Start: sim.Seq(), Thread: thread, Phase: phase}
	g.Odd = op.P != p && op.P != joinp(p, "...")
	for _, e := range op.E {
		g.Ev |= evByName[e]
		g.Mask |= kindMask[e]
		if e == "Bad" {
			g.Bad = true
		} else if !contains(g.Kinds, e) {
			g.Kinds = append(g.Kinds, e)
		}
	}
	if len(op.E) > 0 { // else the call is a nop
		r.h.Regs = append(r.h.Regs, g)
	}
	hits := r.hits()
	structure := r.k.Structure()
	perms, barred := r.k.Perms, r.k.Refused
	open := n != nil && readable(n, rec)
	err := notify.Watch(op.P, r.chans[op.C], r.events(op.E)...)
	g.End = sim.Seq()
	g.Err = err
	g.FaultHit = r.hits() != hits
	if r.hits() > hits+1 || g.FaultHit && (g.Bad || rec && (n == nil || !n.Dir) || r.k.Structure() != structure) {
		r.h.RollbackFault = true
	}
	g.Churn = r.k.Structure() != structure
	// What came in during the call may be unreadable, too, or what a link passes through.
	g.Open = open && perms == r.k.Perms && !((g.Churn || spelled(op.P, r.k.Cwd) != p) && r.k.Refused != barred)
	if r.k.Refused > barred+1 || r.k.Refused != barred && (g.FaultHit || perms != r.k.Perms || rec && (n == nil || !n.Dir)) {
		r.h.RollbackFault = true
	}
	p2, _, n2 := r.canon(op.P)
	if p2 != p || n2 != n {
		g.Amb = true
	}
	if n != nil && n.Paths[len(n.Paths)-1].From > g.Start || spelled(op.P, r.k.Cwd) != p && r.k.MovedSeq > g.Start {
		g.Amb = true // moved away and back
	}
	if n == nil && n2 == nil && !g.Churn {
		g.Missing = true
	}
	if r.k.Log != nil {
		r.logf("%s returned %v", op, err)
	}
}

// spelled is the path as written, links not followed.
func spelled(raw, cwd string) string {
	raw = strings.TrimSuffix(raw, "...")
	if !path.IsAbs(raw) {
		raw = cwd + "/" + raw
	}
	return path.Clean(raw)
}

func (r *runner) hits() int {
	n := 0
	for _, f := range r.k.Faults {
		n += f.Hit
	}
	return n + r.k.Fired["watch_limit"]
}

// obstacles counts whatever made a call of the package fail.
func (r *runner) obstacles() int { return r.hits() + r.k.Refused }

func contains(l []string, x string) bool {
	for _, s := range l {
		if s == x {
			return true
		}
	}
	return false
}

func (r *runner) fsop(op Op) {
	k := r.k
	switch op.K {
	case "mkdirs", "spray":
		if op.Skp == 1 {
			sim.NoPreempt(func() { r.flood(op) })
		} else {
			r.flood(op)
		}
		return
	}
	r.opID++
	id := r.opID
	k.BeginOp(id)
	rec := opRec{op: op, start: sim.Seq()}
	var e syscall.Errno
	switch op.K {
	case "mkdir":
		e = k.Mkdir(op.P)
	case "mkdirall":
		k.MkdirAll(op.P)
	case "create": // create, write if N, close
		var h *kern.Handle
		h, e = k.Open(op.P, true, true, false)
		if e == 0 {
			for i := int64(0); i < op.N; i++ {
				k.WriteH(h, 1)
			}
			k.CloseH(h)
		}
	case "write":
		var h *kern.Handle
		h, e = k.Open(op.P, true, false, false)
		if e == 0 {
			n := op.N
			if n == 0 {
				n = 1
			}
			for i := int64(0); i < n; i++ {
				k.WriteH(h, 1)
			}
			k.CloseH(h)
		}
	case "read":
		var h *kern.Handle
		h, e = k.Open(op.P, false, false, false)
		if e == 0 {
			k.ReadH(h)
			k.CloseH(h)
		}
	case "rm":
		e = k.Unlink(op.P)
	case "rmdir":
		e = k.Rmdir(op.P)
	case "rmall":
		k.RemoveAll(op.P)
	case "rename":
		e = k.Rename(op.P, op.Q)
	case "chmod":
		e = k.Chmod(op.P, uint32(op.N))
	case "chdir":
		if n := k.Lookup(op.P); n != nil && n.Dir {
			k.Cwd = op.P
		}
	case "symlink":
		e = k.Symlink(op.Q, op.P)
	default:
		panic("unknown op " + op.K)
	}
	rec.end = sim.Seq()
	rec.errno = e
	r.h.opSeqs[id] = rec
	if e != 0 {
		r.h.OpErrs++
	}
}

// flood makes many changes in one directory.
func (r *runner) flood(op Op) {
	for i := int64(0); i < op.N; i++ {
		if op.K == "mkdirs" {
			r.fsop(Op{K: "mkdir", P: joinp(op.P, fmt.Sprintf("m%d", i))})
			continue
		}
		f := joinp(op.P, fmt.Sprintf("s%d", i%2))
		r.fsop(Op{K: "create", P: f, N: i % 3})
		r.fsop(Op{K: "rm", P: f})
	}
}

// probe touches, one thing at a time, every directory and file that exists.
func (r *runner) probe() {
	k := r.k
	var dirs, files []string
	var walk func(n *kern.Inode, p string)
	walk = func(n *kern.Inode, p string) {
		dirs = append(dirs, p)
		for _, c := range n.Entries() {
			x := n.Ents[c]
			cp := joinp(p, c)
			if x.Dir {
				walk(x, cp)
			} else if !x.IsLink {
				files = append(files, cp)
			}
		}
	}
	walk(k.Root, "/")
	mode := func(p string) int64 {
		if n := k.Lookup(p); n != nil {
			return int64(n.Mode)
		}
		return 0o755
	}
	do := func(op Op) {
		r.h.Probes++
		if k.Log != nil {
			r.logf("probe: %s", op)
		}
		r.fsop(op)
	}
	for _, d := range dirs {
		f := joinp(d, "prb")
		do(Op{K: "create", P: f, N: 1})
		do(Op{K: "chmod", P: f, N: 0o600})
		do(Op{K: "read", P: f})
		do(Op{K: "rename", P: f, Q: joinp(d, "prc")})
		do(Op{K: "rm", P: joinp(d, "prc")})
		if d != "/" {
			do(Op{K: "chmod", P: d, N: mode(d)})
		}
		sim.Quiesce()
	}
	for _, f := range files {
		do(Op{K: "write", P: f})
		do(Op{K: "read", P: f})
		do(Op{K: "chmod", P: f, N: mode(f)})
		sim.Quiesce()
	}
}
