// Package sim is a deterministic cooperative simulator for Go code whose
// concurrency primitives have been redirected to it. Exactly one task runs at a
// time; one seed decides every interleaving. A run is a pure function of the seed,
// the decision policy and the code.
package sim

import (
	"fmt"
	"iter"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Decision is a recorded deviation from the default choice 0.
type Decision struct {
	I int64 `json:"i"`
	V int32 `json:"v"`
}

// Policy parameterises the seeded scheduler (swarm style: drawn per run).
type Policy struct {
	PreY     float64 `json:"pre_y"`    // preemption probability at a plain statement
	PreSync  float64 `json:"pre_sync"` // preemption probability at a synchronisation operation
	Mode     string  `json:"mode"`     // fifo | random | pct | lifo
	Depth    int     `json:"depth"`    // pct: number of priority change points
	StallP   float64 `json:"stall_p"`  // probability that a new task is stalled for a while
	StallLen int     `json:"stall_len"`
	Shuffle  bool    `json:"shuffle"` // shuffle map iteration and select choice
}

type state int

const (
	runnable state = iota
	blocked
	done
)

// Task is a simulated goroutine.
type Task struct {
	ID      int
	Name    string
	Daemon  bool // not required to finish (goroutines of the code under test)
	st      state
	why     string
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	vc      VC
	prio    int64
	stall   int64
	tag     any
	started bool
	Root    bool
}

// PanicInfo describes a crash of the code under test.
type PanicInfo struct {
	Task  string
	Value string
	Stack string
}

// Race is a conflicting unsynchronised pair of accesses.
type Race struct {
	A, B string
	What string
}

type killT struct{}

var kill = killT{}

type timer struct {
	at  int64
	seq uint64
	f   func()
	// Background timers (tickers) do not keep Quiesce waiting.
	Background bool
}

// Sim is one simulated run.
type Sim struct {
	rng      Rand
	policy   Policy
	replay   bool
	dec      []Decision // recorded (record mode) or given (replay mode)
	decPos   int
	didx     int64
	nextPre  int64
	runq     []*Task
	cur      *Task
	tasks    []*Task
	live     int
	Now      int64 // simulated nanoseconds
	Steps    int64 // scheduling slices
	seq      int64
	timers   []*timer
	tseq     uint64
	dead     bool
	Panic    *PanicInfo
	Races    []Race
	RaceOn   bool
	MaxIdx   int64
	freezes  []*freeze
	noSync   bool // inside NoPreempt
	Budget   bool // step budget exhausted
	chans    map[unsafe.Pointer]*Chan
	chanSeq  int
	mem      map[unsafe.Pointer]*cell
	syncvc   map[unsafe.Pointer]*VC
	locks    map[unsafe.Pointer]any
	Spawned  int64
	Preempts int64
	Switches int64
	hash     uint64 // rolling hash of the schedule: the interleaving measure
	pctPts   map[int64]bool
	lowPrio  int64
	quiesce  []*Task
	joiners  []*Task
	switchTo *Task
	Trace    func(string)
	Locals   map[string]any
	panicOK  bool
	tickQ    int
}

// S is the current run; nil outside runs.
var S *Sim

// New prepares a run.
func New(seed uint64, p Policy, replay []Decision, isReplay bool) *Sim {
	s := &Sim{policy: p, replay: isReplay, chans: map[unsafe.Pointer]*Chan{},
		mem: map[unsafe.Pointer]*cell{}, syncvc: map[unsafe.Pointer]*VC{}, locks: map[unsafe.Pointer]any{},
		MaxIdx: 4_000_000, hash: 14695981039346656037, Locals: map[string]any{}}
	s.rng.Seed(seed)
	if isReplay {
		s.dec = replay
	}
	if p.Mode == "pct" {
		s.pctPts = map[int64]bool{}
		for i := 0; i < p.Depth; i++ {
			s.pctPts[int64(s.rng.Intn(3000))] = true
		}
	}
	s.schedNextPre()
	return s
}

func (s *Sim) schedNextPre() {
	if s.replay {
		for s.decPos < len(s.dec) && s.dec[s.decPos].I < s.didx+1 {
			s.decPos++
		}
		if s.decPos < len(s.dec) {
			s.nextPre = s.dec[s.decPos].I
		} else {
			s.nextPre = 1 << 62
		}
		return
	}
	if s.policy.PreY <= 0 {
		s.nextPre = 1 << 62
		return
	}
	s.nextPre = s.didx + 1 + s.rng.Geom(s.policy.PreY)
}

// take consumes one decision index and returns a value in [0,n).
// f proposes the value in record mode.
func (s *Sim) take(n int, f func() int) int {
	s.didx++
	s.checkBudget()
	if s.replay {
		for s.decPos < len(s.dec) && s.dec[s.decPos].I < s.didx {
			s.decPos++
		}
		v := 0
		if s.decPos < len(s.dec) && s.dec[s.decPos].I == s.didx {
			v = int(s.dec[s.decPos].V) % n
			s.decPos++
		}
		s.schedNextPre()
		return v
	}
	v := f()
	if v != 0 {
		s.dec = append(s.dec, Decision{s.didx, int32(v)})
	}
	if s.didx >= s.nextPre {
		s.schedNextPre()
	}
	return v
}

func (s *Sim) checkBudget() {
	if s.didx > s.MaxIdx && !s.dead {
		s.Budget = true
		if s.cur != nil {
			s.cur.why = "step budget exhausted"
			s.park()
		}
	}
}

// Choose draws a value in [0,n) as a recorded decision (default 0).
func Choose(n int) int {
	s := S
	if s == nil || s.dead || n <= 1 {
		return 0
	}
	if !s.policy.Shuffle && !s.replay {
		s.didx++
		return 0
	}
	return s.take(n, func() int { return s.rng.Intn(n) })
}

// Decisions returns the sparse decision trace of the run.
func (s *Sim) Decisions() []Decision { return s.dec }

// Hash identifies the interleaving executed (sequence of task switches with reasons).
func (s *Sim) Hash() uint64 { return s.hash }

func (s *Sim) mix(v uint64) {
	s.hash ^= v
	s.hash *= 1099511628211
}

// Seq returns the next global event sequence number.
func Seq() int64 {
	if S == nil {
		return 0
	}
	S.seq++
	return S.seq
}

// CurSeq returns the last sequence number handed out.
func CurSeq() int64 {
	if S == nil {
		return 0
	}
	return S.seq
}

// Y is a statement-level scheduling point.
func Y() {
	s := S
	if s == nil {
		return
	}
	s.didx++
	if s.didx < s.nextPre && s.didx <= s.MaxIdx {
		return
	}
	s.ySlow()
}

// NoPreempt runs f without statement-level preemption (harness bookkeeping).
func NoPreempt(f func()) {
	s := S
	if s == nil {
		f()
		return
	}
	old := s.nextPre
	s.nextPre = 1 << 62
	sync := s.noSync
	s.noSync = true
	f()
	s.noSync = sync
	s.nextPre = old
}

func (s *Sim) ySlow() {
	if s.dead || s.cur == nil {
		return
	}
	s.checkBudget()
	if s.didx < s.nextPre {
		return
	}
	if s.replay {
		v := 0
		for s.decPos < len(s.dec) && s.dec[s.decPos].I < s.didx {
			s.decPos++
		}
		if s.decPos < len(s.dec) && s.dec[s.decPos].I == s.didx {
			v = int(s.dec[s.decPos].V)
			s.decPos++
		}
		s.schedNextPre()
		if v != 0 && len(s.runq) > 0 {
			s.preemptTo((v - 1) % len(s.runq))
		}
		return
	}
	n := len(s.runq)
	if n > 0 {
		k := s.pick(true)
		if k >= 0 {
			s.dec = append(s.dec, Decision{s.didx, int32(k + 1)})
			s.schedNextPre()
			s.preemptTo(k)
			return
		}
	}
	s.schedNextPre()
}

type freeze struct {
	skip int
	d    int64
	done func()
}

// Freeze suspends, after skip more scheduling points of goroutines of the code under
// test, the goroutine then at one for d simulated nanoseconds.
func Freeze(skip int, d int64, done func()) { S.freezes = append(S.freezes, &freeze{skip, d, done}) }

func (s *Sim) freeze() {
	for i, f := range s.freezes {
		if f.skip--; f.skip < 0 {
			s.freezes = append(s.freezes[:i:i], s.freezes[i+1:]...)
			f.done()
			Sleep(f.d)
			return
		}
	}
}

// SyncPoint is a scheduling point at a synchronisation operation or system call.
func SyncPoint() {
	s := S
	if s == nil || s.dead || s.cur == nil || s.noSync {
		return
	}
	if len(s.freezes) > 0 && s.cur.Daemon {
		s.freeze()
	}
	v := s.take(len(s.runq)+1, func() int {
		if len(s.runq) == 0 {
			return 0
		}
		p := s.policy.PreSync
		if s.policy.Mode == "pct" {
			// a priority-based scheduler preempts whenever a higher priority task is runnable
			if s.pctPts[s.didx] {
				s.lowPrio--
				s.cur.prio = s.lowPrio
			}
			if k := s.pick(true); k >= 0 {
				return k + 1
			}
			return 0
		}
		if p <= 0 || s.rng.Float() >= p {
			return 0
		}
		return s.pick(true) + 1
	})
	if v > 0 {
		s.preemptTo(v - 1)
	}
}

// pick chooses an index into runq according to the policy; with pre set it may
// return -1 to keep the current task.
func (s *Sim) pick(pre bool) int {
	n := len(s.runq)
	if n == 0 {
		return -1
	}
	// candidates: tasks that are not stalled
	var cbuf [64]int
	cand := cbuf[:0]
	for i, t := range s.runq {
		if t.stall > 0 {
			if t.stall > s.Steps {
				continue
			}
			t.stall = 0
		}
		cand = append(cand, i)
	}
	if len(cand) == 0 {
		if pre {
			return -1
		}
		for i := range s.runq {
			cand = append(cand, i)
		}
	}
	switch s.policy.Mode {
	case "fifo":
		return cand[0]
	case "lifo":
		return cand[len(cand)-1]
	case "pct":
		best := -1
		for _, i := range cand {
			if best < 0 || s.runq[i].prio > s.runq[best].prio {
				best = i
			}
		}
		if pre && s.cur != nil && s.cur.prio >= s.runq[best].prio {
			return -1
		}
		return best
	}
	return cand[s.rng.Intn(len(cand))]
}

func (s *Sim) preemptTo(k int) {
	t := s.cur
	if k < 0 || k >= len(s.runq) {
		return
	}
	s.Preempts++
	nt := s.runq[k]
	copy(s.runq[k:], s.runq[k+1:])
	s.runq[len(s.runq)-1] = t // current goes to the back
	t.st = runnable
	s.switchTo = nt
	s.mix(uint64(nt.ID)<<8 | 1)
	s.doYield(t)
}

func (s *Sim) doYield(t *Task) {
	if !t.yield(struct{}{}) {
		panic(kill)
	}
}

// park blocks the current task until made runnable again.
func (s *Sim) park() {
	t := s.cur
	t.st = blocked
	s.doYield(t)
}

// Block parks the current task with a reason; Ready wakes it.
func Block(why string) {
	s := S
	if s.dead {
		panic(kill)
	}
	s.cur.why = why
	s.park()
}

// Ready makes a blocked task runnable.
func Ready(t *Task) {
	s := S
	if s == nil || s.dead || t.st != blocked {
		return
	}
	t.st = runnable
	t.why = ""
	s.runq = append(s.runq, t)
}

// Cur returns the running task.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// Dead reports that the run is being torn down (or no run is active).
func Dead() bool { return S == nil || S.dead }

func (s *Sim) newTask(name string, daemon bool, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Daemon: daemon}
	if s.policy.Mode == "pct" && !s.replay {
		t.prio = int64(s.rng.Intn(1 << 30))
	}
	if daemon && s.policy.StallP > 0 && !s.replay && s.rng.Float() < s.policy.StallP {
		t.stall = s.Steps + 1 + int64(s.rng.Intn(s.policy.StallLen+1))
	}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killT); ok {
					return
				}
				if s.dead && !s.panicOK {
					return
				}
				s.Panic = &PanicInfo{Task: t.Name, Value: fmt.Sprint(r), Stack: trimStack(debug.Stack())}
			}
		}()
		f()
	})
	s.tasks = append(s.tasks, t)
	s.live++
	s.Spawned++
	if s.cur != nil && s.RaceOn {
		t.vc = s.cur.vc.Copy()
		s.cur.vc.Inc(s.cur.ID)
	}
	t.vc.Inc(t.ID)
	t.st = runnable
	s.runq = append(s.runq, t)
	return t
}

// Go starts a goroutine of the code under test.
func Go(name string, f func()) {
	s := S
	if s == nil || s.dead {
		return
	}
	s.newTask(name, true, f)
	SyncPoint()
}

// GoQuiet starts a goroutine from scheduler context.
func GoQuiet(name string, f func()) {
	if s := S; s != nil && !s.dead {
		s.newTask(name, true, f)
	}
}

// Spawn starts a harness task.
func Spawn(name string, f func()) *Task {
	return S.newTask(name, false, f)
}

// Join waits for the given tasks.
func Join(ts ...*Task) {
	for {
		all := true
		for _, t := range ts {
			if t.st != done {
				all = false
			}
		}
		if all {
			return
		}
		S.joiners = append(S.joiners, S.cur)
		Block("join")
	}
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.st == done }

// Why gives the reason a task is blocked.
func (t *Task) Why() string { return t.why }

// Quiesce blocks the calling task until no other task can run and no timer is
// pending within the horizon.
func Quiesce() {
	s := S
	s.quiesce = append(s.quiesce, s.cur)
	Block("quiesce")
}

// QuiesceHorizon bounds how far the clock is advanced to let timers fire.
const QuiesceHorizon = int64(3600) * 1e9

// Sleep suspends the current task for d simulated nanoseconds.
func Sleep(d int64) {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		panic(kill)
	}
	if d <= 0 {
		SyncPoint()
		return
	}
	t := s.cur
	s.After(d, func() { Ready(t) })
	Block("sleep")
}

// Timer is a handle of After.
type Timer = timer

// After schedules f in scheduler context.
func (s *Sim) After(d int64, f func()) *Timer {
	s.tseq++
	tm := &timer{at: s.Now + d, seq: s.tseq, f: f}
	s.timers = append(s.timers, tm)
	sort.SliceStable(s.timers, func(i, j int) bool {
		if s.timers[i].at != s.timers[j].at {
			return s.timers[i].at < s.timers[j].at
		}
		return s.timers[i].seq < s.timers[j].seq
	})
	return tm
}

// Cancel reports whether the timer was still pending.
func (t *timer) Cancel() bool {
	for i, x := range S.timers {
		if x == t {
			S.timers = append(S.timers[:i:i], S.timers[i+1:]...)
			return true
		}
	}
	return false
}

// Run executes main and everything it spawns until main ends, the run crashes,
// the budget is exhausted, or nothing can run.
func (s *Sim) Run(main func()) (stuck []*Task) {
	S = s
	defer func() { S = nil }()
	m := s.newTask("main", false, main)
	m.Root = true
	for s.Panic == nil && !s.Budget && m.st != done {
		for len(s.timers) > 0 && s.timers[0].at <= s.Now {
			tm := s.timers[0]
			s.timers = s.timers[1:]
			tm.f()
		}
		if len(s.runq) == 0 && s.switchTo == nil {
			if len(s.quiesce) > 0 {
				if tm := s.nextTimer(); tm != nil && tm.at <= s.Now+QuiesceHorizon {
					s.Now = tm.at
					continue
				}
				q := s.quiesce
				s.quiesce = nil
				for _, t := range q {
					Ready(t)
				}
				continue
			}
			if len(s.timers) > 0 {
				s.Now = s.timers[0].at
				continue
			}
			break // stuck
		}
		t := s.switchTo
		s.switchTo = nil
		if t == nil {
			k := 0
			if n := len(s.runq); n > 1 {
				s.cur = nil
				k = s.take(n, func() int { return s.pick(false) })
			}
			t = s.runq[k]
			copy(s.runq[k:], s.runq[k+1:])
			s.runq = s.runq[:len(s.runq)-1]
			s.mix(uint64(t.ID) << 8)
		}
		s.Switches++
		s.Steps++
		s.Now += 1000
		s.cur = t
		_, more := t.next()
		s.cur = nil
		if !more {
			t.st = done
			s.live--
			if s.RaceOn {
				s.endvc(t)
			}
			js := s.joiners
			s.joiners = nil
			for _, j := range js {
				if s.RaceOn {
					j.vc.Join(t.vc)
				}
				Ready(j)
			}
		}
	}
	for _, t := range s.tasks {
		if t.st != done && !t.Daemon {
			stuck = append(stuck, t)
		}
	}
	return stuck
}

// nextTimer is the next timer worth waiting for at quiescence: one that is not a
// ticker; tickers alone are given a few periods.
func (s *Sim) nextTimer() *timer {
	for _, t := range s.timers {
		if !t.Background {
			return s.timers[0]
		}
	}
	if len(s.timers) > 0 && s.tickQ < 3*len(s.timers) {
		s.tickQ++
		return s.timers[0]
	}
	s.tickQ = 0
	return nil
}

// Blocked lists the unfinished tasks, for diagnostics.
func (s *Sim) Blocked() []string {
	var r []string
	for _, t := range s.tasks {
		if t.st != done {
			w := t.why
			if t.st == runnable {
				w = "runnable"
			}
			r = append(r, fmt.Sprintf("%s#%d: %s", t.Name, t.ID, w))
		}
	}
	return r
}

// Daemons lists unfinished goroutines of the code under test.
func (s *Sim) Daemons() []*Task {
	var r []*Task
	for _, t := range s.tasks {
		if t.st != done && t.Daemon {
			r = append(r, t)
		}
	}
	return r
}

// TaskCount is the number of tasks ever created.
func (s *Sim) TaskCount() int { return len(s.tasks) }

// Close tears the run down.
func (s *Sim) Close() {
	S = s
	s.dead = true
	for _, t := range s.tasks {
		if t.st != done {
			func() {
				defer func() { recover() }()
				t.stop()
			}()
		}
	}
	S = nil
}

func (s *Sim) endvc(*Task) {}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	seenPanic := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.goPanic") {
			seenPanic = true
			i++
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if strings.HasPrefix(l, "iter.") || strings.HasPrefix(l, "dst/sim.") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		loc := strings.TrimSpace(lines[i+1])
		if k := strings.LastIndex(loc, " +0x"); k > 0 {
			loc = loc[:k]
		}
		if k := strings.LastIndex(loc, "/"); k > 0 {
			loc = loc[k+1:]
		}
		fn := l
		if k := strings.LastIndex(fn, "("); k > 0 {
			fn = fn[:k]
		}
		out = append(out, fn+" "+loc)
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, " < ")
}
