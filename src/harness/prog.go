package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"

	"dst/kern"
	"dst/sim"
	notify "dst/sut"
)

// Op is one step of a workload.
type Op struct {
	K   string   `json:"k"`
	P   string   `json:"p,omitempty"`
	Q   string   `json:"q,omitempty"`
	C   int      `json:"c,omitempty"`
	E   []string `json:"e,omitempty"`
	N   int64    `json:"n,omitempty"`
	S   string   `json:"s,omitempty"`
	Err string   `json:"err,omitempty"`
	Who string   `json:"who,omitempty"`
	Skp int      `json:"skip,omitempty"`
	D   int64    `json:"d,omitempty"`
}

// Names need not be UTF-8, which JSON text is: other bytes are written as private runes.
func escape(s string) string {
	var b strings.Builder
	for i, r := range s {
		if r == utf8.RuneError && s[i] != 0xef {
			r = 0xf700 + rune(s[i])
		}
		b.WriteRune(r)
	}
	return b.String()
}

func unescape(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 0xf780 && r <= 0xf7ff {
			b.WriteByte(byte(r - 0xf700))
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

type plainOp Op

// MarshalJSON implements json.Marshaler.
func (o Op) MarshalJSON() ([]byte, error) {
	o.P, o.Q, o.S = escape(o.P), escape(o.Q), escape(o.S)
	return json.Marshal(plainOp(o))
}

// UnmarshalJSON implements json.Unmarshaler.
func (o *Op) UnmarshalJSON(b []byte) error {
	err := json.Unmarshal(b, (*plainOp)(o))
	o.P, o.Q, o.S = unescape(o.P), unescape(o.Q), unescape(o.S)
	return err
}

func (o Op) String() string {
	s := o.K
	switch o.K {
	case "watch":
		return fmt.Sprintf("Watch(%q, ch%d, %s)", o.P, o.C, strings.Join(o.E, "|"))
	case "stop":
		return fmt.Sprintf("Stop(ch%d)", o.C)
	case "freeze":
		return fmt.Sprintf("freeze a goroutine of the package for %dms after %d scheduling points", o.D/1e6, o.Skp)
	case "fault":
		if o.D > 0 {
			return fmt.Sprintf("arm fault: %s takes %dms longer %d times after %d calls", o.S, o.D/1e6, o.N, o.Skp)
		}
		return fmt.Sprintf("arm fault: %s fails %d times with %s after %d calls%s", o.S, o.N, o.Err, o.Skp, map[string]string{"": "", "api": " (calls made inside Watch/Stop)", "bg": " (calls made in the background)"}[o.Who])
	}
	if o.P != "" {
		s += " " + o.P
	}
	if o.Q != "" {
		s += " -> " + o.Q
	}
	if o.N != 0 {
		s += fmt.Sprintf(" %d", o.N)
	}
	return s
}

// ChanSpec describes a receiver.
type ChanSpec struct {
	Cap  int    `json:"cap"`
	Mode string `json:"mode"` // eager | slow | none
}

// Phase runs its threads concurrently and ends with quiescence.
type Phase struct {
	T     [][]Op `json:"t,omitempty"`
	Probe bool   `json:"probe,omitempty"` // touch every directory that exists, one at a time
}

// Program is a complete workload: together with a decision trace it determines a run.
type Program struct {
	Kind   string      `json:"kind"` // tree | rtree | watcher
	Kern   kern.Config `json:"kern"`
	Cwd    string      `json:"cwd,omitempty"`
	Setup  []Op        `json:"setup,omitempty"`
	Chans  []ChanSpec  `json:"chans"`
	Phases []Phase     `json:"phases"`
	Policy sim.Policy  `json:"policy"`
	Race   bool        `json:"race,omitempty"`
}

var evByName = map[string]notify.Event{
	"Create": notify.Create, "Remove": notify.Remove, "Write": notify.Write, "Rename": notify.Rename,
	"InAccess": notify.InAccess, "InModify": notify.InModify, "InAttrib": notify.InAttrib, "InCloseWrite": notify.InCloseWrite,
	"InCloseNowrite": notify.InCloseNowrite, "InOpen": notify.InOpen, "InMovedFrom": notify.InMovedFrom, "InMovedTo": notify.InMovedTo,
	"InCreate": notify.InCreate, "InDelete": notify.InDelete, "InDeleteSelf": notify.InDeleteSelf, "InMoveSelf": notify.InMoveSelf,
	"Bad": notify.Event(0x40000000),
}

var allKinds = []string{"Create", "Remove", "Write", "Rename"}
var sysKinds = []string{"InAccess", "InModify", "InAttrib", "InCloseWrite", "InCloseNowrite", "InOpen", "InMovedFrom", "InMovedTo", "InCreate", "InDelete", "InDeleteSelf", "InMoveSelf"}

// kindMask is the reference meaning of the platform-independent kinds.
var kindMask = map[string]uint32{
	"Create": kern.InCreate | kern.InMovedTo, "Remove": kern.InDelete | kern.InDeleteSelf,
	"Write": kern.InModify, "Rename": kern.InMovedFrom | kern.InMoveSelf,
	"InAccess": kern.InAccess, "InModify": kern.InModify, "InAttrib": kern.InAttrib, "InCloseWrite": kern.InCloseWrite,
	"InCloseNowrite": kern.InCloseNowrite, "InOpen": kern.InOpen, "InMovedFrom": kern.InMovedFrom, "InMovedTo": kern.InMovedTo,
	"InCreate": kern.InCreate, "InDelete": kern.InDelete, "InDeleteSelf": kern.InDeleteSelf, "InMoveSelf": kern.InMoveSelf,
}

var kindNames = append(append([]string{}, allKinds...), sysKinds...)

var nameByEv = func() map[notify.Event]string {
	m := map[notify.Event]string{}
	for _, n := range kindNames {
		m[evByName[n]] = n
	}
	return m
}()

func evName(e notify.Event) string {
	if n := nameByEv[e]; n != "" {
		return n
	}
	return fmt.Sprintf("Event(%#x)", uint32(e))
}

func maskName(m uint32) string {
	var r []string
	for _, n := range sysKinds {
		if kindMask[n]&m != 0 {
			r = append(r, "IN_"+strings.ToUpper(n[2:]))
			m &^= kindMask[n]
		}
	}
	for _, x := range []struct {
		b uint32
		n string
	}{{kern.InIsdir, "IN_ISDIR"}, {kern.InIgnored, "IN_IGNORED"}, {kern.InQOverflow, "IN_Q_OVERFLOW"}} {
		if m&x.b != 0 {
			r = append(r, x.n)
			m &^= x.b
		}
	}
	if m != 0 {
		r = append(r, fmt.Sprintf("%#x", m))
	}
	return strings.Join(r, "|")
}

var errnoByName = map[string]syscall.Errno{"EINTR": syscall.EINTR, "EAGAIN": syscall.EAGAIN, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE,
	"ENFILE": syscall.ENFILE, "ENOMEM": syscall.ENOMEM, "EACCES": syscall.EACCES, "EIO": syscall.EIO, "ENOENT": syscall.ENOENT}

// Reg is one Watch call.
type Reg struct {
	C          int
	Raw        string
	Odd        bool   // Raw is not Path itself
	Path       string // canonical
	Rec        bool
	Kinds      []string
	Mask       uint32 // OS kinds it needs
	Ev         notify.Event
	Start, End int64 // End == 0: not returned
	Err        error
	Ino        *kern.Inode
	Amb        bool // what the path denotes changed during the call
	Missing    bool // nothing there during the whole call
	Op         Op
	FaultHit   bool
	Bad        bool
	Churn      bool // the subtree changed during the call
	Open       bool // nothing in the way was unreadable
	Thread     int
	Phase      int
}

func (r *Reg) String() string {
	return fmt.Sprintf("%v", r.Op)
}

func (r *Reg) covers(p string) bool {
	if p == r.Path || dirOf(p) == r.Path {
		return true
	}
	return r.Rec && under(p, r.Path)
}

// StopCall is one Stop call.
type StopCall struct {
	C          int
	Start, End int64
	Thread     int
	Phase      int
}

// Delivery is one event handed (or offered) to a channel.
type Delivery struct {
	C      int
	Seq    int64
	Ev     notify.Event
	Path   string
	SysNil bool
	Wd     int32
	Mask   uint32
	Cookie uint32
	Drop   bool
	Full   bool
	ei     notify.EventInfo
	task   string
}

func (d *Delivery) String() string {
	s := "delivered"
	if d.Drop {
		s = "dropped"
	}
	return fmt.Sprintf("@%d %s to ch%d: %s %q (wd=%d mask=%s cookie=%d)", d.Seq, s, d.C, evName(d.Ev), d.Path, d.Wd, maskName(d.Mask), d.Cookie)
}

// WatchSnap is one OS watch at a quiescent point.
type WatchSnap struct {
	Wd   int32
	Path string // as asked for
	Now  string // where the inode is
	Mask uint32
	Dir  bool
	Left bool // was away from Path in between
}

// Snap is the state at a quiescent point.
type Snap struct {
	Seq        int64
	Watches    []WatchSnap
	FDs        int
	Kinds      string
	Pending    int
	Blocked    []string
	Goroutines int  // of the package
	Clean      bool // no fault armed with effect outstanding
}

// History is everything a run recorded.
type History struct {
	RollbackFault bool // a call was hit by more than one fault: undoing it may have failed, too
	P             *Program
	K             *kern.Kernel
	S             *sim.Sim
	Regs          []*Reg
	Stops         []*StopCall
	Dels          []*Delivery
	SeenFull      map[int][]int64
	Snaps         []Snap
	Stuck         []string
	Log           []string
	Closed        []int
	Extra         []Violation // violations observed directly
	Ops           int
	OpErrs        int
	closes        []int64
	Probes        int
	phaseQ        []int // snapshot index at the start of each phase
	rt            *rtState
	wt            *wtState
	Orders        int64 // orders of concurrent calls considered (C12)
	opSeqs        map[int]opRec
	dirs          map[string][]*kern.Inode // by the paths they had
}

type opRec struct {
	op         Op
	start, end int64
	thread     int
	errno      syscall.Errno
}

func under(p, root string) bool {
	if root == "/" {
		return p != "/" && strings.HasPrefix(p, "/")
	}
	return len(p) > len(root) && p[:len(root)] == root && p[len(root)] == '/'
}

func dirOf(p string) string {
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		if p == "/" {
			return ""
		}
		return "/"
	}
	return p[:i]
}

func joinp(d, n string) string {
	if d == "/" {
		return "/" + n
	}
	return d + "/" + n
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
