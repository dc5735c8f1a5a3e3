package main

// Prop is how one property is decided.
type Prop struct {
	ID    string
	Kind  string
	Runs  int // quick tier
	Title string
	Prof  []*Profile
	// Cats are the violation categories that refute this property.
	Cats map[string]bool
}

func cats(l ...string) map[string]bool {
	m := map[string]bool{"panic": true, "stuck": true}
	for _, x := range l {
		m[x] = true
	}
	return m
}

var bigEager = []int{512, 1024}

var fsW = map[string]int{"mkdir": 4, "mkdirall": 2, "create": 6, "write": 6, "read": 2, "rm": 3, "rmdir": 2, "rmall": 2, "chmod": 3, "mvfile": 3, "mvdir": 2, "recreate": 1, "replace": 1, "burst": 1, "sleep": 1, "yield": 2}

func with(m map[string]int, kv ...any) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		r[kv[i].(string)] = kv[i+1].(int)
	}
	return r
}

// mostly repeats the first profiles n times for each time the last ones are drawn.
func mostly(n int, first []*Profile, last ...*Profile) (l []*Profile) {
	for ; n > 0; n-- {
		l = append(l, first...)
	}
	return append(l, last...)
}

// mixed are histories of everything at once, for the properties about what has to arrive.
var mixed = []*Profile{
	{Top: true, Chans: [2]int{2, 4}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 3}, Ops: [2]int{1, 4}, W: with(fsW, "stop", 6, "watch", 6), RecP: 0.5, PreWatch: true, Spell: 0.08, ProbeEnd: true, ProbeMid: 0.3},
	{Top: true, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 2}, Ops: [2]int{1, 5}, W: with(churnW, "stop", 3, "watch", 5), RecP: 0.7, PreWatch: true, Spell: 0.08, ProbeEnd: true, ProbeMid: 0.3, FaultP: 0.3, Faults: apiFaults, WMax: []int{0, 0, 0, 3}},
	{Top: true, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 2}, Ops: [2]int{1, 5}, W: with(churnW, "stop", 2, "watch", 4, "write", 4, "burst", 3), RecP: 0.7, PreWatch: true, Spell: 0.08, ProbeEnd: true, ProbeMid: 0.3, FaultP: 0.5, Faults: bgFaults, QMax: []int{0, 0, 4, 12}},
}

// rtW is a history of calls on a natively recursive watcher.
var rtW = map[string]int{"watch": 6, "stop": 3, "touch": 6, "yield": 2}

func rtProf(caps []int, modes ...string) *Profile {
	return &Profile{Kind: "rtree", Chans: [2]int{1, 4}, Cap: caps, Modes: modes, Phases: [2]int{1, 3}, Threads: [2]int{1, 3}, Ops: [2]int{1, 5}, W: rtW, RecP: 0.5, ProbeEnd: true, ProbeMid: 0.3, FinalStop: 0.3}
}

func raced(p *Profile) *Profile {
	p.Race = 1
	return p
}

var churnW = map[string]int{"mkdir": 5, "mkdirall": 4, "create": 2, "write": 1, "rmdir": 3, "rmall": 4, "mvdir": 4, "mvin": 2, "mvout": 2, "recreate": 4, "cycle": 3, "lock": 1, "sleep": 2, "yield": 3}

// Props lists what is decided, by id.
var Props = map[string]*Prop{
	"C01": {ID: "C01", Cats: cats("silence"), Prof: mostly(2, []*Profile{
		{Top: true, Flood: 0.001, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 3}, Ops: [2]int{1, 6}, W: with(fsW, "stop", 6, "watch", 3, "stopwatch", 2), RecP: 0.5, PreWatch: true, Spell: 0.08, ProbeEnd: true},
		{Chans: [2]int{1, 3}, Cap: []int{0, 1, 2, 5, 8}, Modes: []string{"eager", "slow", "none"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 3}, Ops: [2]int{1, 6}, W: with(fsW, "stop", 6, "watch", 3, "stopwatch", 2, "burst", 3), RecP: 0.5, PreWatch: true, ProbeEnd: true},
		{Top: true, Chans: [2]int{1, 2}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 2}, Threads: [2]int{2, 3}, Ops: [2]int{1, 5}, W: with(churnW, "stop", 6, "watch", 2, "stopwatch", 2), RecP: 0.8, PreWatch: true, ProbeEnd: true},
	}, rtProf([]int{0, 1, 2, 4, 512}, "eager", "slow", "none"),
		&Profile{Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 6}, W: with(fsW, "stop", 6, "watch", 3, "stopwatch", 2), RecP: 0.5, PreWatch: true, ProbeEnd: true, FaultP: 0.7, Faults: allFaults, QMax: []int{0, 0, 4, 16}},
	)},
	"C02": {ID: "C02", Cats: cats("missed"), Prof: mostly(7, []*Profile{
		{Top: true, Flood: 0.002, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 8}, W: with(fsW, "watch", 3), RecP: 0.4, PreWatch: true, Spell: 0.08, ProbeEnd: true},
	}, mixed...)},
	"C03": {ID: "C03", Cats: cats("unsound"), Prof: mostly(3, []*Profile{
		{Top: true, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 8}, W: with(fsW, "watch", 3, "stop", 1), RecP: 0.4, PreWatch: true, ProbeEnd: true},
	},
		&Profile{Chans: [2]int{1, 3}, Cap: []int{0, 1, 2, 4, 512}, Modes: []string{"eager", "slow", "none"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 8}, W: with(fsW, "watch", 3, "stop", 1, "burst", 3), RecP: 0.4, PreWatch: true, ProbeEnd: true},
		&Profile{Top: true, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 8}, W: with(churnW, "watch", 3, "stop", 1, "create", 6, "write", 4), RecP: 0.6, PreWatch: true, Spell: 0.2, ProbeEnd: true, FaultP: 0.5, Faults: allFaults, QMax: []int{0, 0, 4, 16}},
	)},
	"C04": {ID: "C04", Cats: cats("missed"), Prof: mostly(7, []*Profile{
		{Top: true, Flood: 0.002, Chans: [2]int{1, 2}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 6}, W: churnW, RecP: 0.9, PreWatch: true, Spell: 0.08, ProbeEnd: true, ProbeMid: 0.3},
	}, mixed...)},
	"C05": {ID: "C05", Cats: cats("missed"), Prof: mostly(12, []*Profile{
		{Top: true, Chans: [2]int{2, 4}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 3}, Ops: [2]int{1, 4}, W: with(fsW, "stop", 10, "watch", 3), RecP: 0.5, PreWatch: true, Spell: 0.08, ProbeEnd: true, ProbeMid: 0.5},
	}, append([]*Profile{rtProf(bigEager, "eager"), rtProf(bigEager, "eager")}, mixed...)...)},
	"C06": {ID: "C06", Cats: cats("leak", "mask"), Prof: mostly(4, []*Profile{
		{Top: true, Flood: 0.001, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 2}, Ops: [2]int{1, 5}, W: with(churnW, "stop", 8, "watch", 8), RecP: 0.6, PreWatch: true, Spell: 0.08, FinalStop: 0.7},
	},
		&Profile{Top: true, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 3}, Ops: [2]int{1, 4}, W: with(fsW, "stop", 6, "watch", 8, "stopwatch", 1), RecP: 0.5, PreWatch: true, Spell: 0.08, FinalStop: 0.5, FaultP: 0.3, Faults: apiFaults, WMax: []int{0, 0, 0, 3}},
	)},
	"C07": {ID: "C07", Cats: cats("missed", "unsound", "silence", "leak", "mask", "fd", "watcherr"), Prof: mostly(2, []*Profile{
		{Top: true, Chans: [2]int{1, 2}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 1}, Ops: [2]int{1, 3}, W: map[string]int{"watch": 10, "stop": 2, "mkdir": 1, "create": 1, "rmdir": 1, "lock": 1}, RecP: 0.5, ProbeEnd: true, ProbeMid: 0.5, FinalStop: 0.3, Spell: 0.2, Bad: 0.1,
			FaultP: 0.5, Faults: apiFaults, WMax: []int{0, 0, 0, 1, 2, 3}},
		{Chans: [2]int{1, 2}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{2, 3}, Ops: [2]int{1, 4}, W: map[string]int{"watch": 6, "stop": 1, "mkdir": 3, "mkdirall": 2, "rmdir": 2, "rmall": 2, "mvdir": 2, "mvout": 1, "mvin": 1, "recreate": 1, "replace": 1}, RecP: 0.8, ProbeEnd: true, ProbeMid: 0.3, FinalStop: 0.3,
			FaultP: 0.15, Faults: apiFaults},
	},
		&Profile{Top: true, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{2, 4}, Threads: [2]int{1, 1}, Ops: [2]int{1, 3}, W: map[string]int{"watch": 10, "stop": 3, "mkdir": 1, "create": 1, "rmdir": 1, "mvdir": 1}, RecP: 0.4, ProbeEnd: true, ProbeMid: 0.3, Spell: 0.8},
	)},
	"C08": {ID: "C08", Cats: cats("missed", "drop", "pileup"), Prof: mostly(5, []*Profile{
		{Top: true, Flood: 0.002, Chans: [2]int{2, 4}, Cap: []int{0, 1, 1, 2, 4, 512}, Modes: []string{"eager", "slow", "none"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 8}, W: with(fsW, "watch", 2, "burst", 3), RecP: 0.5, PreWatch: true, Spell: 0.08, ProbeEnd: true},
	}, rtProf([]int{0, 1, 1, 2, 4, 512}, "eager", "slow", "none"))},
	"C09": {ID: "C09", Cats: cats("race", "fd", "pileup"), Prof: mostly(4, []*Profile{
		{Top: true, Flood: 0.003, Chans: [2]int{1, 3}, Cap: []int{0, 1, 3, 512}, Modes: []string{"eager", "slow", "none"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 3}, Ops: [2]int{1, 6}, W: with(fsW, "watch", 5, "stop", 5, "stopwatch", 2, "lock", 1), RecP: 0.5, ProbeEnd: true, Race: 1, Spell: 0.1, Bad: 0.02, FaultP: 0.3, Faults: allFaults, QMax: []int{0, 0, 4, 16}, WMax: []int{0, 0, 2}},
	}, raced(rtProf([]int{0, 1, 3, 512}, "eager", "slow", "none")),
		&Profile{Top: true, Flood: 0.05, Chans: [2]int{1, 2}, Cap: []int{1, 512}, Modes: []string{"eager", "slow"}, Phases: [2]int{1, 1}, Threads: [2]int{1, 3}, Ops: [2]int{1, 3}, W: map[string]int{"mkdir": 1, "rmall": 1, "watch": 1, "stop": 1}, RecP: 0.8, PreWatch: true},
	)},
	"C10": {ID: "C10", Cats: cats("missed"), Prof: mostly(4, []*Profile{
		{Top: true, Flood: 0.003, Chans: [2]int{1, 2}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{2, 8}, W: with(fsW, "burst", 4), RecP: 0.5, PreWatch: true, ProbeEnd: true, ProbeMid: 0.3, FaultP: 0.8, Faults: bgFaults, QMax: []int{0, 0, 3, 6, 12}},
	}, mixed[2])},
	"C11": {ID: "C11", Cats: cats("data", "spelled"), Prof: mostly(4, []*Profile{
		{Top: true, Flood: 0.001, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 8}, W: with(fsW, "watch", 3, "mvfile", 8, "mvdir", 3, "cycle", 2), RecP: 0.5, PreWatch: true, ProbeEnd: true, Spell: 0.6},
	},
		&Profile{Top: true, Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 2}, Ops: [2]int{1, 8}, W: with(churnW, "watch", 3, "stop", 1, "mvfile", 6), RecP: 0.7, PreWatch: true, ProbeEnd: true, Spell: 0.4, FaultP: 0.5, Faults: bgFaults, QMax: []int{0, 0, 4, 16}},
	)},
	"C15": {ID: "C15", Runs: 400000, Kind: "watcher", Cats: cats("closed", "reused", "fd", "race"), Prof: []*Profile{
		{Cap: []int{0, 1, 128}, Modes: []string{"eager", "eager", "slow"}, Phases: [2]int{1, 3}, Threads: [2]int{0, 2}, Ops: [2]int{1, 8}, W: with(fsW, "burst", 3), Race: 0.3, ProbeMid: 0.4},
		{Cap: []int{0, 1, 128}, Modes: []string{"eager", "eager", "slow"}, Phases: [2]int{1, 3}, Threads: [2]int{0, 2}, Ops: [2]int{1, 8}, W: with(fsW, "burst", 3), ProbeMid: 0.4, FaultP: 0.7},
	}},
	"C12": {ID: "C12", Runs: 240000, Cats: cats("atomic", "race"), Prof: []*Profile{
		{Top: true, Chans: [2]int{1, 2}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{2, 4}, Ops: [2]int{1, 3}, W: map[string]int{"watch": 6, "stop": 4, "stopwatch": 2, "yield": 2}, RecP: 0.5, ProbeEnd: true, ProbeMid: 0.5, Spell: 0.1, Race: 0.3},
		{Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{2, 3}, Ops: [2]int{1, 3}, W: map[string]int{"watch": 6, "stop": 4, "stopwatch": 2, "yield": 2}, RecP: 0.3, PreWatch: true, ProbeEnd: true, ProbeMid: 0.3, Race: 0.3},
		{Kind: "rtree", Chans: [2]int{1, 3}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 3}, Threads: [2]int{2, 4}, Ops: [2]int{1, 3}, W: map[string]int{"watch": 6, "stop": 4, "yield": 2}, RecP: 0.5, ProbeEnd: true, ProbeMid: 0.4, Race: 0.3},
	}},
	"C13": {ID: "C13", Runs: 240000, Kind: "rtree", Cats: cats("missed", "unsound", "silence", "drop"), Prof: []*Profile{
		{Chans: [2]int{1, 4}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 2}, Ops: [2]int{1, 6}, W: map[string]int{"watch": 6, "stop": 3, "touch": 6, "yield": 2}, RecP: 0.5, ProbeEnd: true, ProbeMid: 0.5, FinalStop: 0.3},
		{Chans: [2]int{1, 4}, Cap: []int{0, 1, 2, 4, 512}, Modes: []string{"eager", "slow", "none"}, Phases: [2]int{1, 3}, Threads: [2]int{1, 3}, Ops: [2]int{1, 5}, W: map[string]int{"watch": 6, "stop": 3, "touch": 6, "yield": 2}, RecP: 0.5, ProbeEnd: true, FinalStop: 0.3},
	}},
	"C14": {ID: "C14", Runs: 300000, Kind: "rtree", Cats: cats("illegal", "leak", "uncovered", "watcherr"), Prof: []*Profile{
		{Chans: [2]int{1, 4}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 2}, Ops: [2]int{1, 6}, W: map[string]int{"watch": 6, "stop": 3, "touch": 1, "yield": 1}, RecP: 0.5, FinalStop: 0.6},
		{Chans: [2]int{1, 4}, Cap: bigEager, Modes: []string{"eager"}, Phases: [2]int{1, 4}, Threads: [2]int{1, 2}, Ops: [2]int{1, 6}, W: map[string]int{"watch": 6, "stop": 3, "touch": 1, "yield": 1}, RecP: 0.5, FinalStop: 0.6, ProbeEnd: true, FaultP: 0.5},
	}},
}

var apiFaults = []Op{
	{S: "inotify_add_watch", Err: "ENOSPC", Who: "api"}, {S: "inotify_add_watch", Err: "ENOMEM", Who: "api"}, {S: "inotify_add_watch", Err: "EACCES", Who: "api"},
	{S: "inotify_init", Err: "EMFILE", Who: "api"}, {S: "epoll_create", Err: "EMFILE", Who: "api"}, {S: "pipe", Err: "EMFILE", Who: "api"}, {S: "epoll_ctl", Err: "ENOMEM", Who: "api"},
	{S: "open", Err: "EMFILE", Who: "api"}, {S: "open", Err: "EACCES", Who: "api"}, {S: "getdents", Err: "EIO", Who: "api"}, {S: "lstat", Err: "EIO", Who: "api"}, {S: "lstat", Err: "EACCES", Who: "api"}, {S: "readlink", Err: "EIO", Who: "api"},
}

var bgFaults = []Op{
	{S: "epoll_wait", Err: "EINTR"}, {S: "read_inotify", Err: "EINTR"}, {S: "read_inotify", Err: "EAGAIN"}, {S: "read_inotify", Err: "EIO"},
}

var allFaults = append(append([]Op{}, apiFaults...), append(bgFaults, []Op{{S: "inotify_add_watch", Err: "ENOSPC", Who: "bg"}, {S: "open", Err: "EMFILE", Who: "bg"}, {S: "inotify_rm_watch", Err: "ENOMEM"}, {S: "getdents", Err: "EIO", Who: "bg"}}...)...)

// evaluate runs the oracles a property needs.
func (pr *Prop) evaluate(h *History) (vs []Violation, st evalStats) {
	all := h.basic()
	crashed := h.S.Panic != nil
	if pr.Cats["silence"] {
		all = append(all, h.silence()...)
	}
	if pr.Cats["atomic"] {
		v, n := h.atomic()
		all = append(all, v...)
		st.Obligations = n
	}
	if h.rt != nil {
		v, n := h.rtDeliveries()
		all = append(all, v...)
		all = append(all, h.rtCoherent()...)
		if pr.Cats["drop"] {
			all = append(all, h.drops()...)
		}
		st.Obligations += n
		return pr.filter(all), st
	}
	if h.wt != nil {
		v, n := h.wtClosed()
		st.Obligations = n
		return pr.filter(append(all, v...)), st
	}
	if pr.Cats["unsound"] || pr.Cats["data"] {
		all = append(all, h.soundness()...)
	}
	if (pr.Cats["missed"] || pr.Cats["spelled"]) && !crashed && len(h.Stuck) == 0 {
		v, n := h.completeness()
		all = append(all, v...)
		st.Obligations = n
	}
	if pr.Cats["leak"] || pr.Cats["mask"] {
		all = append(all, h.watchTable()...)
	}
	if pr.Cats["watcherr"] || pr.Cats["spelled"] {
		all = append(all, h.watchErrors()...)
	}
	if pr.Cats["spelled"] {
		for _, v := range all {
			if v.Odd {
				v.Cat = "spelled"
				all = append(all, v)
			}
		}
	}
	if pr.Cats["drop"] {
		all = append(all, h.drops()...)
	}
	return pr.filter(all), st
}

func (pr *Prop) filter(all []Violation) (vs []Violation) {
	for _, v := range all {
		if pr.Cats[v.Cat] {
			vs = append(vs, v)
		}
	}
	return
}

type evalStats struct{ Obligations int }
