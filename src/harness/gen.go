package main

import (
	"strings"

	"dst/kern"
	"dst/sim"
)

// Profile shapes the workloads of one property (swarm style: most settings are
// drawn anew for every run from these ranges).
type Profile struct {
	Kind      string
	Chans     [2]int
	Cap       []int
	Modes     []string
	Phases    [2]int
	Threads   [2]int
	Ops       [2]int // per thread
	W         map[string]int
	Spell     float64 // unusual spellings and symbolic links
	Faults    []Op    // fault menu
	FaultP    float64 // per phase
	QMax      []int
	WMax      []int
	ProbeEnd  bool
	ProbeMid  float64
	Race      float64
	Bad       float64 // unsupported kinds
	RecP      float64
	PreWatch  bool // phase 1 only subscribes
	Lead      bool // every phase with watches is API only
	FinalStop float64
	Flood     float64 // per operation: fill the package's buffers
	Top       bool    // some runs work in the root directory
}

type gen struct {
	r      sim.Rand
	pr     *Profile
	dirs   []string
	files  []string
	links  map[string]string
	nch    int
	root   string
	out    bool
	cyclic bool
	seq    int
	floods int
	cwd    string
	dn, fn []string
	maxd   int
}

func (g *gen) between(x [2]int) int { return x[0] + g.r.Intn(x[1]-x[0]+1) }

func (g *gen) pick(l []string) string { return l[g.r.Intn(len(l))] }

func drop(l []string, p string) []string {
	var r []string
	for _, x := range l {
		if x != p && !under(x, p) {
			r = append(r, x)
		}
	}
	return r
}

func (g *gen) inRoot() []string {
	var r []string
	for _, d := range g.dirs {
		if d == g.root || under(d, g.root) {
			r = append(r, d)
		}
	}
	if r == nil {
		r = []string{g.root}
	}
	return r
}

// nameSets are the names of directories and files a run works with.
var nameSets = [][2][]string{
	{{"a", "b", "c"}, {"f", "g"}},
	{{"a", "ab", "aba"}, {"a", "b", "abab"}}, // prefixes of each other, files where directories could be
	{{strings.Repeat("d", 15), strings.Repeat("d", 16), strings.Repeat("d", 17)}, {strings.Repeat("d", 31), strings.Repeat("d", 32)}},
	{{strings.Repeat("x", 40), strings.Repeat("y", 41), "z"}, {strings.Repeat("x", 255), strings.Repeat("y", 100)}},
	{{".a", "a...", " b"}, {"..f", "f ", "\u00e9\n"}},
	{{"...", "-", "%s\xe9"}, {"\xff\xfe....", "~", "\\"}}, // not UTF-8
}

func depth(p string) int { return strings.Count(p, "/") }

func (g *gen) newDir() string {
	for i := 0; i < 10; i++ {
		d := g.pick(g.inRoot())
		if depth(d) >= g.maxd {
			continue
		}
		p := joinp(d, g.pick(g.dn))
		if !contains(g.dirs, p) {
			return p
		}
	}
	return joinp(g.root, g.pick(g.dn))
}

func (g *gen) kinds() []string {
	var r []string
	add := func(k string) {
		if !contains(r, k) {
			r = append(r, k)
		}
	}
	switch g.r.Pick(4, 4, 3, 2, 2, 1, 1) {
	case 0:
		return append(r, allKinds...)
	case 1:
		add(g.pick(allKinds))
	case 2:
		for i := 0; i < 2; i++ {
			add(g.pick(allKinds))
		}
	case 3:
		add(g.pick(sysKinds))
	case 4:
		add(g.pick(allKinds))
		add(g.pick(sysKinds))
	case 5:
		for i := 0; i < 3; i++ {
			add(g.pick(sysKinds))
		}
	case 6:
		return append(r, kindNames...)
	}
	return r
}

func (g *gen) spell(p string) string {
	if !g.r.Bool(g.pr.Spell) {
		return p
	}
	switch g.r.Intn(7) {
	case 0: // through a link to one of its ancestors
		for l, t := range g.sortedLinks() {
			_ = l
			if p == t[1] || under(p, t[1]) {
				return t[0] + p[len(t[1]):]
			}
		}
	case 1:
		if g.cwd == "/" && p != "/" {
			return p[1:]
		}
		if under(p, g.cwd) {
			return p[len(g.cwd)+1:]
		}
		if p == g.cwd {
			return "."
		}
	case 2:
		return p + "/"
	case 3:
		return strings.Replace(p, "/", "//", -1)
	case 4:
		return p + "/../" + p[strings.LastIndexByte(p, '/')+1:]
	case 5:
		return "/." + p
	case 6:
		if g.cwd != "/" && under(p, g.cwd) {
			return "../" + g.cwd[strings.LastIndexByte(g.cwd, '/')+1:] + p[len(g.cwd):]
		}
	}
	return p
}

// respell changes what later spellings mean: the working directory, or where a link leads.
func (g *gen) respell() []Op {
	if ls := g.sortedLinks(); len(ls) > 0 && g.r.Bool(0.5) {
		l, t := ls[0][0], g.pick(g.inRoot())
		g.links[l] = t
		return []Op{{K: "rm", P: l}, {K: "symlink", P: l, Q: t}}
	}
	g.cwd = []string{"/", "/w", "/o", g.pick(g.inRoot())}[g.r.Intn(4)]
	return []Op{{K: "chdir", P: g.cwd}}
}

// respelled is a respell, in half the cases between two Watch calls with the same string.
func (g *gen) respelled() (ps []Phase) {
	var w Op
	again := g.r.Bool(0.5)
	if again {
		w = g.watchOp()
		d := g.pick(g.inRoot())
		if ls := g.sortedLinks(); len(ls) > 0 && g.r.Bool(0.5) {
			w.P = ls[0][0]
		} else if under(d, g.cwd) {
			w.P = d[len(g.cwd):]
			w.P = strings.TrimPrefix(w.P, "/")
		} else {
			w.P = "."
		}
		if g.r.Bool(g.pr.RecP) {
			w.P += "/..."
		}
		ps = append(ps, Phase{T: [][]Op{{w}}})
	}
	ps = append(ps, Phase{T: [][]Op{g.respell()}})
	if again {
		w.C = g.r.Intn(g.nch)
		ps = append(ps, Phase{T: [][]Op{{w}}})
	}
	return
}

func (g *gen) sortedLinks() [][2]string {
	var r [][2]string
	for _, k := range sortedKeys(g.links) {
		r = append(r, [2]string{k, g.links[k]})
	}
	for i := len(r) - 1; i > 0; i-- {
		j := g.r.Intn(i + 1)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (g *gen) watchOp() Op {
	var p string
	rec := g.r.Bool(g.pr.RecP)
	switch g.r.Pick(10, 4, 1) {
	case 0:
		p = g.pick(g.inRoot())
		if g.r.Bool(0.4) {
			p = g.root
		}
	case 1:
		if len(g.files) > 0 && !rec {
			p = g.pick(g.files)
		} else {
			p = g.pick(g.inRoot())
		}
	case 2:
		p = g.newDir()
		if g.r.Bool(0.3) && len(g.files) > 0 {
			p = g.pick(g.files)
		}
	}
	p = g.spell(p)
	if g.cyclic && g.r.Bool(0.2) {
		p = g.pick([]string{"/cyc", "/c2", "/cyc/a", "/o/../c2"})
	}
	if rec {
		p += "/..."
	}
	op := Op{K: "watch", P: p, C: g.r.Intn(g.nch), E: g.kinds()}
	if g.r.Bool(0.01) {
		op.E = nil // changes nothing
	}
	if g.r.Bool(g.pr.Bad) {
		op.E = append(op.E, "Bad")
	}
	return op
}

func (g *gen) fsOp(k string) Op {
	switch k {
	case "mkdir":
		p := g.newDir()
		if !contains(g.dirs, p) {
			g.dirs = append(g.dirs, p)
		}
		return Op{K: "mkdir", P: p}
	case "mkdirall":
		p := joinp(g.newDir(), g.pick(g.dn))
		if depth(p) > g.maxd+1 {
			p = dirOf(p)
		}
		for q := p; under(q, g.root); q = dirOf(q) {
			if !contains(g.dirs, q) {
				g.dirs = append(g.dirs, q)
			}
		}
		return Op{K: "mkdirall", P: p}
	case "create":
		p := joinp(g.pick(g.inRoot()), g.pick(g.fn))
		if !contains(g.files, p) {
			g.files = append(g.files, p)
		}
		return Op{K: "create", P: p, N: int64(g.r.Intn(3))}
	case "write", "read", "rm":
		if len(g.files) == 0 {
			return g.fsOp("create")
		}
		p := g.pick(g.files)
		if k == "rm" {
			g.files = drop(g.files, p)
		}
		op := Op{K: k, P: p}
		if k == "write" {
			op.N = int64(1 + g.r.Intn(3))
		}
		return op
	case "chmod":
		if len(g.files) > 0 && g.r.Bool(0.5) {
			return Op{K: k, P: g.pick(g.files), N: int64(0o700 + g.r.Intn(0o100))}
		}
		return Op{K: k, P: g.pick(g.inRoot()), N: int64(0o700 + g.r.Intn(0o100))}
	case "rmdir", "rmall":
		var c []string
		for _, d := range g.inRoot() {
			if d != g.root || g.r.Bool(0.05) {
				c = append(c, d)
			}
		}
		if len(c) == 0 {
			return g.fsOp("mkdir")
		}
		p := g.pick(c)
		if k == "rmall" || !g.hasChild(p) {
			g.dirs = drop(g.dirs, p)
			g.files = drop(g.files, p)
		}
		return Op{K: k, P: p}
	case "mvfile":
		if len(g.files) == 0 {
			return g.fsOp("create")
		}
		p := g.pick(g.files)
		q := joinp(g.pick(g.inRoot()), g.pick(g.fn))
		g.files = append(drop(drop(g.files, p), q), q)
		return Op{K: "rename", P: p, Q: q}
	case "mvdir":
		var c []string
		for _, d := range g.inRoot() {
			if d != g.root {
				c = append(c, d)
			}
		}
		if len(c) == 0 {
			return g.fsOp("mkdir")
		}
		p := g.pick(c)
		q := g.newDir()
		if under(q, p) {
			q = joinp(g.root, g.pick(g.dn))
		}
		g.moveDir(p, q)
		return Op{K: "rename", P: p, Q: q}
	case "mvout":
		var c []string
		for _, d := range g.inRoot() {
			if d != g.root {
				c = append(c, d)
			}
		}
		if len(c) == 0 {
			return g.fsOp("mkdir")
		}
		p := g.pick(c)
		q := "/o/" + g.pick(g.dn)
		g.moveDir(p, q)
		return Op{K: "rename", P: p, Q: q}
	case "mvin":
		var c []string
		for _, d := range g.dirs {
			if under(d, "/o") {
				c = append(c, d)
			}
		}
		if len(c) == 0 {
			return g.fsOp("mvdir")
		}
		p := g.pick(c)
		q := g.newDir()
		g.moveDir(p, q)
		return Op{K: "rename", P: p, Q: q}
	case "recreate": // used through expand
	}
	return Op{K: "yield", N: 1}
}

func (g *gen) hasChild(p string) bool {
	for _, d := range g.dirs {
		if under(d, p) {
			return true
		}
	}
	for _, f := range g.files {
		if under(f, p) {
			return true
		}
	}
	return false
}

func (g *gen) moveDir(p, q string) {
	if p == q || contains(g.dirs, q) && g.hasChild(q) {
		return
	}
	mv := func(l []string) []string {
		var r []string
		for _, x := range l {
			if x == p || under(x, p) {
				x = q + x[len(p):]
			}
			if !contains(r, x) {
				r = append(r, x)
			}
		}
		return r
	}
	g.dirs, g.files = mv(g.dirs), mv(g.files)
}

// ops draws the next step (sometimes a short idiom of several).
func (g *gen) ops() []Op {
	var ks []string
	var ws []int
	for _, k := range sortedKeys(g.pr.W) {
		ks = append(ks, k)
		ws = append(ws, g.pr.W[k])
	}
	k := ks[g.r.Pick(ws...)]
	if g.pr.Flood > 0 && g.floods == 0 && depth(g.root) < 50 && g.r.Bool(g.pr.Flood) {
		k = "flood"
		g.floods++
	}
	switch k {
	case "watch":
		return []Op{g.watchOp()}
	case "stop":
		return []Op{{K: "stop", C: g.r.Intn(g.nch)}}
	case "sleep":
		return []Op{{K: "sleep", N: int64(1+g.r.Intn(20)) * 10000}}
	case "yield":
		return []Op{{K: "yield", N: int64(1 + g.r.Intn(10))}}
	case "recreate": // remove a directory and make it again at once
		a := g.fsOp("rmall")
		if a.K != "rmall" {
			return []Op{a}
		}
		r := []Op{a}
		if g.r.Bool(0.3) {
			r = append(r, Op{K: "yield", N: int64(1 + g.r.Intn(20))})
		}
		r = append(r, Op{K: "mkdir", P: a.P})
		g.dirs = append(g.dirs, a.P)
		if g.r.Bool(0.3) {
			sub := joinp(a.P, g.pick(g.dn))
			r = append(r, Op{K: "mkdir", P: sub})
			g.dirs = append(g.dirs, sub)
		}
		return r
	case "lock": // take away permissions, perhaps give them back
		d := g.pick(g.inRoot())
		r := []Op{{K: "chmod", P: d, N: []int64{0, 0o100, 0o300, 0o400, 0o600}[g.r.Intn(5)]}}
		if g.r.Bool(0.5) {
			r = append(r, g.ops()...)
			r = append(r, Op{K: "chmod", P: d, N: 0o755})
		}
		return r
	case "stopwatch": // stop and subscribe again at once
		w := g.watchOp()
		return []Op{{K: "stop", C: w.C}, w}
	case "cycle": // move away and back
		a := g.fsOp("mvdir")
		if a.K != "rename" {
			return []Op{a}
		}
		g.moveDir(a.Q, a.P)
		return []Op{a, {K: "rename", P: a.Q, Q: a.P}}
	case "replace": // write a new file and rename it over an old one
		if len(g.files) == 0 {
			return []Op{g.fsOp("create")}
		}
		f := g.pick(g.files)
		return []Op{{K: "create", P: f + ".t", N: 1}, {K: "rename", P: f + ".t", Q: f}}
	case "burst":
		n := 2 + g.r.Intn(8)
		var r []Op
		d := g.pick(g.inRoot())
		for i := 0; i < n; i++ {
			g.seq++
			r = append(r, Op{K: "create", P: joinp(d, "n"+string(rune('0'+i))), N: 1})
		}
		return r
	case "flood": // more at once than any buffer of the package holds
		d := g.pick(g.inRoot())
		if g.r.Bool(0.4) && depth(d) < g.maxd {
			return []Op{{K: "mkdirs", P: d, N: int64(40 + g.r.Intn(160)), Skp: g.r.Intn(2)}}
		}
		return []Op{{K: "spray", P: d, N: int64(20 + g.r.Intn(200)), Skp: g.r.Intn(2)}}
	}
	return []Op{g.fsOp(k)}
}

func drawPolicy(r *sim.Rand) sim.Policy {
	p := sim.Policy{Shuffle: true}
	p.Mode = []string{"random", "random", "pct", "fifo", "lifo"}[r.Intn(5)]
	p.PreY = []float64{0, 0, 0.003, 0.02, 0.1}[r.Intn(5)]
	p.PreSync = []float64{0, 0.05, 0.2, 0.5}[r.Intn(4)]
	if p.Mode == "pct" {
		p.Depth = 1 + r.Intn(5)
	}
	if r.Bool(0.35) {
		p.StallP = []float64{0.05, 0.2, 0.5}[r.Intn(3)]
		p.StallLen = []int{20, 100, 500}[r.Intn(3)]
	}
	return p
}

// stall makes a goroutine or a few system calls take very long.
func (g *gen) stall() Op {
	if g.r.Bool(0.6) {
		return freezeOp(&g.r)
	}
	return Op{K: "fault", S: g.pick([]string{"inotify_add_watch", "inotify_rm_watch", "epoll_wait", "read_inotify", "lstat", "open", "getdents", "readlink"}),
		N: int64(1 + g.r.Intn(3)), Skp: g.r.Intn(1 + g.r.Intn(4)), D: []int64{2e6, 150e6, 3e9, 70e9}[g.r.Intn(4)]}
}

func freezeOp(r *sim.Rand) Op {
	return Op{K: "freeze", Skp: r.Intn(1 + r.Intn(80)), D: []int64{2e6, 150e6, 3e9, 70e9}[r.Intn(4)]}
}

// Generate draws a program for the profile from a seed.
func Generate(pr *Profile, seed uint64) *Program {
	g := &gen{pr: pr, links: map[string]string{}, dn: nameSets[0][0], fn: nameSets[0][1], maxd: 4}
	g.r.Seed(seed ^ 0xabcdef)
	p := &Program{Kind: "tree", Cwd: "/w"}
	g.cwd = "/w"
	p.Policy = drawPolicy(&g.r)
	p.Kern = kern.Config{OldOrder: g.r.Bool(0.15), Cookie0: uint32(g.r.Intn(3)) * 1000}
	if g.r.Bool(0.1) {
		p.Kern.Wd0 = 1 << 20
	}
	p.Kern.Atomic = g.r.Bool(0.3)
	if len(pr.QMax) > 0 {
		p.Kern.QMax = pr.QMax[g.r.Intn(len(pr.QMax))]
	}
	if g.r.Bool(0.06) || p.Kern.QMax > 0 && g.r.Bool(0.4) {
		p.Kern.RMax = 1 + g.r.Intn(5)
	}
	if len(pr.WMax) > 0 {
		p.Kern.WMax = pr.WMax[g.r.Intn(len(pr.WMax))]
	}
	p.Race = g.r.Bool(pr.Race)
	g.root = []string{"/w", "/w/x"}[g.r.Intn(2)]
	if pr.Top && g.r.Bool(0.06) {
		g.root = "/"
	}
	ns := nameSets[0]
	if g.r.Bool(0.4) {
		ns = nameSets[g.r.Intn(len(nameSets))]
	}
	g.dn, g.fn = ns[0], ns[1]
	g.maxd = 4
	if g.r.Bool(0.05) {
		g.maxd = 9
	}
	if pr.Top && g.root != "/" && g.r.Bool(0.004) {
		g.root += strings.Repeat("/d", 110+g.r.Intn(30))
		g.maxd += depth(g.root)
	}
	g.dirs = []string{g.root}
	p.Setup = []Op{{K: "mkdirall", P: g.root}, {K: "mkdir", P: "/o"}}
	if g.root == "/" {
		p.Setup[0].P = "/w"
	}
	for i := g.r.Intn(5); i > 0; i-- {
		p.Setup = append(p.Setup, g.fsOp("mkdir"))
	}
	for i := g.r.Intn(4); i > 0; i-- {
		p.Setup = append(p.Setup, g.fsOp("create"))
	}
	if g.r.Bool(0.3) {
		p.Setup = append(p.Setup, Op{K: "mkdir", P: "/o/a"}, Op{K: "mkdir", P: "/o/a/b"})
		g.dirs = append(g.dirs, "/o/a", "/o/a/b")
	}
	if pr.Spell > 0 {
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			t := g.pick(g.inRoot())
			if len(g.links) > 0 && g.r.Bool(0.4) {
				t = g.sortedLinks()[0][0]
			}
			l := []string{"/l", "/ln", "/o/l", "/w/l", "/long"}[g.r.Intn(5)]
			if _, dup := g.links[l]; dup {
				continue
			}
			real := t
			if g.links[t] != "" {
				real = g.links[t]
			}
			g.links[l] = real
			if g.r.Bool(0.2) && len(g.links) > 1 { // up from where another link leads
				for _, o := range g.sortedLinks() {
					if up := dirOf(o[1]); o[0] != l && o[1] != "/" && under(real, up) {
						t = o[0] + "/../" + strings.TrimPrefix(real[len(up):], "/")
						break
					}
				}
			}
			if t[0] == '/' && g.r.Bool(0.5) { // relative target
				up := strings.Repeat("../", depth(l)-1)
				if t = up + t[1:]; t == "" {
					t = "."
				}
			}
			p.Setup = append(p.Setup, Op{K: "symlink", P: l, Q: t})
		}
		if g.r.Bool(0.05) {
			c := [][2]string{{"/cyc", "/cyc"}, {"/cyc", "c2"}, {"/cyc", "./cyc/cyc"}, {"/cyc", "/nowhere"}}[g.r.Intn(4)]
			p.Setup = append(p.Setup, Op{K: "symlink", P: c[0], Q: c[1]}, Op{K: "symlink", P: "/c2", Q: "/o/../cyc"})
			g.cyclic = true
		}
	}
	g.nch = g.between(pr.Chans)
	if g.nch > 1 && g.r.Bool(0.01) {
		g.nch *= 4
	}
	for i := 0; i < g.nch; i++ {
		p.Chans = append(p.Chans, ChanSpec{Cap: pr.Cap[g.r.Intn(len(pr.Cap))], Mode: pr.Modes[g.r.Intn(len(pr.Modes))]})
	}
	np := g.between(pr.Phases)
	if pr.PreWatch {
		var ops []Op
		for i := 0; i < g.nch; i++ {
			for j := 1 + g.r.Intn(2); j > 0; j-- {
				w := g.watchOp()
				w.C = i
				ops = append(ops, w)
			}
		}
		p.Phases = append(p.Phases, Phase{T: [][]Op{ops}})
	}
	for i := 0; i < np; i++ {
		if pr.Spell > 0 && g.r.Bool(0.05+pr.Spell/5) {
			p.Phases = append(p.Phases, g.respelled()...)
		}
		var ph Phase
		for t := g.between(pr.Threads); t > 0; t-- {
			var ops []Op
			for n := g.between(pr.Ops); n > 0; n-- {
				ops = append(ops, g.ops()...)
			}
			ph.T = append(ph.T, ops)
		}
		if g.r.Bool(0.07) {
			ti := g.r.Intn(len(ph.T))
			at := g.r.Intn(len(ph.T[ti]) + 1)
			ph.T[ti] = append(ph.T[ti][:at:at], append([]Op{g.stall()}, ph.T[ti][at:]...)...)
		}
		if len(pr.Faults) > 0 && g.r.Bool(pr.FaultP) {
			f := pr.Faults[g.r.Intn(len(pr.Faults))]
			f.Skp = g.r.Intn(1 + g.r.Intn(6))
			f.K = "fault"
			if f.N == 0 {
				f.N = int64(1 + g.r.Intn(2))
				if (f.S == "epoll_wait" || f.S == "read_inotify") && g.r.Bool(0.2) {
					f.N = int64(3 + g.r.Intn(40))
				}
			}
			ti := g.r.Intn(len(ph.T))
			at := g.r.Intn(len(ph.T[ti]) + 1)
			ph.T[ti] = append(ph.T[ti][:at:at], append([]Op{f}, ph.T[ti][at:]...)...)
			p.Phases = append(p.Phases, ph)
			p.Phases = append(p.Phases, Phase{T: [][]Op{{{K: "heal"}}}})
		} else {
			p.Phases = append(p.Phases, ph)
		}
		if g.r.Bool(pr.ProbeMid) {
			p.Phases = append(p.Phases, Phase{Probe: true})
		}
	}
	if pr.ProbeEnd {
		p.Phases = append(p.Phases, Phase{Probe: true})
	}
	if g.floods > 0 {
		for i := range p.Chans {
			if p.Chans[i].Cap >= 512 {
				p.Chans[i].Cap = 1 << 15
			}
		}
	}
	if g.r.Bool(pr.FinalStop) {
		var ops []Op
		for i := 0; i < g.nch; i++ {
			ops = append(ops, Op{K: "stop", C: i})
		}
		p.Phases = append(p.Phases, Phase{T: [][]Op{ops}}, Phase{Probe: true})
	}
	return p
}
