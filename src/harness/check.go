package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"dst/sim"
)

// verif is the directory the machinery was started for.
func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Known findings ---------------------------------------------------------------------

// knownFinding is a genuine defect that is recorded rather than repaired.
type knownFinding struct {
	Property string
	ID       string
	Text     string
}

// loadKnown reads the lines "known: property=<id> id=<matcher> <text>".
func loadKnown() (ks []knownFinding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" {
			continue
		}
		ks = append(ks, knownFinding{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "id="), strings.Join(f[3:], " ")})
	}
	return
}

// Workers ----------------------------------------------------------------------------

type foundViol struct {
	Index int    `json:"index"`
	Cat   string `json:"cat"`
	Sig   string `json:"sig"`
	Msg   string `json:"msg"`
	Ops   int    `json:"ops"`
}

type workResult struct {
	Runs        int              `json:"runs"`
	Ops         int              `json:"ops"`
	OpErrs      int              `json:"op_errs"`
	Deliveries  int              `json:"deliveries"`
	Drops       int              `json:"drops"`
	Obligations int              `json:"obligations"`
	Notes       int              `json:"notes"`
	WatchCalls  int              `json:"watch_calls"`
	WatchErrs   int              `json:"watch_errs"`
	StopCalls   int              `json:"stop_calls"`
	Quiescent   int              `json:"quiescent"`
	SimNs       int64            `json:"sim_ns"`
	Switches    int64            `json:"switches"`
	Preempts    int64            `json:"preempts"`
	Goroutines  int64            `json:"goroutines"`
	Faults      map[string]int   `json:"faults"`
	Extra       map[string]int64 `json:"extra"`
	Nontrivial  int              `json:"nontrivial"`
	Rechecked   int              `json:"rechecked"`
	Diverged    string           `json:"diverged"`
	Viols       []foundViol      `json:"viols"`
	Known       map[string]int   `json:"known"`
	Capped      bool             `json:"capped"`
}

func histHash(h *History) uint64 {
	f := fnv.New64a()
	var b [8]byte
	put := func(v uint64) { binary.LittleEndian.PutUint64(b[:], v); f.Write(b[:]) }
	put(h.S.Hash())
	for _, d := range h.Dels {
		put(uint64(d.Seq))
		put(uint64(d.C)<<40 | uint64(d.Mask))
		put(uint64(d.Wd)<<32 | uint64(d.Ev))
		f.Write([]byte(d.Path))
		if d.Drop {
			put(7)
		}
	}
	for _, s := range h.Snaps {
		put(uint64(s.Seq))
		for _, w := range s.Watches {
			put(uint64(w.Wd)<<32 | uint64(w.Mask))
			f.Write([]byte(w.Path))
		}
	}
	for _, r := range h.Regs {
		put(uint64(r.End))
	}
	for _, s := range h.Stuck {
		f.Write([]byte(s))
	}
	f.Write([]byte(h.digest()))
	return f.Sum64()
}

func workMain(pr *Prop, base uint64, from, to, stride int, out string, limit int) {
	prog, err := os.OpenFile(out+".prog", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	hf, err := os.Create(out + ".hash")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	hw := bufio.NewWriter(hf)
	t0 := time.Now()
	res := workResult{Faults: map[string]int{}, Known: map[string]int{}, Extra: map[string]int64{}}
	sigs := map[string]int{}
	var buf [16]byte
	for i := from; i < to; i += stride {
		if time.Since(t0) > time.Duration(limit)*time.Second {
			res.Capped = true
			break
		}
		binary.LittleEndian.PutUint64(buf[:8], uint64(i)+1)
		prog.WriteAt(buf[:8], 0)
		p, sd := genFor(pr, base, i)
		h := Run(p, RunOpts{Seed: sd})
		vs, st := pr.evaluate(h)
		res.Runs++
		res.Ops += h.Ops
		res.OpErrs += h.OpErrs
		res.Notes += len(h.K.Notes)
		res.Obligations += st.Obligations
		for _, d := range h.Dels {
			if d.Drop {
				res.Drops++
			} else {
				res.Deliveries++
			}
		}
		res.WatchCalls += len(h.Regs)
		for _, r := range h.Regs {
			if r.Err != nil {
				res.WatchErrs++
			}
		}
		res.StopCalls += len(h.Stops)
		res.Quiescent += len(h.Snaps)
		res.SimNs += h.S.Now
		res.Switches += h.S.Switches
		res.Preempts += h.S.Preempts
		res.Goroutines += h.S.Spawned
		for k, n := range h.K.Fired {
			res.Faults[k] += n
		}
		for k, n := range h.extraCounts() {
			res.Extra[k] += n
		}
		if h.nontrivial() {
			res.Nontrivial++
			binary.LittleEndian.PutUint64(buf[:8], h.S.Hash())
			binary.LittleEndian.PutUint64(buf[8:], histHash(h))
			hw.Write(buf[:16])
		}
		if res.Runs%97 == 1 && res.Diverged == "" { // determinism: replaying the decisions repeats the run
			a := histHash(h)
			d := append([]sim.Decision{}, h.S.Decisions()...)
			h2 := Run(p, RunOpts{Seed: sd, Replay: true, Dec: d})
			if b := histHash(h2); a != b {
				res.Diverged = fmt.Sprintf("run %d (seed %d) does not replay", i, sd)
			}
			res.Rechecked++
			h2.S.Close()
		}
		for _, v := range vs {
			if k := pr.known(h, v); k != "" {
				res.Known[k]++
				continue
			}
			key := v.Cat + "/" + v.Sig
			sigs[key]++
			if sigs[key] <= 3 {
				res.Viols = append(res.Viols, foundViol{i, v.Cat, v.Sig, v.Msg, h.Ops})
			}
		}
		h.S.Close()
		if len(res.Viols) >= 3 {
			break
		}
	}
	hw.Flush()
	hf.Close()
	b := mustJSON(res)
	if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Rename(out+".tmp", out)
}

// Replay files -----------------------------------------------------------------------

type replayFile struct {
	Property  string         `json:"property"`
	Category  string         `json:"category"`
	Signature string         `json:"signature"`
	Message   string         `json:"message"`
	BaseSeed  uint64         `json:"base_seed"`
	Index     int            `json:"index"`
	Seed      uint64         `json:"seed"`
	Fatal     string         `json:"fatal,omitempty"` // the process itself dies
	FreshRun  bool           `json:"fresh_run,omitempty"`
	Program   *Program       `json:"program"`
	Decisions []sim.Decision `json:"decisions"`
	Hash      string         `json:"history_hash"`
	Steps     []string       `json:"workload"`
	Log       []string       `json:"log"`
}

func (p *Program) describe() (r []string) {
	for _, o := range p.Setup {
		r = append(r, "setup: "+o.String())
	}
	for i, c := range p.Chans {
		r = append(r, fmt.Sprintf("ch%d: capacity %d, receiver %s", i, c.Cap, c.Mode))
	}
	for i, ph := range p.Phases {
		if ph.Probe {
			r = append(r, fmt.Sprintf("phase %d: touch everything that exists", i+1))
		}
		for j, t := range ph.T {
			for _, o := range t {
				r = append(r, fmt.Sprintf("phase %d, caller %d: %s", i+1, j, o))
			}
		}
	}
	return
}

func minMain(pr *Prop, base uint64, idx int, sig, out string, limit int) int {
	p, sd := genFor(pr, base, idx)
	i := strings.IndexByte(sig, '/')
	s := &shrinker{pr: pr, cat: sig[:i], sig: sig[i+1:], deadline: time.Now().Add(time.Duration(limit) * time.Second)}
	s.known = func(Violation) bool { return false }
	cur := s.once(p, RunOpts{Seed: sd})
	if cur == nil {
		fmt.Fprintln(os.Stderr, "violation does not repeat")
		return 2
	}
	best := s.shrink(cur)
	for _, c := range []*repro{best, cur} {
		h := Run(c.prog, RunOpts{Seed: c.seed, Replay: true, Dec: c.dec, Log: true})
		v, ok := s.match(h)
		if !ok {
			h.S.Close()
			continue
		}
		rf := replayFile{Property: pr.ID, Category: v.Cat, Signature: v.Sig, Message: v.Msg, BaseSeed: base, Index: idx, Seed: c.seed, Program: c.prog, Decisions: c.dec, Hash: fmt.Sprintf("%016x", histHash(h)), Steps: c.prog.describe(), Log: h.Log}
		h.S.Close()
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return 0
	}
	return 2
}

// replayMain runs a replay file: exit 1 when it fails as recorded.
func replayMain(args []string, quiet bool) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: harness replay [-q] FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pr := Props[rf.Property]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		return 2
	}
	o := RunOpts{Seed: rf.Seed, Replay: !rf.FreshRun, Dec: rf.Decisions, Log: rf.Fatal == ""}
	h := Run(rf.Program, o)
	vs, _ := pr.evaluate(h)
	hash := fmt.Sprintf("%016x", histHash(h))
	if !quiet {
		for _, l := range rf.Program.describe() {
			fmt.Println(l)
		}
		for _, l := range h.Log {
			fmt.Println(l)
		}
	}
	h.S.Close()
	for _, v := range vs {
		if v.Cat == rf.Category && v.Sig == rf.Signature {
			fmt.Println(v)
			if hash != rf.Hash {
				fmt.Printf("REPRODUCED, but the history differs from the recorded one (%s, recorded %s): the code has changed\n", hash, rf.Hash)
				return 3
			}
			fmt.Println("REPRODUCED exactly, property", rf.Property)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

// The check --------------------------------------------------------------------------

type tierCfg struct{ runs, limit int }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func checkMain(pr *Prop) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	runs, limit := pr.Runs, 420
	if runs == 0 {
		runs = 160000
	}
	if tier == "thorough" {
		runs, limit = runs*20, 3000
	}
	runs = envInt("VERIF_RUNS", runs)
	limit = envInt("VERIF_LIMIT", limit)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "dst-"+pr.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	type worker struct {
		out      string
		cmd      *exec.Cmd
		done     chan error
		lastIdx  int
		lastTime time.Time
		errb     *bytes.Buffer
	}
	start := func(from, to, stride int, name string, lim int) *worker {
		w := &worker{out: filepath.Join(tmp, name), done: make(chan error, 1), lastTime: time.Now(), errb: &bytes.Buffer{}}
		w.cmd = exec.Command(self, "work", "-prop", pr.ID, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-stride", fmt.Sprint(stride), "-out", w.out, "-limit", fmt.Sprint(lim))
		w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		w.cmd.Stderr = w.errb
		w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := w.cmd.Start(); err != nil {
			w.done <- err
			return w
		}
		go func() { w.done <- w.cmd.Wait() }()
		return w
	}
	progress := func(w *worker) int {
		b, err := os.ReadFile(w.out + ".prog")
		if err != nil || len(b) < 8 {
			return -1
		}
		return int(binary.LittleEndian.Uint64(b)) - 1
	}
	// finish waits for w; it reports the run at which the process died or hung.
	finish := func(w *worker, hang time.Duration) (fatal string, at int) {
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case err := <-w.done:
				if err == nil {
					if _, e := os.Stat(w.out); e == nil {
						return "", 0
					}
					return "worker left no result", progress(w)
				}
				return "process died: " + clip(firstLines(w.errb.String()), 300), progress(w)
			case <-tick.C:
				if i := progress(w); i != w.lastIdx {
					w.lastIdx, w.lastTime = i, time.Now()
				} else if time.Since(w.lastTime) > hang {
					w.cmd.Process.Kill()
					<-w.done
					return "the goroutine never yields (endless loop)", i
				}
			}
		}
	}
	ws := make([]*worker, nw)
	for i := range ws {
		ws[i] = start(i, runs, nw, fmt.Sprintf("w%d", i), limit)
	}
	total := workResult{Faults: map[string]int{}, Known: map[string]int{}, Extra: map[string]int64{}}
	scheds, hists := map[uint64]bool{}, map[uint64]bool{}
	var viols []foundViol
	fatals := map[int]string{}
	type fin struct {
		f  string
		at int
	}
	fins := make([]chan fin, nw)
	for i, w := range ws {
		i, w := i, w
		fins[i] = make(chan fin, 1)
		go func() {
			f, at := finish(w, 90*time.Second)
			fins[i] <- fin{f, at}
		}()
	}
	for i, w := range ws {
		f := <-fins[i]
		if f.f != "" {
			fatals[f.at] = f.f
		}
		b, err := os.ReadFile(w.out)
		if err != nil {
			continue
		}
		var r workResult
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		addResult(&total, &r)
		viols = append(viols, r.Viols...)
		if hb, err := os.ReadFile(w.out + ".hash"); err == nil {
			for ; len(hb) >= 16; hb = hb[16:] {
				scheds[binary.LittleEndian.Uint64(hb)] = true
				hists[binary.LittleEndian.Uint64(hb[8:])] = true
			}
		}
	}
	if total.Diverged != "" {
		fmt.Fprintln(os.Stderr, "ERROR: the simulation is not deterministic:", total.Diverged)
		return 2
	}
	rdir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(rdir, 0o755)
	nviol := 0
	report := func(path, msg string) {
		nviol++
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
	}
	// processes that died: confirm in a fresh one
	var fk []int
	for i := range fatals {
		fk = append(fk, i)
	}
	sort.Ints(fk)
	for n, i := range fk {
		if n >= 2 {
			break
		}
		if i < 0 {
			fmt.Fprintln(os.Stderr, "ERROR: worker failed:", fatals[i])
			return 2
		}
		w := start(i, i+1, 1, fmt.Sprintf("f%d", i), 300)
		f, _ := finish(w, 60*time.Second)
		if f == "" {
			fmt.Fprintf(os.Stderr, "ERROR: worker failed at run %d (%s), not confirmed on its own\n", i, fatals[i])
			return 2
		}
		p, sd := genFor(pr, seed, i)
		rf := replayFile{Property: pr.ID, Category: "panic", Signature: "fatal", Message: f, BaseSeed: seed, Index: i, Seed: sd, Fatal: f, FreshRun: true, Program: p, Steps: p.describe()}
		path := filepath.Join(rdir, fmt.Sprintf("%s-fatal-%d.json", pr.ID, i))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		report(path, fmt.Sprintf("run %d (seed %d): %s", i, sd, f))
	}
	// violations: minimise the smallest of each kind
	sort.Slice(viols, func(a, b int) bool {
		if viols[a].Ops != viols[b].Ops {
			return viols[a].Ops < viols[b].Ops
		}
		return viols[a].Index < viols[b].Index
	})
	done := map[string]bool{}
	var vlist []map[string]any
	for _, v := range viols {
		key := v.Cat + "/" + v.Sig
		if done[key] || len(done) >= 2 {
			continue
		}
		done[key] = true
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", pr.ID, slug(key), v.Index))
		c := exec.Command(self, "min", "-prop", pr.ID, "-seed", fmt.Sprint(seed), "-i", fmt.Sprint(v.Index), "-sig", key, "-out", path, "-limit", fmt.Sprint(envInt("VERIF_MIN", 40)))
		c.Env = append(os.Environ(), "GOMAXPROCS=2")
		out, err := c.CombinedOutput()
		if err != nil {
			fmt.Fprintf(os.Stderr, "ERROR: run %d: %s does not repeat in a fresh process: %v %s\n", v.Index, key, err, out)
			return 2
		}
		// the file must reproduce exactly, in a fresh process
		c = exec.Command(self, "replay", "-q", path)
		out, err = c.CombinedOutput()
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			fmt.Fprintf(os.Stderr, "ERROR: replay file %s does not reproduce: %v %s\n", path, err, out)
			return 2
		}
		var rf replayFile
		if b, err := os.ReadFile(path); err == nil {
			json.Unmarshal(b, &rf)
		}
		fmt.Printf("run %d: [%s] %s\n", v.Index, key, rf.Message)
		fmt.Println("minimised workload:")
		for _, l := range rf.Steps {
			fmt.Println("  " + l)
		}
		report(path, fmt.Sprintf("seed %d, %d scheduling decisions kept", rf.Seed, len(rf.Decisions)))
		vlist = append(vlist, map[string]any{"category": v.Cat, "signature": v.Sig, "message": clip(rf.Message, 600), "replay": path, "workload": rf.Steps})
	}
	for _, k := range loadKnown() {
		if k.Property == pr.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d times in this run)\n", pr.ID, k.Text, total.Known[k.ID])
		}
	}
	wall := time.Since(t0).Seconds()
	if err := writeEvidence(pr, tier, seed, wall, &total, len(scheds), len(hists), nviol, vlist, nw); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	fmt.Printf("%s: %d simulated runs, %d distinct histories, %d violations, %.1fs\n", pr.ID, total.Runs, len(hists), nviol, wall)
	if nviol > 0 {
		return 1
	}
	if total.Runs < 200 {
		fmt.Fprintln(os.Stderr, "ERROR: too few runs completed to say anything")
		return 2
	}
	return 0
}

func slug(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		} else {
			b.WriteByte('-')
		}
	}
	return clip(b.String(), 40)
}

func firstLines(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 4 {
		l = l[:4]
	}
	return strings.Join(l, " | ")
}

func addResult(t, r *workResult) {
	t.Runs += r.Runs
	t.Ops += r.Ops
	t.OpErrs += r.OpErrs
	t.Deliveries += r.Deliveries
	t.Drops += r.Drops
	t.Obligations += r.Obligations
	t.Notes += r.Notes
	t.WatchCalls += r.WatchCalls
	t.WatchErrs += r.WatchErrs
	t.StopCalls += r.StopCalls
	t.Quiescent += r.Quiescent
	t.SimNs += r.SimNs
	t.Switches += r.Switches
	t.Preempts += r.Preempts
	t.Goroutines += r.Goroutines
	t.Nontrivial += r.Nontrivial
	t.Rechecked += r.Rechecked
	if r.Diverged != "" {
		t.Diverged = r.Diverged
	}
	t.Capped = t.Capped || r.Capped
	for k, n := range r.Faults {
		t.Faults[k] += n
	}
	for k, n := range r.Extra {
		t.Extra[k] += n
	}
	for k, n := range r.Known {
		t.Known[k] += n
	}
}

func writeEvidence(pr *Prop, tier string, seed uint64, wall float64, t *workResult, scheds, hists, nviol int, vl []map[string]any, nw int) error {
	var samples []any
	for i := 0; i < 3; i++ {
		p, sd := genFor(pr, seed, i)
		h := Run(p, RunOpts{Seed: sd})
		vs, st := pr.evaluate(h)
		var steps []string
		for _, l := range p.describe() {
			steps = append(steps, l)
			if len(steps) == 40 {
				steps = append(steps, "...")
				break
			}
		}
		var dl []string
		for _, d := range h.Dels {
			if len(dl) == 6 {
				break
			}
			dl = append(dl, d.String())
		}
		samples = append(samples, map[string]any{"run": i, "seed": sd, "policy": p.Policy.Mode, "workload": steps, "interleaving": fmt.Sprintf("%016x", h.S.Hash()), "switches": h.S.Switches, "deliveries": len(h.Dels), "first_deliveries": dl, "obligations": st.Obligations, "violations": len(vs)})
		h.S.Close()
	}
	if vl == nil {
		vl = []map[string]any{}
	}
	ex := map[string]any{}
	for k, n := range t.Extra {
		ex[k] = n
	}
	ev := map[string]any{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round1(wall),
		"violations":  nviol,
		"assumptions": pr.assumptions(),
		"coverage": map[string]any{
			"evaluations":                   t.Runs,
			"distinct_nontrivial":           hists,
			"rule":                          "One evaluation is one simulated execution of a generated workload under one generated schedule and fault sequence. It counts as distinct and non-trivial when it performed at least one successful Watch and at least one OS notification, API call conflict or fault reached the package, and its full history (schedule, deliveries, OS watch tables, call returns) hashes to a value not seen before in this run.",
			"samples":                       samples,
			"distinct_interleavings":        scheds,
			"interleaving_measure":          "64-bit rolling hash over the sequence of (task switched to, reason) of a run; distinct values among the non-trivial runs",
			"runs_per_hour":                 int(float64(t.Runs) / wall * 3600),
			"seeds_per_hour":                int(float64(t.Runs) / wall * 3600),
			"worker_processes":              nw,
			"simulated_seconds":             float64(t.SimNs) / 1e9,
			"task_switches":                 t.Switches,
			"preemptions":                   t.Preempts,
			"goroutines_simulated":          t.Goroutines,
			"faults_fired":                  t.Faults,
			"workload_operations":           t.Ops,
			"watch_calls":                   t.WatchCalls,
			"watch_calls_failed":            t.WatchErrs,
			"stop_calls":                    t.StopCalls,
			"os_change_notes":               t.Notes,
			"events_delivered":              t.Deliveries,
			"events_dropped_full":           t.Drops,
			"delivery_obligations_checked":  t.Obligations,
			"quiescent_points_checked":      t.Quiescent,
			"runs_replayed_for_determinism": t.Rechecked,
			"other_counts":                  ex,
			"known_findings_hit":            t.Known,
			"time_cap_reached":              t.Capped,
			"violations_found":              vl,
			"components_real":               pr.real(),
			"components_stub":               pr.stubs(),
		},
	}
	dir := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	tmp := filepath.Join(dir, "."+pr.ID+".tmp")
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, filepath.Join(dir, pr.ID+".json"))
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }

// nontrivial: something happened that a property could fail on.
func (h *History) nontrivial() bool {
	if h.rt != nil {
		return h.rt.nontrivial()
	}
	if h.wt != nil {
		return len(h.K.Queue) > 0 && len(h.wt.calls) > 1
	}
	ok := false
	for _, r := range h.Regs {
		if r.Err == nil && r.End != 0 {
			ok = true
		}
	}
	return ok && (len(h.K.Queue) > 0 || len(h.K.Fired) > 0 || len(h.Stops) > 0)
}

func (pr *Prop) assumptions() []string {
	a := []string{
		"The simulated kernel models Linux inotify, epoll, pipes and the file tree; its inotify semantics were compared with the real kernel by src/conform.",
		"The package is compiled from the working tree by a source rewriter that sends goroutines, channels, locks, time, randomness, map order and system calls to the simulator; everything else is the code as it is.",
		"Seeded sampling: a clean batch is evidence, not proof.",
	}
	return a
}

func (pr *Prop) real() []string {
	if pr.Kind == "rtree" {
		return []string{"recursive tree (tree_recursive.go)", "watchpoints (watchpoint.go)", "node tree (node.go)", "event kinds (event.go)"}
	}
	if pr.Kind == "watcher" {
		return []string{"inotify watcher (watcher_inotify.go)", "event kinds (event.go)"}
	}
	return []string{"public API (notify.go)", "non-recursive tree (tree_nonrecursive.go)", "watchpoints (watchpoint.go)", "node tree (node.go)", "path handling (util.go)", "inotify watcher (watcher_inotify.go)", "event kinds (event.go)"}
}

func (pr *Prop) stubs() []string {
	s := []string{"Go scheduler, channels, locks and WaitGroups", "clock and timers", "math/rand and map iteration order"}
	if pr.Kind == "rtree" {
		return append(s, "the natively recursive OS watcher (simulated, in the style of FSEvents and ReadDirectoryChangesW)")
	}
	return append(s, "Linux kernel: inotify, epoll, pipe, file descriptors, directories, symbolic links")
}

func (h *History) digest() string { return "" }

func (h *History) extraCounts() map[string]int64 {
	m := map[string]int64{}
	if h.rt != nil {
		m["os_watcher_requests"] = int64(h.rt.reqs)
		m["os_watcher_notifications"] = int64(len(h.rt.notes))
		m["changes_made"] = int64(len(h.rt.changes))
	}
	if h.Orders > 0 {
		m["orders_of_concurrent_calls_considered"] = h.Orders
	}
	if h.wt != nil {
		for _, c := range h.wt.calls {
			m["watcher_"+c.k[3:]]++
		}
	}
	return m
}

func (pr *Prop) known(h *History, v Violation) string { return "" }
