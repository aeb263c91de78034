package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	rt "github.com/lkmio/avformat/verifsimrt"
)

// Exit codes of the driver: 0 property held on everything explored, 1 violation, 3 the check itself failed.

func main() {
	if len(os.Args) < 2 {
		fail("usage: sim check|worker|shrink|replay ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Int64("seed", 1, "VERIF_SEED")
	from := fs.Int("from", 0, "first run")
	to := fs.Int("to", 0, "last run + 1")
	runs := fs.Int("runs", 0, "override the number of runs")
	workers := fs.Int("workers", 0, "parallel worker processes")
	root := fs.String("root", ".", "where evidence and replay files go")
	file := fs.String("file", "", "replay file")
	kind := fs.String("kind", "", "violation kind")
	trace := fs.Bool("trace", false, "print the event log")
	noshrink := fs.Bool("noshrink", false, "do not minimise")
	all := fs.Bool("all", false, "list every violation kind found instead of stopping at the first (for development)")
	_ = fs.Parse(os.Args[2:])
	runtime.GOMAXPROCS(2)
	if cmd == "worker" || cmd == "replay" || cmd == "shrink" {
		// memory that grows without end ends this process, not the machine
		const rlimitData = 2
		lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
		_ = syscall.Setrlimit(rlimitData, &lim)
	}
	switch cmd {
	case "check":
		d := &driver{prop: *prop, tier: *tier, seed: *seed, runs: *runs, workers: *workers, root: *root, noshrink: *noshrink, all: *all}
		d.run()
	case "worker":
		worker(*prop, *tier, *seed, *from, *to, *root, *all)
	case "shrink":
		shrinkCmd(*file, *kind)
	case "replay":
		os.Exit(replayCmd(*file, *trace))
	case "gen":
		r := NewRng(*seed, *prop, *from)
		os.Stdout.Write(toJSON(props[*prop].world.Gen(r, *prop, *tier == "thorough")))
	case "props":
		fmt.Println(strings.Join(propIDs(), "\n"))
	default:
		fail("unknown command " + cmd)
	}
}

func fail(msg string) {
	fmt.Fprintln(os.Stderr, "sim: "+msg)
	os.Exit(3)
}

// ---- replay files ----

type Replay struct {
	Property  string            `json:"property"`
	Kind      string            `json:"kind"`
	Message   string            `json:"message"`
	Seed      int64             `json:"seed"`
	Tier      string            `json:"tier"`
	Run       int               `json:"run"`
	Level     int               `json:"instrumentation_level"`
	Minimised bool              `json:"minimised"`
	Note      string            `json:"note,omitempty"`
	History   []json.RawMessage `json:"history,omitempty"` // runs executed before it in the same process, if they matter
	Scenario  json.RawMessage   `json:"scenario"`
	Trace     []string          `json:"trace,omitempty"` // event log of the violating run, for reading
}

func readReplay(file string) *Replay {
	data, err := os.ReadFile(file)
	if err != nil {
		fail(err.Error())
	}
	r := &Replay{}
	if err := json.Unmarshal(data, r); err != nil {
		fail(err.Error())
	}
	if props[r.Property].world == nil {
		fail("replay file of unknown property " + r.Property)
	}
	return r
}

func writeJSON(file string, v interface{}) {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(v); err != nil {
		fail(err.Error())
	}
	tmp := file + ".tmp"
	if err := os.WriteFile(tmp, buf.Bytes(), 0644); err != nil {
		fail(err.Error())
	}
	if err := os.Rename(tmp, file); err != nil {
		fail(err.Error())
	}
}

func replayCmd(file string, trace bool) int {
	r := readReplay(file)
	w := props[r.Property].world
	for _, h := range r.History {
		runOne(w, fromJSON(w, h), r.Property, false)
	}
	o := runOne(w, fromJSON(w, r.Scenario), r.Property, true)
	if trace {
		fmt.Print(o.text.String())
	}
	if v := o.Find(r.Property, r.Kind); v != nil {
		fmt.Printf("reproduced property=%s kind=%s: %s\nevent-log-hash=%016x\n", v.Prop, v.Kind, v.Msg, o.hash)
		return 1
	}
	fmt.Printf("not reproduced property=%s kind=%s\nevent-log-hash=%016x\n", r.Property, r.Kind, o.hash)
	return 0
}

func shrinkCmd(file, kind string) {
	r := readReplay(file)
	w := props[r.Property].world
	out, tries := shrink(w, r.Scenario, r.Property, r.Kind, 25*time.Second)
	o := runOne(w, fromJSON(w, out), r.Property, true)
	v := o.Find(r.Property, r.Kind)
	if v == nil {
		fail("minimised scenario does not fail")
	}
	r.Scenario, r.Minimised, r.Message = out, true, v.Msg
	r.Note = fmt.Sprintf("minimised in %d executions", tries)
	lines := strings.Split(strings.TrimSpace(o.text.String()), "\n")
	if len(lines) > 400 {
		lines = append(lines[:400], "...")
	}
	r.Trace = lines
	writeJSON(file, r)
}

// ---- worker ----

type chunkResult struct {
	From, To  int
	Done      int
	Hashes    []uint64
	Traces    []uint64
	Trivial   int
	Stats     map[string]int
	SimMs     int64
	Steps     uint64
	Switches  int
	Fail      *Violation
	FailRun   int
	Known     map[string]int
	Others    map[string]int // violations of other properties met on the way (reported by their own checks)
	All       map[string]string
	Sample    json.RawMessage
	Harness   string
	SampleRun int
}

func worker(prop, tier string, seed int64, from, to int, root string, all bool) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	def, ok := props[prop]
	if !ok {
		fail("unknown property " + prop)
	}
	known := loadKnown(root, prop)
	res := &chunkResult{From: from, To: to, Stats: map[string]int{}, Known: map[string]int{}, Others: map[string]int{}, All: map[string]string{}, FailRun: -1}
	progress, _ := os.OpenFile(os.Getenv("SIM_PROGRESS"), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
	defer func() {
		if r := recover(); r != nil {
			res.Harness = fmt.Sprintf("run %d: %v", from+res.Done, r)
			if _, ok := r.(HarnessError); !ok {
				res.Harness += "\n" + string(debug.Stack())
			}
		}
		b, _ := json.Marshal(res)
		os.Stdout.Write(b)
	}()
	for i := from; i < to; i++ {
		if progress != nil {
			_, _ = progress.WriteAt([]byte(fmt.Sprintf("%10d", i)), 0)
		}
		sc := def.world.Gen(NewRng(seed, prop, i), prop, tier == "thorough")
		s0 := rt.Steps
		o := runOne(def.world, sc, prop, false)
		_ = s0
		res.Done++
		if o.Inconcl != "" {
			res.Stats["inconclusive: "+o.Inconcl]++
		}
		if o.Trivial {
			res.Trivial++
		} else {
			res.Hashes = append(res.Hashes, o.hash)
			if o.Trace != 0 {
				res.Traces = append(res.Traces, o.Trace)
			}
			if res.Sample == nil && len(o.V) == 0 {
				if b := toJSON(sc); len(b) < 6000 {
					res.Sample, res.SampleRun = b, i
				}
			}
		}
		for k, v := range o.Stats {
			res.Stats[k] += v
		}
		res.SimMs += o.SimMs
		res.Steps += rt.Steps
		res.Switches += o.Switches
		for j := range o.V {
			v := o.V[j]
			if all {
				k := v.Prop + "/" + v.Kind
				if res.All[k] == "" {
					res.All[k] = fmt.Sprintf("run %d: %s", i, v.Msg)
				}
				continue
			}
			if v.Prop != prop {
				res.Others[v.Prop+"/"+v.Kind]++
				continue
			}
			if k := matchKnown(known, v); k != "" {
				res.Known[k]++
				continue
			}
			if res.Fail == nil {
				res.Fail, res.FailRun = &v, i
			}
		}
		if res.Fail != nil {
			return
		}
	}
}

// ---- known findings ----

type knownFinding struct{ prop, kind, sub, text string }

func loadKnown(root, prop string) []knownFinding {
	data, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var res []knownFinding
	for _, l := range strings.Split(string(data), "\n") {
		// known: property=ID kind=KIND match="..." text
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		k := knownFinding{prop: prop}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		if strings.HasPrefix(rest, "kind=") {
			f := strings.SplitN(strings.TrimPrefix(rest, "kind="), " ", 2)
			k.kind = f[0]
			if len(f) > 1 {
				rest = f[1]
			}
		}
		if strings.HasPrefix(rest, "match=\"") {
			f := strings.SplitN(strings.TrimPrefix(rest, "match=\""), "\"", 2)
			k.sub = f[0]
			if len(f) > 1 {
				rest = strings.TrimSpace(f[1])
			}
		}
		k.text = rest
		res = append(res, k)
	}
	return res
}

func matchKnown(ks []knownFinding, v Violation) string {
	for _, k := range ks {
		if k.prop == v.Prop && k.kind == v.Kind && strings.Contains(v.Msg, k.sub) {
			return k.text
		}
	}
	return ""
}

// ---- driver ----

type driver struct {
	prop, tier string
	seed       int64
	runs       int
	workers    int
	root       string
	noshrink   bool
	all        bool
}

func (d *driver) exe() string {
	p, err := os.Executable()
	if err != nil {
		fail(err.Error())
	}
	return p
}

func (d *driver) chunk(from, to int, dir string) (*chunkResult, error) {
	prog := filepath.Join(dir, fmt.Sprintf("progress.%d", from))
	args := []string{"worker", "-prop", d.prop, "-tier", d.tier, "-seed", fmt.Sprint(d.seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-root", d.root}
	if d.all {
		args = append(args, "-all")
	}
	c := exec.Command(d.exe(), args...)
	c.Env = append(os.Environ(), "SIM_PROGRESS="+prog)
	var out bytes.Buffer
	errb := headBuffer{max: 1 << 16}
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(240*time.Second, func() { _ = c.Process.Kill() })
	err := c.Wait()
	timer.Stop()
	res := &chunkResult{}
	if err != nil || json.Unmarshal(out.Bytes(), res) != nil {
		run := from
		if b, e := os.ReadFile(prog); e == nil {
			fmt.Sscan(string(b), &run)
		}
		es := string(errb.b)
		// the process died: a fatal runtime error inside the code under test cannot be recovered from
		if strings.Contains(es, "fatal error:") || strings.Contains(es, "runtime: goroutine stack exceeds") {
			if inLib(es) {
				return &chunkResult{From: from, To: to, Done: run - from + 1, FailRun: run, Fail: &Violation{d.prop, "fatal", "the process died: " + firstLines(es, 3)}}, nil
			}
		}
		return nil, fmt.Errorf("worker %d..%d died at run %d: %v\n%s", from, to, run, err, es[:minI(len(es), 3000)])
	}
	_ = os.Remove(prog)
	if res.Harness != "" {
		return nil, fmt.Errorf("harness error, seed %d property %s %s", d.seed, d.prop, res.Harness)
	}
	return res, nil
}

// headBuffer keeps the first bytes written to it.
type headBuffer struct {
	b   []byte
	max int
}

func (h *headBuffer) Write(p []byte) (int, error) {
	h.b = append(h.b, p[:minI(len(p), h.max-len(h.b))]...)
	return len(p), nil
}

func inLib(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, rt.LibPrefix) && !strings.HasPrefix(l, rt.LibPrefix+"/verifsimrt") {
			return true
		}
	}
	return false
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "; ")
}

func (d *driver) run() {
	start := time.Now()
	def, ok := props[d.prop]
	if !ok {
		fail("unknown property " + d.prop)
	}
	total := def.quick
	if d.tier == "thorough" {
		total = minI(total*40, 25000000)
	}
	if d.runs > 0 {
		total = d.runs
	}
	nw := d.workers
	if nw <= 0 {
		nw = runtime.NumCPU()
	}
	wall := 420 * time.Second
	if d.tier == "thorough" {
		wall = 3 * time.Hour
	}
	dir, err := os.MkdirTemp("", "simrun")
	if err != nil {
		fail(err.Error())
	}
	defer os.RemoveAll(dir)
	fmt.Printf("seed=%d property=%s tier=%s runs=%d level=%d\n", d.seed, d.prop, d.tier, total, rt.Level)

	type job struct{ from, to int }
	var jobs []job
	for f := 0; f < total; f += def.chunk {
		jobs = append(jobs, job{f, minI(f+def.chunk, total)})
	}
	results := make([]*chunkResult, len(jobs))
	var mu sync.Mutex
	nextJob, firstFail := 0, len(jobs)
	var hardErr error
	stopped := false
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if hardErr != nil || nextJob >= len(jobs) || nextJob > firstFail {
					mu.Unlock()
					return
				}
				if time.Since(start) > wall {
					stopped = true
					mu.Unlock()
					return
				}
				j := nextJob
				nextJob++
				mu.Unlock()
				r, err := d.chunk(jobs[j].from, jobs[j].to, dir)
				if err != nil { // once more: trouble of the machine must not decide anything
					r, err = d.chunk(jobs[j].from, jobs[j].to, dir)
				}
				mu.Lock()
				if err != nil {
					hardErr = err
				} else {
					results[j] = r
					if r.Fail != nil && j < firstFail {
						firstFail = j
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if hardErr != nil && firstFail == len(jobs) {
		os.RemoveAll(dir)
		fail(hardErr.Error())
	}

	// merge, deterministically: everything up to and including the first failing chunk
	hashes, traces := map[uint64]bool{}, map[uint64]bool{}
	stats, others, knownHits, allKinds := map[string]int{}, map[string]int{}, map[string]int{}, map[string]string{}
	var done, trivial, switches int
	var simMs int64
	var steps uint64
	var samples []interface{}
	var failure *chunkResult
	for j, r := range results {
		if j > firstFail {
			break
		}
		if r == nil {
			continue
		}
		done += r.Done
		trivial += r.Trivial
		switches += r.Switches
		simMs += r.SimMs
		steps += r.Steps
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		for _, h := range r.Traces {
			traces[h] = true
		}
		for k, v := range r.Stats {
			stats[k] += v
		}
		for k, v := range r.Others {
			others[k] += v
		}
		for k, v := range r.Known {
			knownHits[k] += v
		}
		for k, v := range r.All {
			if allKinds[k] == "" {
				allKinds[k] = v
			}
		}
		if r.Sample != nil && len(samples) < 3 {
			samples = append(samples, map[string]interface{}{"run": r.SampleRun, "scenario": r.Sample})
		}
		if j == firstFail && r.Fail != nil {
			failure = r
		}
	}
	if d.all {
		var ks []string
		for k := range allKinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("%s  %s\n", k, allKinds[k])
		}
	}

	// determinism audit: a sample of chunks once more, in other processes, in the opposite order
	audited, mismatched := 0, 0
	if failure == nil && hardErr == nil {
		n := 4
		if d.tier == "thorough" {
			n = 40
		}
		step := maxI(1, len(jobs)/n)
		var awg sync.WaitGroup
		sem := make(chan struct{}, maxI(1, nw/2))
		for j := len(jobs) - 1; j >= 0; j -= step {
			if results[j] == nil {
				continue
			}
			awg.Add(1)
			sem <- struct{}{}
			go func(j int) {
				defer awg.Done()
				defer func() { <-sem }()
				r, err := d.chunk(jobs[j].from, jobs[j].to, dir)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					hardErr = err
					return
				}
				audited += r.Done
				if fmt.Sprint(r.Hashes, r.Trivial, r.Traces) != fmt.Sprint(results[j].Hashes, results[j].Trivial, results[j].Traces) {
					mismatched++
				}
			}(j)
		}
		awg.Wait()
		if hardErr != nil {
			os.RemoveAll(dir)
			fail(hardErr.Error())
		}
		if mismatched > 0 {
			fmt.Fprintf(os.Stderr, "sim: WARNING: %d audited chunks did not repeat exactly\n", mismatched)
		}
	}

	violations := 0
	replayPath := ""
	if failure != nil {
		violations = 1
		replayPath = d.report(def, failure)
	}
	el := time.Since(start).Seconds()
	cov := map[string]interface{}{
		"evaluations":                done,
		"distinct_nontrivial":        len(hashes),
		"rule":                       worldRule(def.world, d.prop),
		"samples":                    samples,
		"simulated_runs":             done,
		"runs_planned":               total,
		"trivial_runs":               trivial,
		"simulated_runs_per_hour":    int(float64(done) / el * 3600),
		"simulated_time_ms":          simMs,
		"statements_simulated":       steps,
		"preemptions_taken":          switches,
		"distinct_interleavings":     len(traces),
		"faults_and_probes":          stats,
		"determinism_audit":          map[string]int{"runs_repeated_in_another_process": audited, "chunks_that_differed": mismatched},
		"stopped_by_wall_clock":      stopped,
		"components_real":            worldReal(def.world),
		"components_stub":            worldStub(def.world),
		"instrumentation_level":      rt.Level,
		"violations_of_other_checks": others,
		"known_findings_hit":         knownHits,
		"seeds":                      fmt.Sprintf("VERIF_SEED=%d, run seeds 0..%d derived from it", d.seed, total-1),
	}
	if samples == nil {
		cov["samples"] = []interface{}{"none without violation"}
	}
	ev := map[string]interface{}{"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration", "coverage": cov, "wall_s": float64(int(el*100)) / 100, "violations": violations,
		"assumptions": []string{"sampled, not exhaustive: seeded search over the scenario space of this world", "the build-time instrumenter keeps the semantics of the code apart from the redirected environment calls"}}
	_ = os.MkdirAll(filepath.Join(d.root, "evidence"), 0755)
	writeJSON(filepath.Join(d.root, "evidence", d.prop+".json"), ev)

	for _, k := range loadKnown(d.root, d.prop) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.text)
	}
	fmt.Printf("property=%s runs=%d distinct=%d trivial=%d preemptions=%d interleavings=%d simulated_ms=%d audited=%d differed=%d wall=%.1fs\n", d.prop, done, len(hashes), trivial, switches, len(traces), simMs, audited, mismatched, el)
	if len(stats) > 0 {
		var ks []string
		for k := range stats {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		for _, k := range ks {
			fmt.Fprintf(&sb, " %s=%d", strings.ReplaceAll(k, " ", "_"), stats[k])
		}
		fmt.Println("fired:" + sb.String())
	}
	os.RemoveAll(dir)
	if failure != nil {
		fmt.Printf("violation: kind=%s run=%d %s\n", failure.Fail.Kind, failure.FailRun, failure.Fail.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, replayPath)
		os.Exit(1)
	}
}

// report writes the replay file: first the failing run alone in a fresh process; if the failure needs what earlier
// runs left behind in the process, those runs too (minimised).
func (d *driver) report(def propDef, r *chunkResult) string {
	big := d.tier == "thorough"
	gen := func(i int) json.RawMessage { return toJSON(def.world.Gen(NewRng(d.seed, d.prop, i), d.prop, big)) }
	_ = os.MkdirAll(filepath.Join(d.root, "replays"), 0755)
	path := filepath.Join(d.root, "replays", fmt.Sprintf("%s-%d-%d.json", d.prop, d.seed, r.FailRun))
	rep := &Replay{Property: d.prop, Kind: r.Fail.Kind, Message: r.Fail.Msg, Seed: d.seed, Tier: d.tier, Run: r.FailRun, Level: rt.Level, Scenario: gen(r.FailRun)}
	try := func() bool {
		writeJSON(path, rep)
		c := exec.Command(d.exe(), "replay", "-file", path)
		timer := time.AfterFunc(120*time.Second, func() {
			if c.Process != nil {
				_ = c.Process.Kill()
			}
		})
		defer timer.Stop()
		err := c.Run()
		ee, ok := err.(*exec.ExitError)
		if r.Fail.Kind == "fatal" {
			return err != nil
		}
		return ok && ee.ExitCode() == 1
	}
	if try() {
		if d.noshrink || r.Fail.Kind == "fatal" {
			return path
		}
		orig := *rep
		c := exec.Command(d.exe(), "shrink", "-file", path)
		if err := c.Run(); err == nil {
			min := readReplay(path)
			rep = min
			if try() {
				return path
			}
		}
		rep = &orig
		rep.Note = "minimised form did not reproduce in a fresh process; this is the original scenario"
		writeJSON(path, rep)
		return path
	}
	// needs history
	for i := r.From; i < r.FailRun; i++ {
		rep.History = append(rep.History, gen(i))
	}
	rep.Note = "needs the state earlier runs left in the process"
	if !try() {
		rep.Note = "did not reproduce in a fresh process: the code under test uses a source of nondeterminism outside the simulator"
		writeJSON(path, rep)
		return path
	}
	deadline := time.Now().Add(40 * time.Second)
	cur := rep.History
	for n := maxI(1, len(cur)/2); n >= 1 && time.Now().Before(deadline); n /= 2 {
		for i := 0; i < len(cur) && time.Now().Before(deadline); {
			j := minI(i+n, len(cur))
			rep.History = append(append([]json.RawMessage{}, cur[:i]...), cur[j:]...)
			if try() {
				cur = rep.History
			} else {
				i = j
			}
		}
	}
	rep.History = cur
	writeJSON(path, rep)
	return path
}

type described interface {
	Rule(prop string) string
	Real() []string
	Stub() []string
}

func worldRule(w World, prop string) string {
	if x, ok := w.(described); ok {
		return x.Rule(prop)
	}
	return ""
}
func worldReal(w World) []string {
	if x, ok := w.(described); ok {
		return x.Real()
	}
	return nil
}
func worldStub(w World) []string {
	if x, ok := w.(described); ok {
		return x.Stub()
	}
	return nil
}
