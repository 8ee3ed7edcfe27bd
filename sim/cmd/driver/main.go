// Command driver builds the simulation from /repo's working tree, searches
// seeds for a violation of one property, minimises and replays what it finds,
// and writes the evidence.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// RunSpec, Violation and Stats mirror the worker's report.
type RunSpec struct {
	Seed    uint64     `json:"seed"`
	Index   int64      `json:"index"`
	Choices [][]uint32 `json:"choices,omitempty"`
}

type Violation struct {
	Kind    string     `json:"kind"`
	Msg     string     `json:"message"`
	Run     RunSpec    `json:"run"`
	Trace   []string   `json:"trace"`
	Hash    string     `json:"hash"`
	Sample  string     `json:"workload"`
	Steps   int64      `json:"steps"`
	Harness bool       `json:"harness_fault,omitempty"`
	Prefix  []RunSpec  `json:"prefix,omitempty"`
	Used    [][]uint32 `json:"used,omitempty"`
}

type Stats struct {
	Prop       string           `json:"prop"`
	Runs       int64            `json:"runs"`
	Ops        int64            `json:"ops"`
	Checked    int64            `json:"checked"`
	Steps      int64            `json:"steps"`
	SimNS      int64            `json:"sim_ns"`
	Switches   int64            `json:"switches"`
	Preempts   int64            `json:"preempts"`
	MultiTask  int64            `json:"multi_task_runs"`
	Faults     map[string]int64 `json:"faults"`
	FaultRuns  map[string]int64 `json:"fault_runs"`
	Probes     map[string]int64 `json:"probes"`
	Scheds     []uint64         `json:"scheds"`
	Nontrivial []uint64         `json:"nontrivial"`
	Pairs      []uint64         `json:"pairs"`
	Sites      []uint32         `json:"sites"`
	Hash       string           `json:"hash"`
	Samples    []string         `json:"samples"`
	Race       bool             `json:"race"`
	Violation  *Violation       `json:"violation,omitempty"`
	NextIndex  int64            `json:"next_index"`
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property    string    `json:"property"`
	Race        bool      `json:"race_detector"`
	BaseSeed    int64     `json:"base_seed"`
	Runs        []RunSpec `json:"runs"`
	Kind        string    `json:"kind"`
	Message     string    `json:"message"`
	Workload    string    `json:"workload"`
	Hash        string    `json:"event_hash"`
	Steps       int64     `json:"library_steps"`
	Original    RunSpec   `json:"found_in_run"`
	OrigChoices int       `json:"choices_before_minimising"`
	Choices     int       `json:"choices"`
	Trace       []string  `json:"schedule_and_fault_trace"`
}

var streamNames = []string{"workload", "schedule", "faults", "disk", "random", "map-order", "pool", "clock"}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", args...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

type driver struct {
	prop     string
	cfg      propConfig
	tier     string
	seed     int64
	verif    string
	repo     string
	w        string
	plain    string
	race     string
	sites    int
	siteName map[uint32]string
	start    time.Time
	buildS   float64
}

func (d *driver) elapsed() float64 { return time.Since(d.start).Seconds() }

func (d *driver) cmd(dir string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
	return nil
}

// build instruments the working tree and compiles the harness around it.
func (d *driver) build(needRace bool) {
	t0 := time.Now()
	w := d.w
	must := func(err error) {
		if err != nil {
			fatal("%v", err)
		}
	}
	instr := filepath.Join(w, "instr")
	must(d.cmd(filepath.Join(d.verif, "sim"), "go", "build", "-o", instr, "./cmd/instr"))
	r2 := d.regexp2Dir()
	must(d.cmd(w, instr, "-src", d.repo, "-dst", w+"/repo", "-sites", w+"/sites.txt"))
	must(d.cmd(w, instr, "-src", r2, "-dst", w+"/regexp2", "-mod", "github.com/dlclark/regexp2", "-light", "-base", "100000",
		"-sites", w+"/sites2.txt", "-knob", "const timeoutCheckFrequency int = 1000=>const timeoutCheckFrequency int = 4"))
	must(copyRef(r2, w+"/ref2"))
	mod, err := os.ReadFile(filepath.Join(d.verif, "sim/harness/go.mod"))
	must(err)
	mod = append(mod, []byte(fmt.Sprintf("\nreplace github.com/dlclark/regexp2 => %s/regexp2\nreplace github.com/nlpodyssey/gotokenizers => %s/repo\nreplace verif.local/regexp2ref => %s/ref2\nreplace verif.local/simrt => %s/sim/rt\n", w, w, w, d.verif))...)
	must(os.WriteFile(w+"/h.mod", mod, 0o644))
	d.siteName = map[uint32]string{}
	for _, f := range []string{"/sites.txt", "/sites2.txt"} {
		b, err := os.ReadFile(w + f)
		must(err)
		for _, l := range strings.Split(string(b), "\n") {
			i := strings.IndexAny(l, " \t")
			if i < 0 {
				continue
			}
			if n, err := strconv.ParseUint(l[:i], 10, 32); err == nil {
				d.siteName[uint32(n)] = strings.TrimSpace(l[i:])
			}
		}
	}
	h := filepath.Join(d.verif, "sim/harness")
	var wg sync.WaitGroup
	var e1, e2 error
	wg.Add(1)
	go func() {
		defer wg.Done()
		e1 = d.cmd(h, "go", "build", "-modfile="+w+"/h.mod", "-o", w+"/plain", ".")
	}()
	if needRace {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// Without the experiment, memory that uninstrumented code
			// allocates would keep the detector's history of its last user.
			e2 = d.cmd(h, "env", "GOEXPERIMENT=nosizespecializedmalloc", "go", "build", "-race", "-modfile="+w+"/h.mod",
				"-gcflags=verif.local/simrt/...=-race=false", "-gcflags=verif.local/harness=-race=false -l",
				"-gcflags=verif.local/regexp2ref/...=-race=false", "-gcflags=fmt=-race=false", "-o", w+"/race", ".")
		}()
	}
	wg.Wait()
	must(e1)
	must(e2)
	d.plain, d.race = w+"/plain", w+"/race"
	d.buildS = time.Since(t0).Seconds()
}

func (d *driver) regexp2Dir() string {
	b, err := os.ReadFile(filepath.Join(d.repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	m := regexp.MustCompile(`github\.com/dlclark/regexp2 (v[^\s]+)`).FindSubmatch(b)
	if m == nil {
		fatal("no regexp2 in go.mod")
	}
	cache := os.Getenv("GOMODCACHE")
	if cache == "" {
		out, err := exec.Command("go", "env", "GOMODCACHE").Output()
		if err != nil {
			fatal("%v", err)
		}
		cache = strings.TrimSpace(string(out))
	}
	return filepath.Join(cache, "github.com/dlclark/regexp2@"+string(m[1]))
}

// copyRef makes an uninstrumented copy of regexp2 under another import path,
// for the reference model.
func copyRef(src, dst string) error {
	for _, sub := range []string{"", "syntax"} {
		if err := os.MkdirAll(filepath.Join(dst, sub), 0o755); err != nil {
			return err
		}
		fs, err := filepath.Glob(filepath.Join(src, sub, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			b = bytes.ReplaceAll(b, []byte("github.com/dlclark/regexp2/syntax"), []byte("verif.local/regexp2ref/syntax"))
			if err := os.WriteFile(filepath.Join(dst, sub, filepath.Base(f)), b, 0o644); err != nil {
				return err
			}
		}
	}
	return os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module verif.local/regexp2ref\n\ngo 1.15\n"), 0o644)
}

var (
	procMu sync.Mutex
	procs  = map[*exec.Cmd]bool{}
	seq    int
)

// worker runs the harness once and reads its report.
func (d *driver) worker(race bool, limit time.Duration, args ...string) (*Stats, error) {
	procMu.Lock()
	seq++
	id := seq
	procMu.Unlock()
	out := fmt.Sprintf("%s/o%d.json", d.w, id)
	log := fmt.Sprintf("%s/r%d", d.w, id)
	bin := d.plain
	if race {
		bin = d.race
	}
	c := exec.Command(bin, append([]string{"-prop", d.prop, "-out", out}, args...)...)
	c.Dir = d.w
	c.Env = append(os.Environ(), "GORACE=log_path="+log+" exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 halt_on_error=0",
		"GOMAXPROCS=2", "GOTRACEBACK=all", "GOMEMLIMIT=6GiB")
	var errb bytes.Buffer
	c.Stderr = &errb
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := c.Start(); err != nil {
		return nil, err
	}
	procMu.Lock()
	procs[c] = true
	procMu.Unlock()
	timer := time.AfterFunc(limit, func() { c.Process.Kill() })
	err := c.Wait()
	timer.Stop()
	procMu.Lock()
	delete(procs, c)
	procMu.Unlock()
	defer func() {
		os.Remove(out)
		fs, _ := filepath.Glob(log + ".*")
		for _, f := range fs {
			os.Remove(f)
		}
	}()
	if err != nil {
		msg := errb.String()
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		return nil, &workerDied{err, msg}
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, err
	}
	st := &Stats{}
	if err := json.Unmarshal(b, st); err != nil {
		return nil, err
	}
	return st, nil
}

type workerDied struct {
	err    error
	stderr string
}

func (e *workerDied) Error() string { return fmt.Sprintf("worker died: %v\n%s", e.err, e.stderr) }

// deadly recognises a death that the code under test caused and Go cannot
// turn into a panic.
func (e *workerDied) deadly() bool {
	for _, s := range []string{"fatal error: stack overflow", "goroutine stack exceeds", "fatal error: concurrent map", "fatal error: all goroutines are asleep", "fatal error: sync:", "SIGSEGV"} {
		if strings.Contains(e.stderr, s) {
			return true
		}
	}
	return false
}

type found struct {
	v     *Violation
	race  bool
	from  int64
	to    int64
	fresh bool
}

type total struct {
	Stats
	batches   int
	nontriv   map[uint64]struct{}
	scheds    map[uint64]struct{}
	pairs     map[uint64]struct{}
	sites     map[uint32]struct{}
	wall      float64
	planned   int64
	seedsFrom int64
	seedsTo   int64
}

func newTotal() *total {
	t := &total{nontriv: map[uint64]struct{}{}, scheds: map[uint64]struct{}{}, pairs: map[uint64]struct{}{}, sites: map[uint32]struct{}{}}
	t.Faults, t.FaultRuns, t.Probes = map[string]int64{}, map[string]int64{}, map[string]int64{}
	return t
}

func (t *total) add(s *Stats) {
	t.batches++
	t.Runs += s.Runs
	t.Ops += s.Ops
	t.Checked += s.Checked
	t.Steps += s.Steps
	t.SimNS += s.SimNS
	t.Switches += s.Switches
	t.Preempts += s.Preempts
	t.MultiTask += s.MultiTask
	for k, n := range s.Faults {
		t.Faults[k] += n
	}
	for k, n := range s.FaultRuns {
		t.FaultRuns[k] += n
	}
	for k, n := range s.Probes {
		t.Probes[k] += n
	}
	for _, k := range s.Nontrivial {
		t.nontriv[k] = struct{}{}
	}
	for _, k := range s.Scheds {
		t.scheds[k] = struct{}{}
	}
	for _, k := range s.Pairs {
		if len(t.pairs) < 2000000 {
			t.pairs[k] = struct{}{}
		}
	}
	for _, k := range s.Sites {
		t.sites[k] = struct{}{}
	}
	if len(t.Samples) < 3 && len(s.Samples) > 0 {
		t.Samples = append(t.Samples, s.Samples[0])
	}
}

// search runs batches of seeds [base, base+runs) on all cores.
func (d *driver) search(race bool, base, runs, batch int64, deadline time.Time) (*total, *found) {
	t := newTotal()
	t0 := time.Now()
	t.planned = runs
	var mu sync.Mutex
	var best *found
	var firstErr error
	next := base
	end := base + runs
	par := runtime.NumCPU()
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= end || best != nil || firstErr != nil || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				from := next
				to := from + batch
				if to > end {
					to = end
				}
				next = to
				mu.Unlock()
				for from < to {
					st, err := d.worker(race, 300*time.Second, "-vseed", fmt.Sprint(d.seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to))
					mu.Lock()
					if err != nil {
						if wd, ok := err.(*workerDied); ok && wd.deadly() {
							v := d.pinDeath(race, from, to, wd)
							if v != nil && (best == nil || v.Run.Index < best.v.Run.Index) {
								best = &found{v: v, race: race, from: from, to: to}
							}
							if v == nil && firstErr == nil {
								firstErr = err
							}
						} else if firstErr == nil {
							firstErr = fmt.Errorf("runs %d..%d: %v", from, to, err)
						}
						mu.Unlock()
						return
					}
					t.add(st)
					if st.Violation != nil && (best == nil || st.Violation.Run.Index < best.v.Run.Index) {
						best = &found{v: st.Violation, race: race, from: from, to: to}
					}
					stop := best != nil
					mu.Unlock()
					if stop {
						return
					}
					from = st.NextIndex
				}
			}
		}()
	}
	wg.Wait()
	t.wall = time.Since(t0).Seconds()
	t.seedsFrom, t.seedsTo = base, next
	if best == nil && firstErr != nil {
		fatal("%v", firstErr)
	}
	return t, best
}

// pinDeath finds the run of a batch that killed its process.
func (d *driver) pinDeath(race bool, from, to int64, wd *workerDied) *Violation {
	for i := from; i < to; i++ {
		_, err := d.worker(race, 300*time.Second, "-vseed", fmt.Sprint(d.seed), "-from", fmt.Sprint(i), "-to", fmt.Sprint(i+1))
		if w2, ok := err.(*workerDied); ok && w2.deadly() {
			first := strings.SplitN(w2.stderr, "\n", 2)[0]
			seed := seedOf(d.seed, d.prop, i)
			return &Violation{Kind: "process-death", Msg: "the process dies: " + first, Run: RunSpec{Seed: seed, Index: i}}
		}
	}
	return nil
}

// try replays runs in a fresh process and returns the violation, if any.
func (d *driver) try(race bool, runs []RunSpec, trace bool, hang float64) *Violation {
	procMu.Lock()
	seq++
	f := fmt.Sprintf("%s/t%d.json", d.w, seq)
	procMu.Unlock()
	b, _ := json.Marshal(runs)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatal("%v", err)
	}
	defer os.Remove(f)
	args := []string{"-vseed", fmt.Sprint(d.seed), "-replay", f, "-hang", fmt.Sprint(hang)}
	if trace {
		args = append(args, "-trace")
	}
	st, err := d.worker(race, 300*time.Second, args...)
	if err != nil {
		if wd, ok := err.(*workerDied); ok && wd.deadly() {
			return &Violation{Kind: "process-death", Msg: "the process dies: " + strings.SplitN(wd.stderr, "\n", 2)[0], Run: runs[len(runs)-1]}
		}
		fatal("replay: %v", err)
	}
	return st.Violation
}

func class(v *Violation) string {
	if v == nil {
		return ""
	}
	c := v.Kind
	if strings.Contains(v.Msg, "data race") {
		c += "/race"
	}
	return c
}

func nChoices(r RunSpec) int {
	n := 0
	for _, l := range r.Choices {
		n += len(l)
	}
	return n
}

// settle confirms a violation in a fresh process, minimises it and writes the
// replay file. It returns nil when the violation cannot be reproduced.
func (d *driver) settle(f *found) (*Replay, string) {
	v := f.v
	hang := 60.0
	var runs []RunSpec
	var conf *Violation
	tries := 1
	if f.race {
		tries = 4
	}
	attempt := func(rs []RunSpec) bool {
		for i := 0; i < tries; i++ {
			if c := d.try(f.race, rs, true, hang); c != nil && !c.Harness {
				runs, conf = rs, c
				return true
			}
		}
		return false
	}
	if !attempt([]RunSpec{v.Run}) {
		if len(v.Prefix) == 0 || !attempt(append(append([]RunSpec{}, v.Prefix...), v.Run)) {
			return nil, ""
		}
	}
	orig := v.Run
	last := len(runs) - 1
	n0 := 0
	for _, l := range v.Used {
		n0 += len(l)
	}
	if conf.Kind != "hang" && conf.Kind != "process-death" {
		cls := class(conf)
		good := func(rs []RunSpec) *Violation {
			c := d.try(f.race, rs, false, 20)
			if c != nil && !c.Harness && class(c) == cls && strings.HasPrefix(c.Msg, "(already") == false {
				return c
			}
			return nil
		}
		deadline := time.Now().Add(time.Duration(d.minimiseS()) * time.Second)
		// fewer preceding runs
		for step := last; step >= 1 && time.Now().Before(deadline); {
			shrunk := false
			for i := 0; i+step <= last; {
				cand := append(append([]RunSpec{}, runs[:i]...), runs[i+step:]...)
				if good(cand) != nil {
					runs = cand
					last = len(runs) - 1
					shrunk = true
				} else {
					i += step
				}
			}
			if !shrunk || step > last {
				step /= 2
			}
		}
		cur := RunSpec{Seed: orig.Seed, Index: orig.Index, Choices: conf.Used}
		set := func(r RunSpec) []RunSpec { return append(append([]RunSpec{}, runs[:last]...), r) }
		if c := good(set(cur)); c != nil {
			cur.Choices = c.Used
			cur = d.minimise(cur, func(r RunSpec) *Violation { return good(set(r)) }, deadline)
			runs = set(cur)
		}
	}
	a := d.try(f.race, runs, true, hang)
	for i := 1; a == nil && i < tries; i++ {
		a = d.try(f.race, runs, true, hang)
	}
	if a == nil {
		return nil, ""
	}
	if !f.race && a.Kind != "hang" && a.Kind != "process-death" {
		b := d.try(f.race, runs, true, hang)
		if b == nil || b.Msg != a.Msg || b.Hash != a.Hash {
			fmt.Println("note: a second replay differs in detail from the first")
		}
	}
	rep := &Replay{Property: d.prop, Race: f.race, BaseSeed: d.seed, Runs: runs, Kind: a.Kind, Message: a.Msg, Workload: a.Sample,
		Hash: a.Hash, Steps: a.Steps, Original: orig, OrigChoices: n0, Choices: nChoices(runs[last]), Trace: d.named(a.Trace)}
	dir := filepath.Join(d.verif, "out")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", d.prop, d.seed, orig.Index))
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
	return rep, path
}

var siteRE = regexp.MustCompile(`site (\d+)`)

// named replaces site numbers by source positions.
func (d *driver) named(tr []string) []string {
	out := make([]string, len(tr))
	for i, l := range tr {
		out[i] = siteRE.ReplaceAllStringFunc(l, func(m string) string {
			n, _ := strconv.ParseUint(m[5:], 10, 32)
			if s, ok := d.siteName[uint32(n)]; ok {
				return s
			}
			return m
		})
	}
	if len(out) > 400 {
		out = append(out[:200], append([]string{fmt.Sprintf("... %d entries left out ...", len(out)-400)}, out[len(out)-200:]...)...)
	}
	return out
}

func (d *driver) minimiseS() int {
	if d.tier == "thorough" {
		return 90
	}
	return 20
}

// minimise shortens and zeroes the recorded choices while the run still fails.
func (d *driver) minimise(cur RunSpec, good func(RunSpec) *Violation, deadline time.Time) RunSpec {
	clone := func(r RunSpec) RunSpec {
		c := r
		c.Choices = make([][]uint32, len(r.Choices))
		for i := range r.Choices {
			c.Choices[i] = append([]uint32(nil), r.Choices[i]...)
		}
		return c
	}
	// first accepts the first of several candidates (tried in parallel) that
	// still fails.
	par := runtime.NumCPU()
	first := func(cands []RunSpec) int {
		for lo := 0; lo < len(cands) && time.Now().Before(deadline); lo += par {
			hi := lo + par
			if hi > len(cands) {
				hi = len(cands)
			}
			res := make([]*Violation, hi-lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					res[i-lo] = good(cands[i])
				}(i)
			}
			wg.Wait()
			for i, v := range res {
				if v != nil {
					cur = cands[lo+i]
					return lo + i
				}
			}
		}
		return -1
	}
	trimmed := func(r RunSpec) RunSpec {
		for i, l := range r.Choices {
			for len(l) > 0 && l[len(l)-1] == 0 {
				l = l[:len(l)-1]
			}
			r.Choices[i] = l
		}
		return r
	}
	order := []int{1, 2, 7, 6, 5, 3, 4, 0}
	for pass := 0; pass < 6 && time.Now().Before(deadline); pass++ {
		before := cur
		for _, s := range order {
			if s >= len(cur.Choices) || len(cur.Choices[s]) == 0 {
				continue
			}
			// nothing at all, then ever smaller pieces
			c := clone(cur)
			c.Choices[s] = nil
			if first([]RunSpec{c}) == 0 {
				continue
			}
			for size := (len(cur.Choices[s]) + 1) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
				at := 0
				for at < len(cur.Choices[s]) && time.Now().Before(deadline) {
					var cands []RunSpec
					var resume []int
					for k := 0; k < par && at+k*size < len(cur.Choices[s]); k++ {
						i := at + k*size
						j := i + size
						if j > len(cur.Choices[s]) {
							j = len(cur.Choices[s])
						}
						c := clone(cur)
						l := c.Choices[s]
						c.Choices[s] = append(append([]uint32(nil), l[:i]...), l[j:]...)
						cands, resume = append(cands, c), append(resume, i)
						zero := true
						for _, v := range l[i:j] {
							zero = zero && v == 0
						}
						if !zero {
							z := clone(cur)
							for q := i; q < j; q++ {
								z.Choices[s][q] = 0
							}
							cands, resume = append(cands, z), append(resume, j)
						}
					}
					if n := first(cands); n >= 0 {
						at = resume[n]
					} else {
						at += par * size
					}
				}
			}
		}
		cur = trimmed(clone(cur))
		if nChoices(cur) == nChoices(before) && pass > 0 {
			break
		}
	}
	return cur
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	runs := flag.Int64("runs", 0, "override the number of runs")
	flag.Parse()
	d := &driver{prop: *prop, tier: *tier, verif: *verif, repo: *repo, start: time.Now()}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("VERIF_SEED: %v", err)
		}
		d.seed = n
	} else {
		d.seed = 1
	}
	var rep *Replay
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal("%v", err)
		}
		rep = &Replay{}
		if err := json.Unmarshal(b, rep); err != nil {
			fatal("%v", err)
		}
		d.prop, d.seed = rep.Property, rep.BaseSeed
	}
	cfg, ok := configs[d.prop]
	if !ok {
		fatal("unknown property %q", d.prop)
	}
	d.cfg = cfg
	w, err := os.MkdirTemp("", "gtsim-")
	if err != nil {
		fatal("%v", err)
	}
	scratch, d.w = w, w
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM, syscall.SIGHUP)
	go func() { <-sig; cleanup(); os.Exit(2) }()
	code := d.run(rep, *replay, *runs)
	cleanup()
	os.Exit(code)
}

func (d *driver) run(rep *Replay, replayFile string, override int64) int {
	if rep != nil {
		d.build(rep.Race)
		for i := 0; i < 4; i++ {
			v := d.try(rep.Race, rep.Runs, true, 60)
			if v == nil {
				continue
			}
			fmt.Println(printable(v.Msg))
			fmt.Println(v.Sample)
			for _, l := range d.named(v.Trace) {
				fmt.Println("  " + l)
			}
			fmt.Printf("event hash %s (recorded %s)\n", v.Hash, rep.Hash)
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, replayFile)
			return 1
		}
		fmt.Println("the replay shows no violation on this tree")
		return 0
	}
	thorough := d.tier == "thorough"
	plainRuns, raceRuns, capS := d.cfg.runs, d.cfg.raceRuns, 150.0
	if thorough {
		plainRuns, raceRuns, capS = plainRuns*d.cfg.deep, raceRuns*d.cfg.deep, 640
	}
	if override > 0 {
		plainRuns = override
		if raceRuns > 0 {
			raceRuns = override / 4
		}
	}
	d.build(raceRuns > 0)
	searchStart := time.Now()
	deadline := searchStart.Add(time.Duration(capS * float64(time.Second)))
	// The same seeds in two processes must give the same executions.
	var det [2]*Stats
	for i := range det {
		st, err := d.worker(false, 300*time.Second, "-vseed", fmt.Sprint(d.seed), "-from", "0", "-to", fmt.Sprint(d.cfg.detRuns()))
		if err != nil {
			break // reported by the search below
		}
		det[i] = st
	}
	detOK := det[0] != nil && det[1] != nil && det[0].Hash == det[1].Hash
	mid := deadline
	if raceRuns > 0 {
		mid = searchStart.Add(time.Duration(capS * 0.6 * float64(time.Second)))
	}
	pt, f := d.search(false, 0, plainRuns, d.cfg.batch, mid)
	var rt *total
	if f == nil && raceRuns > 0 {
		rt, f = d.search(true, 1<<40, raceRuns, d.cfg.raceBatch, deadline)
	}
	searchS := time.Since(searchStart).Seconds()
	violations := 0
	code := 0
	if f != nil {
		if f.v.Harness {
			fmt.Println(printable(f.v.Msg))
			d.evidence(pt, rt, detOK, searchS, 0)
			fatal("the harness itself failed in run %d", f.v.Run.Index)
		}
		r, path := d.settle(f)
		if r == nil {
			fmt.Println(printable(f.v.Msg))
			d.evidence(pt, rt, detOK, searchS, 0)
			fatal("run %d failed but does not reproduce", f.v.Run.Index)
		}
		violations = 1
		code = 1
		fmt.Printf("property %s is violated (run %d, seed %d):\n%s\n%s\n", d.prop, r.Original.Index, r.Original.Seed, printable(r.Message), printable(r.Workload))
		fmt.Printf("minimised from %d to %d choices\n", r.OrigChoices, r.Choices)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
	}
	d.evidence(pt, rt, detOK, searchS, violations)
	if code == 0 {
		n := pt.Runs
		if rt != nil {
			n += rt.Runs
		}
		fmt.Printf("property %s held in %d simulated runs (%.1f s)\n", d.prop, n, d.elapsed())
		if !detOK {
			fmt.Println("note: repeating seeds gave different executions")
		}
	}
	return code
}

// seedOf is the seed of run i, as the worker computes it.
func seedOf(vseed int64, prop string, i int64) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", vseed, prop, i)))
	return binary.LittleEndian.Uint64(h[:])
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// printable makes a message fit for a terminal and line-based tools.
func printable(s string) string {
	var b strings.Builder
	for _, r := range strings.ToValidUTF8(s, "\ufffd") {
		switch {
		case r == '\n' || r == '\t' || r >= ' ' && r != 0x7f && r != '\u2028' && r != '\u2029' && r != '\u0085':
			b.WriteRune(r)
		default:
			fmt.Fprintf(&b, "\\x%02x", r)
		}
	}
	return b.String()
}
