// Command harness runs seeded simulations of one property's profile, or
// replays recorded ones.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"verif.local/simrt"
	"verif.local/simrt/disk"
)

var profiles = map[string]func(*Run){
	"C01": profC01, "C02": profC02, "C03": profC03, "C04": profC04, "C05": profC05, "C06": profC06,
	"C07": profC07, "C08": profC08, "C09": profC09, "C10": profC10, "C11": profC11, "C12": profC12,
	"C13": profC13, "C14": profC14, "C15": profC15, "C16": profC16, "C17": profC17, "C18": profC18,
}

// RunSpec names one run: by seed, or by its recorded choices.
type RunSpec struct {
	Seed    uint64     `json:"seed"`
	Index   int64      `json:"index"`
	Choices [][]uint32 `json:"choices,omitempty"`
}

// Violation is what a worker reports.
type Violation struct {
	Kind    string     `json:"kind"`
	Msg     string     `json:"message"`
	Run     RunSpec    `json:"run"`
	Trace   []string   `json:"trace"`
	Hash    string     `json:"hash"`
	Sample  string     `json:"workload"`
	Steps   int64      `json:"steps"`
	Harness bool       `json:"harness_fault,omitempty"`
	Prefix  []RunSpec  `json:"prefix,omitempty"`
	Used    [][]uint32 `json:"used,omitempty"`
}

// Stats is what a worker reports about its runs.
type Stats struct {
	Prop      string           `json:"prop"`
	Runs      int64            `json:"runs"`
	Ops       int64            `json:"ops"`
	Checked   int64            `json:"checked"`
	Steps     int64            `json:"steps"`
	SimNS     int64            `json:"sim_ns"`
	Switches  int64            `json:"switches"`
	Preempts  int64            `json:"preempts"`
	MultiTask int64            `json:"multi_task_runs"`
	Faults    map[string]int64 `json:"faults"`
	FaultRuns map[string]int64 `json:"fault_runs"`
	Probes    map[string]int64 `json:"probes"`
	Scheds    []uint64         `json:"scheds"`
	Nontriv   []uint64         `json:"nontrivial"`
	Pairs     []uint64         `json:"pairs"`
	Sites     []uint32         `json:"sites"`
	Hash      string           `json:"hash"`
	Samples   []string         `json:"samples"`
	Race      bool             `json:"race"`
	Violation *Violation       `json:"violation,omitempty"`
	NextIndex int64            `json:"next_index"`
}

func seedOf(vseed int64, prop string, i int64) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", vseed, prop, i)))
	return binary.LittleEndian.Uint64(h[:])
}

var (
	running   atomic.Int64 // start of the current run, in wall-clock nanoseconds
	runningIx atomic.Int64
)

func oneRun(prop string, spec RunSpec, tracing bool) (*Run, *Violation) {
	var c *simrt.Choices
	if spec.Choices != nil {
		var l [simrt.NStreams][]uint32
		for i := range spec.Choices {
			if i < len(l) {
				l[i] = spec.Choices[i]
			}
		}
		c = simrt.ReplayChoices(l)
	} else {
		c = simrt.NewChoices(spec.Seed)
	}
	// The library's only process-wide state, made fresh for every run.
	bytelevelpretokenizer.DefaultSplittingRegexp = regexp2.MustCompile(gpt2Re, regexp2.IgnoreCase|regexp2.Multiline)
	whitespacepretokenizer.DefaultWordRegexp = regexp2.MustCompile(wordRe, regexp2.IgnoreCase|regexp2.Multiline)
	callers = nil
	newRace() // forget what was reported before
	s := simrt.New(c)
	s.Tracing = tracing
	r := &Run{S: s, C: c, D: disk.New(), Prop: prop}
	running.Store(time.Now().UnixNano())
	runningIx.Store(spec.Index)
	harness := false
	s.Main(func() { profiles[prop](r) })
	running.Store(0)
	if m := newRace(); s.Fatal == nil && m != "" {
		s.Fatal = &simrt.Fatal{Kind: "violation", Msg: "unsynchronised concurrent access to shared memory (data race): " + m}
	}
	if s.Fatal == nil {
		return r, nil
	}
	if s.Fatal.Kind == "crash" && !inLibrary(s.Fatal.Msg) {
		harness = true
	}
	used := c.Recorded()
	v := &Violation{Kind: s.Fatal.Kind, Msg: stable(s.Fatal.Msg), Run: spec, Trace: s.Trace(), Hash: fmt.Sprintf("%016x", s.Hash()),
		Sample: r.Sample, Steps: s.Steps(), Harness: harness}
	for i := range used {
		v.Used = append(v.Used, used[i])
	}
	return r, v
}

var (
	address = regexp.MustCompile(`0x[0-9a-f]{5,}\??|0x[0-9a-f]+\?`)
	scratch = regexp.MustCompile(`\S*/gtsim-\d+/`)
)

// stable removes what differs between repetitions of one execution from a
// message.
func stable(m string) string {
	return scratch.ReplaceAllString(address.ReplaceAllString(m, "0x…"), "")
}

// digest identifies the execution: everything that was decided, and what the
// run did with it.
func (r *Run) digest() uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		for i := 0; i < 8; i++ {
			h = (h ^ v&0xff) * 1099511628211
			v >>= 8
		}
	}
	rec := r.C.Recorded()
	for _, l := range rec {
		mix(uint64(len(l)))
		for _, v := range l {
			mix(uint64(v))
		}
	}
	for _, v := range []uint64{r.S.Hash(), r.S.SchedHash(), uint64(r.S.Steps()), uint64(r.S.NowNS()), uint64(r.Ops), uint64(r.Checked)} {
		mix(v)
	}
	return h
}

// inLibrary reports whether the first application frame under the panic is
// library code.
func inLibrary(stack string) bool {
	lines := strings.Split(stack, "\n")
	past := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			past = true
			continue
		}
		if !past {
			continue
		}
		if strings.HasPrefix(l, "github.com/nlpodyssey/gotokenizers") || strings.HasPrefix(l, "github.com/dlclark/regexp2") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	vseed := flag.Int64("vseed", 1, "base seed")
	from := flag.Int64("from", 0, "first run")
	to := flag.Int64("to", 1, "run after the last")
	deadline := flag.Float64("deadline", 0, "stop starting runs after that many seconds")
	out := flag.String("out", "", "report file")
	trace := flag.Bool("trace", false, "record traces")
	replay := flag.String("replay", "", "file with the runs to replay (JSON list)")
	hang := flag.Float64("hang", 60, "a run that makes no step for so many seconds hangs")
	flag.Parse()
	if profiles[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	st := &Stats{Prop: *prop, Faults: map[string]int64{}, FaultRuns: map[string]int64{}, Probes: map[string]int64{}, Race: simrt.RaceEnabled}
	go func() {
		var run, steps int64
		for {
			time.Sleep(500 * time.Millisecond)
			b := running.Load()
			// A run is stuck if it makes no step for that long.
			if n := simrt.Progress(); n != steps || b > run {
				steps = n
				run = time.Now().UnixNano()
			}
			if b != 0 {
				b = run
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			slow := b != 0 && time.Since(time.Unix(0, b)).Seconds() > *hang
			if slow || m.HeapAlloc > 3<<30 {
				i := runningIx.Load()
				msg := "the run neither finishes nor reaches a scheduling point"
				if !slow {
					msg = "memory use grows without bound"
				}
				v := Violation{Kind: "hang", Msg: msg, Run: RunSpec{Seed: seedOf(*vseed, *prop, i), Index: i}}
				writeJSON(*out, &Stats{Prop: *prop, Violation: &v, Race: simrt.RaceEnabled, NextIndex: i + 1})
				os.Exit(0)
			}
		}
	}()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var runs []RunSpec
		if err := json.Unmarshal(b, &runs); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i, x := range runs {
			_, v := oneRun(*prop, x, *trace && i == len(runs)-1)
			st.Runs++
			if v != nil {
				st.Violation = v
				if i != len(runs)-1 {
					v.Msg = fmt.Sprintf("(already in run %d of the replay) %s", i, v.Msg)
				}
				break
			}
		}
		writeJSON(*out, st)
		os.Exit(0)
	}
	t0 := time.Now()
	hash := uint64(14695981039346656037)
	scheds := map[uint64]struct{}{}
	pairs := map[uint64]struct{}{}
	i := *from
	for ; i < *to; i++ {
		if *deadline > 0 && time.Since(t0).Seconds() > *deadline {
			break
		}
		spec := RunSpec{Seed: seedOf(*vseed, *prop, i), Index: i}
		r, v := oneRun(*prop, spec, *trace)
		s := r.S
		st.Runs++
		st.Ops += r.Ops
		st.Checked += r.Checked
		st.Steps += s.Steps()
		st.SimNS += s.NowNS()
		st.Switches += s.Switches
		st.Preempts += s.Preempts
		if s.Switches > 0 {
			st.MultiTask++
		}
		for _, c := range s.Faults {
			st.Faults[c.Name] += c.N
			st.FaultRuns[c.Name]++
		}
		for _, c := range s.Probes {
			st.Probes[c.Name] += c.N
		}
		scheds[s.SchedHash()] = struct{}{}
		for _, k := range s.Pairs.All() {
			if len(pairs) < 200000 {
				pairs[k] = struct{}{}
			}
		}
		dg := r.digest()
		hash = (hash ^ dg) * 1099511628211
		if r.Checked > 0 && (s.Switches > 0 || len(s.Faults) > 0 || r.Ops > 2) {
			st.Nontriv = append(st.Nontriv, dg)
		}
		if len(st.Samples) < 2 {
			st.Samples = append(st.Samples, fmt.Sprintf("seed %d: %s", spec.Seed, r.Sample))
		}
		s.Close()
		if v != nil {
			st.Violation = v
			for j := *from; j < i; j++ {
				v.Prefix = append(v.Prefix, RunSpec{Seed: seedOf(*vseed, *prop, j), Index: j})
			}
			i++
			break
		}
	}
	st.NextIndex = i
	st.Hash = fmt.Sprintf("%016x", hash)
	for k := range scheds {
		st.Scheds = append(st.Scheds, k)
	}
	sort.Slice(st.Scheds, func(a, b int) bool { return st.Scheds[a] < st.Scheds[b] })
	for k := range pairs {
		st.Pairs = append(st.Pairs, k)
	}
	sort.Slice(st.Pairs, func(a, b int) bool { return st.Pairs[a] < st.Pairs[b] })
	st.Sites = simrt.Covered()
	writeJSON(*out, st)
	os.Exit(0)
}
