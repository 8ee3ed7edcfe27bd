package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// propConfig says how much of a property's space one check explores.
type propConfig struct {
	runs      int64 // plain runs of the quick tier
	batch     int64 // runs per process
	raceRuns  int64 // runs with the happens-before detector
	raceBatch int64
	deep      int64 // factor of the thorough tier
	det       int64 // seeds repeated to confirm determinism
}

func (c propConfig) detRuns() int64 {
	if c.det > 0 {
		return c.det
	}
	return 60
}

var configs = map[string]propConfig{
	"C01": {runs: 80000, batch: 15, raceRuns: 8000, raceBatch: 40, deep: 25},
	"C02": {runs: 80000, batch: 20, deep: 25},
	"C03": {runs: 50000, batch: 50, deep: 25},
	"C04": {runs: 50000, batch: 50, deep: 25},
	"C05": {runs: 25000, batch: 50, deep: 25},
	"C06": {runs: 50000, batch: 50, deep: 25},
	"C07": {runs: 240000, batch: 50, deep: 25},
	"C08": {runs: 200000, batch: 50, deep: 25},
	"C09": {runs: 220000, batch: 50, deep: 25},
	"C10": {runs: 160000, batch: 50, deep: 25},
	"C11": {runs: 80000, batch: 50, deep: 25},
	"C12": {runs: 160000, batch: 50, deep: 25},
	"C13": {runs: 100000, batch: 50, deep: 25},
	"C14": {runs: 64000, batch: 20, raceRuns: 4000, raceBatch: 40, deep: 25},
	"C15": {runs: 14000, batch: 20, deep: 25},
	"C16": {runs: 300000, batch: 50, deep: 25},
	"C17": {runs: 120000, batch: 50, deep: 25},
	"C18": {runs: 120000, batch: 50, raceRuns: 12000, raceBatch: 60, deep: 25},
}

func (d *driver) evidence(pt, rt *total, detOK bool, searchS float64, violations int) {
	all := newTotal()
	merge := func(t *total) {
		if t == nil {
			return
		}
		all.add(&t.Stats)
		for k := range t.nontriv {
			all.nontriv[k] = struct{}{}
		}
		for k := range t.scheds {
			all.scheds[k] = struct{}{}
		}
		for k := range t.pairs {
			all.pairs[k] = struct{}{}
		}
		for k := range t.sites {
			all.sites[k] = struct{}{}
		}
	}
	merge(pt)
	merge(rt)
	perHour := func(n int64) int64 {
		if searchS <= 0 {
			return 0
		}
		return int64(float64(n) / searchS * 3600)
	}
	faults := map[string]map[string]int64{}
	for _, k := range sortedKeys(all.Faults) {
		faults[k] = map[string]int64{"injected": all.Faults[k], "runs": all.FaultRuns[k]}
	}
	// Library statements that ran, per package.
	type cov struct{ Ran, Total int }
	pk := map[string]*cov{}
	for id, where := range d.siteName {
		dir := filepath.Dir(strings.SplitN(where, ":", 2)[0])
		if id >= 100000 {
			dir = "regexp2 (dependency)"
		}
		c := pk[dir]
		if c == nil {
			c = &cov{}
			pk[dir] = c
		}
		c.Total++
		if _, ok := all.sites[id]; ok {
			c.Ran++
		}
	}
	var covs []string
	for k, c := range pk {
		covs = append(covs, fmt.Sprintf("%s: %d of %d statements", k, c.Ran, c.Total))
	}
	sort.Strings(covs)
	coverage := map[string]interface{}{
		"evaluations":         all.Runs,
		"distinct_nontrivial": len(all.nontriv),
		"rule": "One evaluation is one simulated execution drawn from one seed (workload, schedule, faults, disk, random draws, map order, pool behaviour and clock). " +
			"It is non-trivial if at least one result was compared with the reference and callers were interleaved, a fault fired, or more than two library calls were made; " +
			"distinct means a different digest of all decisions drawn and of the resulting event log.",
		"samples":               all.Samples,
		"seeds":                 fmt.Sprintf("VERIF_SEED=%d, runs 0..%d", d.seed, pt.seedsTo-1),
		"runs_per_hour":         perHour(all.Runs),
		"seeds_per_hour":        perHour(all.Runs),
		"simulated_seconds":     float64(all.SimNS) / 1e9,
		"library_calls":         all.Ops,
		"results_compared":      all.Checked,
		"scheduling_points":     all.Steps,
		"context_switches":      all.Switches,
		"preemptions":           all.Preempts,
		"multi_caller_runs":     all.MultiTask,
		"distinct_schedules":    len(all.scheds),
		"schedule_measure":      "distinct sequences of (task chosen, library statement at which it was chosen)",
		"distinct_preemptions":  len(all.pairs),
		"preemption_measure":    "distinct pairs of library statements at which one caller was preempted and the next one had stopped",
		"faults":                faults,
		"conditions_reached":    all.Probes,
		"library_statements":    covs,
		"determinism_recheck":   map[string]interface{}{"seeds_run_twice": d.cfg.detRuns(), "identical": detOK},
		"build_seconds":         d.buildS,
		"search_seconds":        searchS,
		"planned_runs_complete": pt.Runs >= pt.planned && (rt == nil || rt.Runs >= rt.planned),
		"components_real":       "every package of gotokenizers and regexp2 v1.4.0, compiled from source with a scheduling point before every statement; Go runtime, encoding/json, bufio, strings",
		"components_simulated":  "goroutine scheduling, sync primitives and sync.Pool, time, math/rand, map iteration order, os files (in-memory disk with faults), callers' supplied normalizers, patterns, mapping functions and tokenizers",
	}
	if rt != nil {
		coverage["happens_before_runs"] = rt.Runs
		coverage["happens_before_rule"] = "the same simulation compiled with Go's race detector, with the simulator's own hand-offs hidden from it, so that only the library's synchronisation orders accesses"
	}
	ev := map[string]interface{}{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration", "coverage": coverage,
		"assumptions": []string{
			"preemption happens between library statements (and inside supplied code, file, clock, random and synchronisation calls), not inside one statement",
			"the reference model in sim/harness is right; it is written independently of the library and shares only the Go standard library and an uninstrumented regexp2",
		},
		"wall_s": d.elapsed(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	dir := filepath.Join(d.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, d.prop+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}
