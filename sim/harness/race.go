package main

import (
	"fmt"
	"os"
	"strings"

	"verif.local/simrt"
)

var (
	raceCount int
	raceLog   *os.File
	raceOff   int64
)

// newRace describes a conflicting pair of accesses that the happens-before
// detector has reported since the last call. Both accesses must belong to the
// library (or to a caller using values the library gave it): the harness
// hides its own synchronisation, so pairs that involve its memory mean nothing.
func newRace() string {
	if !simrt.RaceEnabled {
		return ""
	}
	n := simrt.RaceErrors()
	if n == raceCount {
		return ""
	}
	raceCount = n
	if raceLog == nil {
		for _, kv := range strings.Fields(os.Getenv("GORACE")) {
			if p := strings.TrimPrefix(kv, "log_path="); p != kv {
				f, err := os.Open(fmt.Sprintf("%s.%d", p, os.Getpid()))
				if err != nil {
					fmt.Fprintln(os.Stderr, "harness: no race log:", err)
					os.Exit(2)
				}
				raceLog = f
			}
		}
		if raceLog == nil {
			fmt.Fprintln(os.Stderr, "harness: the race build needs GORACE=log_path=...")
			os.Exit(2)
		}
	}
	var text []byte
	buf := make([]byte, 1<<16)
	for {
		k, err := raceLog.ReadAt(buf, raceOff)
		text = append(text, buf[:k]...)
		raceOff += int64(k)
		if err != nil || k == 0 {
			break
		}
	}
	for _, rep := range strings.Split(string(text), "==================\n") {
		if m := genuine(rep); m != "" {
			return m
		}
	}
	return ""
}

// genuine returns a short description of a report if both of its accesses
// were made by library code.
func genuine(rep string) string {
	if !strings.Contains(rep, "DATA RACE") {
		return ""
	}
	var heads []string
	var owners []string
	in := false
	owner := ""
	head := ""
	flush := func() {
		if in {
			heads = append(heads, head)
			owners = append(owners, owner)
		}
		in = false
	}
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous ") || strings.HasPrefix(l, "Atomic ") || strings.HasPrefix(l, "Racy "):
			flush()
			in, owner, head = true, "", strings.Fields(strings.TrimPrefix(l, "Previous "))[0]
		case t == "":
			flush()
		case in && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      "):
			if owner != "" {
				continue
			}
			if transparent(t) {
				continue
			}
			owner = t
		}
	}
	flush()
	if len(owners) != 2 {
		return ""
	}
	for _, o := range owners {
		if !strings.HasPrefix(o, "github.com/nlpodyssey/gotokenizers") && !strings.HasPrefix(o, "github.com/dlclark/regexp2") && !strings.HasPrefix(o, "verif.local/harness/touch") {
			return ""
		}
	}
	short := func(s string) string {
		s = strings.TrimPrefix(s, "github.com/nlpodyssey/gotokenizers/")
		return strings.TrimSuffix(s, "()")
	}
	a, b := strings.ToLower(heads[0])+" in "+short(owners[0]), strings.ToLower(heads[1])+" in "+short(owners[1])
	return a + " and " + b
}

// transparent frames act for their caller: the standard library, and the
// simulator's stand-in for the range statement.
func transparent(f string) bool {
	if strings.HasPrefix(f, "fmt.") {
		// fmt recycles its buffers, and it is compiled without the detector,
		// so whoever called it does not show: it may have been the harness.
		return false
	}
	if strings.HasPrefix(f, "verif.local/simrt") {
		// The simulator's own tables are no concern of the library; only when
		// it ranges over a map does it touch the library's memory.
		return strings.HasPrefix(f, "verif.local/simrt.MapKeys") || strings.HasPrefix(f, "verif.local/simrt.MapEntries")
	}
	if strings.HasPrefix(f, "main.") || strings.HasPrefix(f, "verif.local/") {
		return false
	}
	if b := strings.IndexByte(f, '['); b >= 0 {
		f = f[:b]
	}
	i := strings.IndexByte(f, '/')
	d := strings.IndexByte(f, '.')
	return i < 0 || d > i // no dot before the first slash: standard library
}
