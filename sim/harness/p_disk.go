package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"syscall"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"verif.local/simrt"
	"verif.local/simrt/disk"
)

// slowDisk delivers everything, in odd pieces.
func (r *Run) slowDisk(path string) disk.Plan {
	p := disk.Plan{ReadErrAt: -1}
	if r.fp(2, 3) {
		p.Short = []int{1, 3, 17, 500}[r.fn(4)]
		if r.fileSize(path) > 1<<20 {
			p.Short *= 5000 // a giant file would take forever
		}
	}
	switch r.fn(6) {
	case 0:
		p.SizeDelta = r.fn(2000) - 1000
	case 1:
		p.NoSize = true
	}
	return p
}

var ioErrs = []error{syscall.EIO, syscall.EACCES, syscall.EINTR, syscall.ESTALE, syscall.ENOMEM, syscall.ENFILE, syscall.EMFILE, syscall.ENOENT, syscall.ELOOP}

var readErrs = []error{syscall.ESTALE, syscall.EINTR, syscall.EAGAIN, syscall.ETIMEDOUT, syscall.EISDIR, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF}
var closeErrs = []error{syscall.EIO, syscall.EIO, syscall.EINTR, syscall.ENOSPC, syscall.EDQUOT, syscall.EBADF}

// badDisk is a device with I/O failures; the chance is num/den per open.
func (r *Run) badDisk(num, den int, size func(path string) int) func(string) disk.Plan {
	return func(path string) disk.Plan {
		p := r.slowDisk(path)
		if !r.fp(num, den) {
			return p
		}
		switch r.fn(5) {
		case 0:
			p.OpenErr = ioErrs[r.fn(len(ioErrs))]
		case 1, 2:
			p.ReadErrAt = r.fn(size(path) + 1)
			p.ReadErrors = r.fn(3)
			if r.fp(1, 3) {
				p.ReadErr = readErrs[r.fn(len(readErrs))]
			}
		case 3:
			p.CloseErr = closeErrs[r.fn(len(closeErrs))]
		default:
			p.StatErr = true
		}
		return p
	}
}

// stuckDisk is a device whose failures, once they occur, stay until healed.
func (r *Run) stuckDisk(plan func(string) disk.Plan) (now func(string) disk.Plan, heal func()) {
	bad := map[string]disk.Plan{}
	now = func(path string) disk.Plan {
		if p, ok := bad[path]; ok {
			r.S.Faults.Add("disk-stays-broken", 1)
			return p
		}
		p := plan(path)
		if p.OpenErr != nil || p.ReadErrAt >= 0 || p.CloseErr != nil || p.StatErr {
			p.ReadErrors = 0
			bad[path] = p
		}
		return p
	}
	return now, func() { bad = map[string]disk.Plan{} }
}

func (r *Run) fileSize(path string) int {
	if n := r.D.Files[path]; n != nil {
		return len(n.Data)
	}
	return 0
}

// ioTrace is what the device did for one operation of one caller.
type ioTrace struct {
	opened   []*disk.Handle
	failedOp bool // an open failed
	fired    map[string]bool
}

// load runs fn and collects the device's side of it.
func (c *caller) load(name string, size int, fn func()) (ioTrace, outcome) {
	r := c.r
	h0 := len(r.D.Handles)
	f0 := r.D.FailedOpens[c.id]
	o := r.op(name, size, fn)
	t := ioTrace{fired: map[string]bool{}}
	for _, h := range r.D.Handles[h0:] {
		if h.Owner != c.id {
			continue
		}
		t.opened = append(t.opened, h)
		for _, k := range h.Fired {
			t.fired[k] = true
		}
	}
	t.failedOp = r.D.FailedOpens[c.id] > f0
	return t, o
}

func (t ioTrace) hard() bool {
	return t.failedOp || t.fired["disk-read-error"] || t.fired["disk-close-error"] || t.fired["disk-stat-error"]
}

func (t ioTrace) String() string {
	var k []string
	for x := range t.fired {
		k = append(k, x)
	}
	sort.Strings(k)
	return fmt.Sprintf("%d files opened, open failed: %v, faults: %s", len(t.opened), t.failedOp, strings.Join(k, ","))
}

// closed checks that everything the operation opened is closed exactly once.
func (r *Run) closed(name string, t ioTrace) {
	r.Checked++
	for _, h := range t.opened {
		if h.Closed != 1 {
			r.Fail("%s returned with %s closed %d times (%v)", name, h.Path, h.Closed, t)
		}
		if h.UsedAfterClose > 0 {
			r.Fail("%s used %s after closing it", name, h.Path)
		}
	}
}

// --- file contents ---

func (r *Run) vocabTerms() []string {
	l := append(r.lexicon(), "[UNK]", "##a", "\"quoted\"", "back\\slash", "a b", "", "é", "</w>", "\u2028", "𝔾")
	n := r.n(40)
	if r.p(1, 8) {
		n += 400 // several read buffers
	}
	if r.p(1, 150) {
		n += 5000 + r.n(8000) // a real vocabulary's size
		r.probe("large-vocabulary-file")
	}
	for i := 0; i < n; i++ {
		l = append(l, r.word()+fmt.Sprint(r.n(50)))
	}
	if r.p(1, 8000) {
		few := r.lexicon()
		for i := 0; i < 1<<16+2000; i++ {
			l = append(l, fmt.Sprint(few[i%len(few)], i))
		}
		r.probe("huge-vocabulary-file")
	}
	if r.p(1, 30) {
		l = append(l, strings.Repeat(r.word(), 20000))
	}
	if r.p(1, 300) {
		l = append(l, strings.Repeat("several mebibytes ", 1<<18))
		r.probe("giant-vocabulary-file")
	}
	return l
}

// vocabFile draws a file: usually valid, sometimes not.
func (r *Run) vocabFile() []byte {
	terms := r.vocabTerms()
	v := newVocabSpec()
	step := 1 + r.n(3)
	base := r.n(3)
	odd := r.p(1, 4) // IDs that are valid but that nobody expects
	for i, t := range terms {
		if r.p(1, 12) {
			continue
		}
		id := base + i*step
		if odd && r.p(1, 3) {
			id = r.oddID(i, len(terms))
		}
		v.add(t, id)
	}
	data := v.json()
	switch r.n(24) {
	case 0:
		data = []byte("{}")
	case 1:
		data = []byte("")
	case 2:
		data = append(data, []byte(" \n\t ")...)
	case 3:
		data = append(data, []byte("{\"extra\": 1}")...)
	case 4:
		data = append(data, 'x')
	case 5:
		data = data[:len(data)-1-r.n(len(data)-1)]
	case 6:
		data = []byte("null")
	case 7:
		data = []byte(`{"a": 1, "b": "two"}`)
	case 8:
		data = []byte(`{"a": 1, "b": 1.5}`)
	case 9:
		data = []byte(`{"a": 1, "b": 99999999999999999999}`)
	case 10:
		data = []byte(`{"a": 1, "a": 2, "b": 2, "c": 7}`)
	case 11:
		data = []byte(`{"a": 3, "b": 3, "c": -4, "d": 0}`)
	case 12:
		data = []byte(`[1, 2]`)
	case 13:
		data = append([]byte("\xef\xbb\xbf"), data...)
	case 14:
		data = append(data, []string{"\x00\x00\x00\x00", "\x00", "\x1a", "\n\x00", ",", "}", "//", "\u00a0", "\ufeff"}[r.n(9)]...)
	case 15:
		if len(data) < 1<<20 {
			data = r.damage(data)
		}
	}
	return data
}

// oddID draws an ID that is negative, shared, far away or off by one.
func (r *Run) oddID(i, n int) int {
	switch r.n(6) {
	case 0:
		return -1 - r.n(5)
	case 1:
		return r.n(n + 2)
	case 2:
		return n + r.n(4)
	case 3:
		return []int{1<<31 - 1, 1 << 31, 1<<32 + 5, 1<<63 - 1, -1 << 63, 1 << 53}[r.n(6)]
	case 4:
		return 0
	default:
		return i*1000 + 7
	}
}

// refVocab is the complete content of a file, or an error.
func refVocab(data []byte) (map[string]int, error) {
	var m map[string]int
	if err := json.Unmarshal(data, &m); err != nil {
		return nil, err
	}
	return m, nil
}

// diffVocab compares a loaded vocabulary with a file's content.
func (r *Run) diffVocab(v *vocabulary.Vocabulary, want map[string]int, others []string) string {
	diff := ""
	o := r.op("vocabulary lookups", 64*(len(want)+len(others)), func() {
		if v.Size() != len(want) {
			diff = fmt.Sprintf("size %d, expected %d", v.Size(), len(want))
			return
		}
		keys := sortedKeys(want)
		byID := map[int]bool{}
		for _, k := range keys {
			id, ok := v.GetID(k)
			if !ok || id != want[k] {
				diff = fmt.Sprintf("term %q has ID %d (%v), expected %d", clip(k), id, ok, want[k])
				return
			}
			t, ok := v.GetString(id)
			if x, in := want[t]; !ok || !in || x != id {
				diff = fmt.Sprintf("ID %d belongs to %q (%v), expected %q", id, clip(t), ok, clip(k))
				return
			}
			byID[id] = true
		}
		for _, k := range others {
			if _, in := want[k]; !in {
				if id, ok := v.GetID(k); ok {
					diff = fmt.Sprintf("term %q has ID %d although the file does not contain it", clip(k), id)
					return
				}
			}
		}
		for id := -3; id < len(want)+3; id++ {
			if t, ok := v.GetString(id); ok && !byID[id] {
				diff = fmt.Sprintf("ID %d belongs to %q although the file does not contain it", id, clip(t))
				return
			}
		}
	})
	r.mustNotPanic("vocabulary lookups", o)
	return diff
}

// --- C03 ---

func profC03(r *Run) {
	n := 1 + r.n(3)
	files := 1 + r.n(2)
	var paths []string
	var versions [][][]byte
	for f := 0; f < files; f++ {
		p := fmt.Sprintf("/models/v%d.json", f)
		paths = append(paths, p)
		vs := [][]byte{r.vocabFile()}
		if r.p(1, 3) {
			vs = append(vs, r.vocabFile())
		}
		versions = append(versions, vs)
		r.D.Put(p, vs[0])
	}
	r.Sample = fmt.Sprintf("%d callers load %d files; first file: %s", n, files, clip(string(versions[0][0])))
	r.D.PlanFor = r.badDisk(r.fn(4), 4, r.fileSize)
	loads := make([][]int, n)
	for i := range loads {
		for k := 1 + r.n(5); k > 0; k-- {
			loads[i] = append(loads[i], r.n(files))
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		r.Spawn("loader", func() {
			for _, f := range loads[i] {
				var v *vocabulary.Vocabulary
				var err error
				t, o := c.load("vocabulary.FromJSONFile", r.maxSize(versions[f]), func() { v, err = vocabulary.FromJSONFile(paths[f]) })
				r.mustNotPanic("vocabulary.FromJSONFile", o)
				r.checkVocabLoad(v, err, t, versions[f])
			}
		})
	}
	// Somebody replaces a file while it is being loaded (an atomic rename).
	if len(versions[0]) > 1 {
		id := n
		r.newCaller(id)
		r.Spawn("replacer", func() {
			for k := 0; k < 2; k++ {
				for j := 0; j < 2+r.fn(6); j++ {
					simrt.Y(0)
				}
				r.S.Fault("file-replaced")
				r.D.Put(paths[0], versions[0][(k+1)%2])
			}
		})
		r.schedule(n + 1)
	} else {
		r.schedule(n)
	}
	r.Go()
}

func (r *Run) maxSize(vs [][]byte) int {
	m := 0
	for _, v := range vs {
		if len(v) > m {
			m = len(v)
		}
	}
	return m
}

func (r *Run) checkVocabLoad(v *vocabulary.Vocabulary, err error, t ioTrace, versions [][]byte) {
	r.Checked++
	var others []string
	for _, x := range versions {
		if m, e := refVocab(x); e == nil {
			others = append(others, sortedKeys(m)...)
		}
	}
	if err == nil {
		if v == nil {
			r.Fail("a load reported success without a vocabulary")
		}
		why := "no file was opened"
		for _, h := range t.opened {
			want, e := refVocab(h.Node.Data)
			if e != nil {
				why = fmt.Sprintf("the file is invalid (%v): %s", e, clip(string(h.Node.Data)))
				continue
			}
			if why = r.diffVocab(v, want, others); why == "" {
				return
			}
		}
		r.Fail("a load reported success but %s (%v)", why, t)
	}
	if t.hard() {
		return
	}
	for _, h := range t.opened {
		if _, e := refVocab(h.Node.Data); e != nil {
			return
		}
	}
	r.Fail("loading a valid vocabulary without any I/O failure failed: %v (%v)", err, t)
}

// --- merges ---

type mergeLine struct{ l, r string }

// refMerges reads a merges file as documented: one merge per line, ranked by
// position among the merge lines; version lines do not count.
func refMerges(data []byte, v map[string]int, prefix int) (map[[2]int]refMerge, bool) {
	s := string(data)
	out := map[[2]int]refMerge{}
	rank := 0
	for len(s) > 0 {
		var line string
		if k := strings.IndexByte(s, '\n'); k >= 0 {
			line, s = s[:k], s[k+1:]
		} else {
			line, s = s, ""
		}
		line = strings.TrimSuffix(line, "\r")
		if strings.HasPrefix(line, "#version") {
			continue
		}
		f := strings.Split(line, " ")
		if len(f) != 2 {
			return nil, false
		}
		l, ok1 := v[f[0]]
		q, ok2 := v[f[1]]
		if !ok1 || !ok2 || prefix < 0 || prefix > len(f[1]) {
			return nil, false
		}
		id, ok := v[f[0]+f[1][prefix:]]
		if !ok {
			return nil, false
		}
		out[[2]int{l, q}] = refMerge{rank, id}
		rank++
	}
	return out, true
}

// mergesFile draws a vocabulary and a merges file that fits it, or almost.
func (r *Run) mergesFile() (terms []string, data []byte, prefix int) {
	pfx := []string{"", "", "##", "é", "-"}[r.n(5)]
	prefix = len(pfx)
	base := append([]string{}, alphaLatin[:4+r.n(6)]...)
	base = append(base, "é", "日", "'", "\t", "#version", "#")
	seen := map[string]bool{}
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			terms = append(terms, t)
		}
	}
	for _, b := range base {
		add(b)
		add(pfx + b)
	}
	n := r.n(30)
	if r.p(1, 8) {
		n += 500
	}
	if r.p(1, 150) {
		n += 5000 + r.n(5000)
		r.probe("large-merges-file")
	}
	var lines []string
	if r.p(2, 3) {
		lines = append(lines, "#version: 0.2")
	}
	done := map[string]bool{}
	for i := 0; i < n; i++ {
		l := terms[r.n(len(terms))]
		q := terms[r.n(len(terms))]
		if !strings.HasPrefix(q, pfx) || len(l) > 20 || len(q) > 20 || strings.HasPrefix(l, "#version") {
			continue
		}
		if k := l + " " + q; done[k] && !r.p(1, 6) {
			continue
		} else {
			done[k] = true
		}
		add(l + q[prefix:])
		lines = append(lines, l+" "+q)
		if r.p(1, 40) {
			lines = append(lines, "#version again")
		}
	}
	if r.p(1, 12) {
		// one very long token
		long := strings.Repeat("x", 30000+r.n(60000))
		if r.p(1, 25) {
			long = strings.Repeat("y", 4500000)
			r.probe("giant-merges-file")
		}
		add(long)
		add("a" + long)
		if pfx == "" {
			lines = append(lines, "a "+long)
		}
	}
	sep := "\n"
	if r.p(1, 6) {
		sep = "\r\n"
	}
	text := strings.Join(lines, sep)
	if r.p(5, 6) && text != "" {
		text += sep
	}
	at := func() int {
		// a line boundary
		k := strings.LastIndex(text[:r.n(len(text)+1)], sep)
		if k < 0 {
			return 0
		}
		return k + len(sep)
	}
	switch r.n(24) {
	case 0:
		text = text[:r.n(len(text)+1)]
	case 1:
		k := at()
		text = text[:k] + sep + text[k:]
	case 2:
		k := at()
		text = text[:k] + "a b c" + sep + text[k:]
	case 3:
		k := at()
		text = text[:k] + "lonely" + sep + text[k:]
	case 4:
		k := at()
		text = text[:k] + "a nowhere" + sep + text[k:]
		if r.p(2, 3) { // what they make is known all the same
			add("a" + "nowhere"[min(prefix, 7):])
		}
	case 5:
		k := at()
		if r.p(2, 3) {
			add("nowhere" + "a"[min(prefix, 1):])
		}
		text = text[:k] + "nowhere a" + sep + text[k:]
	case 6: // both known, the result is not
		k := at()
		text = text[:k] + "# #" + sep + text[k:]
	case 7:
		text = ""
	case 8:
		k := at()
		text = text[:k] + "a  b" + sep + text[k:]
	case 9:
		k := at()
		text = text[:k] + "a\tb" + sep + text[k:]
	case 10, 11:
		// An otherwise good line with something before or after it.
		k := at()
		e := strings.Index(text[k:], sep)
		if e < 0 || e == 0 || text[k] == '#' {
			break
		}
		extra := []string{" ", "\t", "  ", "\r", "\u00a0", "\ufeff", "\v", "\x00", "\x00\x00\x00\x00", "\x1a", " #", "\u200b"}[r.n(12)]
		if r.p(1, 2) {
			text = text[:k] + extra + text[k:]
		} else {
			text = text[:k+e] + extra + text[k+e:]
		}
	case 12:
		// A line that looks as if it did not matter.
		k := at()
		text = text[:k] + []string{" ", "\t", "\x00", "\x00\x00\x00\x00\x00\x00\x00", "\x1a", "#", "# comment", "#Version: 0.2", " #version: 0.2", "//", "\ufeff", "\r", "\u00a0", "#versio"}[r.n(14)] + sep + text[k:]
	case 13:
		// Something after the last line.
		text += []string{"\x00", "\x00\x00\x00\x00", "\x1a", " ", "\n", "\r", "\t"}[r.n(7)]
	case 14:
		text = string(r.damage([]byte(text)))
		if len(text) > 1<<20 {
			text = text[:1<<20]
		}
	}
	return terms, []byte(text), prefix
}

// --- C04 ---

func profC04(r *Run) {
	n := 1 + r.n(3)
	terms, data, prefix := r.mergesFile()
	if r.p(1, 2500) {
		// more lines than fit 16 bits
		var b strings.Builder
		terms, prefix = nil, 0
		k := 257 + r.n(8)
		part := func(i int) string { return fmt.Sprintf("%c", 0x4e00+i) }
		for i := 0; i < k; i++ {
			terms = append(terms, part(i))
		}
		b.WriteString("#version: 0.2\n")
		for i := 0; i < k*k; i++ {
			x, y := part(i/k), part(i%k)
			terms = append(terms, x+y)
			b.WriteString(x + " " + y + "\n")
		}
		data = []byte(b.String())
		r.probe("huge-merges-file")
	}
	vs := newVocabSpec()
	at := func(i int) int { return i }
	if vs.file = r.p(1, 3); vs.file {
		at = r.spreadIDs(true)
	}
	for i, t := range terms {
		vs.add(t, at(i))
	}
	ids := vs.ids
	v := r.buildVocab(vs)
	path := "/models/merges.txt"
	versions := [][]byte{data}
	r.D.Put(path, data)
	r.Sample = fmt.Sprintf("%d callers load merges (%d terms, prefix length %d): %s", n, len(terms), prefix, clip(string(data)))
	if r.p(1, 4) && len(data) > 0 {
		// replaced by a shorter version of itself
		k := strings.LastIndexByte(string(data[:r.n(len(data))]), '\n')
		versions = append(versions, data[:k+1])
	}
	r.D.PlanFor = r.badDisk(r.fn(4), 4, r.fileSize)
	loads := make([]int, n)
	for i := range loads {
		loads[i] = 1 + r.n(4)
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		r.Spawn("loader", func() {
			for k := 0; k < loads[i]; k++ {
				var m *bpemodel.MergeMap
				var err error
				t, o := c.load("MergeMapFromFile", r.maxSize(versions), func() { m, err = bpemodel.MergeMapFromFile(path, v, prefix) })
				r.mustNotPanic("MergeMapFromFile", o)
				r.checkMergesLoad(m, err, t, ids, prefix)
			}
		})
	}
	if len(versions) > 1 {
		r.newCaller(n)
		r.Spawn("replacer", func() {
			for k := 0; k < 2; k++ {
				for j := 0; j < 2+r.fn(6); j++ {
					simrt.Y(0)
				}
				r.S.Fault("file-replaced")
				r.D.Put(path, versions[(k+1)%2])
			}
		})
		r.schedule(n + 1)
	} else {
		r.schedule(n)
	}
	r.Go()
}

func (r *Run) checkMergesLoad(m *bpemodel.MergeMap, err error, t ioTrace, ids map[string]int, prefix int) {
	r.Checked++
	if err != nil {
		if t.hard() {
			return
		}
		for _, h := range t.opened {
			if _, ok := refMerges(h.Node.Data, ids, prefix); !ok {
				return
			}
		}
		r.Fail("loading a valid merges file without any I/O failure failed: %v (%v)", err, t)
	}
	if m == nil {
		r.Fail("a load reported success without a merge table")
	}
	if t.failedOp || t.fired["disk-read-error"] || t.fired["disk-close-error"] {
		r.Fail("an I/O failure was not reported by MergeMapFromFile (%v)", t)
	}
	why := "no file was opened"
	for _, h := range t.opened {
		want, ok := refMerges(h.Node.Data, ids, prefix)
		if !ok {
			why = "the file is invalid: " + clip(string(h.Node.Data))
			continue
		}
		if why = r.diffMerges(m, want, len(ids)); why == "" {
			return
		}
	}
	r.Fail("a load reported success but %s (%v)", why, t)
}

func (r *Run) diffMerges(m *bpemodel.MergeMap, want map[[2]int]refMerge, nIDs int) string {
	why := ""
	o := r.op("merge lookups", 64*len(want)+4096, func() {
		var keys [][2]int
		for k := range want {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
		})
		for _, k := range keys {
			g, ok := m.Get(k[0], k[1])
			if !ok || g.Rank != want[k].rank || g.ID != want[k].id {
				why = fmt.Sprintf("merge %v is %+v (%v), expected %+v", k, g, ok, want[k])
				return
			}
		}
		if len(*m) != len(want) {
			why = fmt.Sprintf("%d merges, expected %d", len(*m), len(want))
		}
	})
	r.mustNotPanic("merge lookups", o)
	return why
}

// --- C05 ---

func profC05(r *Run) {
	n := 1 + r.n(2)
	r.D.MaxOpen = n // every caller may have one file open at a time
	terms, data, prefix := r.mergesFile()
	v := vocabulary.NewVocabulary()
	for _, t := range terms {
		v.AddTerm(t)
	}
	r.D.Put("/models/merges.txt", data)
	r.D.Put("/models/vocab.json", r.vocabFile())
	r.Sample = fmt.Sprintf("%d callers load again and again with at most %d open files; merges: %s", n, n, clip(string(data)))
	r.D.PlanFor = r.badDisk(1+r.fn(3), 4, r.fileSize)
	plans := make([][]int, n)
	for i := range plans {
		for k := 3 + r.n(12); k > 0; k-- {
			plans[i] = append(plans[i], r.n(8))
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		r.Spawn("loader", func() {
			for _, k := range plans[i] {
				name := "vocabulary.FromJSONFile"
				var t ioTrace
				var o outcome
				switch {
				case k < 3:
					t, o = c.load(name, 1<<14, func() { vocabulary.FromJSONFile("/models/vocab.json") })
				case k < 6:
					name = "MergeMapFromFile"
					t, o = c.load(name, 1<<14, func() { bpemodel.MergeMapFromFile("/models/merges.txt", v, prefix) })
				case k == 6:
					// a caller's mistake: the load panics or fails, but still closes
					name = "MergeMapFromFile without a vocabulary"
					t, o = c.load(name, 1<<14, func() { bpemodel.MergeMapFromFile("/models/merges.txt", nil, prefix) })
					if o.panicked {
						r.S.Fault("load-panic")
					}
					o.panicked = false
				default:
					name = "MergeMapFromFile (wrong prefix length)"
					t, o = c.load(name, 1<<14, func() { bpemodel.MergeMapFromFile("/models/merges.txt", v, 3) })
				}
				r.mustNotPanic(name, o)
				r.closed(name, t)
				if r.S.Faults.Get("disk-too-many-open-files") > 0 {
					r.Fail("the process ran out of file descriptors")
				}
			}
		})
	}
	r.schedule(n)
	if r.Go() {
		if r.D.OpenN != 0 {
			r.Fail("%d files are still open at the end", r.D.OpenN)
		}
	}
}

// --- C06 ---

// damage applies what a failing device does to stored bytes.
func (r *Run) damage(data []byte) []byte {
	d := append([]byte(nil), data...)
	for k := 1 + r.fn(3); k > 0; k-- {
		if len(d) == 0 {
			return d
		}
		at := r.fn(len(d))
		n := 1 + r.fn(16)
		if r.fp(1, 4) {
			n = 1 + r.fn(len(d))
		}
		if at+n > len(d) {
			n = len(d) - at
		}
		switch r.fn(11) {
		case 0:
			r.S.Fault("disk-torn-tail")
			d = d[:at]
		case 1:
			r.S.Fault("disk-bit-flip")
			d[at] ^= 1 << r.fn(8)
		case 2:
			r.S.Fault("disk-zeroed-block")
			for i := at; i < at+n; i++ {
				d[i] = 0
			}
		case 3:
			r.S.Fault("disk-repeated-block")
			blk := append([]byte(nil), d[at:at+n]...)
			d = append(d[:at+n:at+n], append(blk, d[at+n:]...)...)
		case 4:
			r.S.Fault("disk-lost-block")
			d = append(d[:at:at], d[at+n:]...)
		case 5:
			r.S.Fault("disk-garbage-block")
			for i := at; i < at+n; i++ {
				d[i] = byte(r.C.N(simrt.SDisk, 256))
			}
		case 6: // a digit or separator becomes another: still valid, but unexpected
			r.S.Fault("disk-byte-changed")
			d[at] = []byte(" \n\r09-#\",:a")[r.fn(11)]
		case 7, 8: // whole lines, with or without the line end
			r.S.Fault("disk-zeroed-lines")
			for at > 0 && d[at-1] != '\n' {
				at--
			}
			end := at
			for k := 1 + r.fn(3); k > 0 && end < len(d); k-- {
				for end++; end < len(d) && d[end-1] != '\n'; {
					end++
				}
			}
			if end > at && r.fp(2, 3) {
				end--
			}
			if end > at && r.fp(1, 3) { // the beginning of the first line survived
				at += r.fn(end - at)
			}
			for i := at; i < end; i++ {
				d[i] = 0
			}
		case 9:
			r.S.Fault("disk-zeroed-tail")
			d = append(d[:len(d):len(d)], make([]byte, n)...)
		default:
			r.S.Fault("disk-misplaced-block")
			j := r.fn(len(d))
			for i := 0; i < n && j+i < len(d); i++ {
				d[j+i] = data[(at+i)%len(data)]
			}
		}
	}
	return d
}

func profC06(r *Run) {
	terms, mdata, prefix := r.mergesFile()
	v0 := newVocabSpec()
	odd := r.p(1, 3)
	for i, t := range terms {
		id := i
		if odd && r.p(1, 3) {
			id = r.oddID(i, len(terms))
		}
		v0.add(t, id)
	}
	v0.add("[UNK]", len(v0.list))
	vdata := v0.json()
	if r.p(1, 3) {
		vdata = r.vocabFile()
	}
	if r.p(3, 4) {
		vdata = r.damage(vdata)
	}
	if r.p(3, 4) {
		mdata = r.damage(mdata)
	}
	if r.p(1, 4) {
		prefix = r.n(4)
	}
	r.D.Put("/models/vocab.json", vdata)
	r.D.Put("/models/merges.txt", mdata)
	r.Sample = fmt.Sprintf("vocabulary: %s\nmerges: %s", clip(string(vdata)), clip(string(mdata)))
	words := append(r.lexicon(), "", "ab", "a b", "xx")
	for i := 0; i < 3 && len(terms) > 0; i++ {
		words = append(words, terms[r.n(len(terms))]+terms[r.n(len(terms))])
	}
	for i := range words {
		if len(words[i]) > 400 {
			words[i] = words[i][:400]
		}
	}
	adds := append(r.lexicon(), "new")
	r.D.PlanFor = r.slowDisk
	c := r.newCaller(0)
	r.Spawn("loader", func() {
		loadV := func() (v *vocabulary.Vocabulary, err error) {
			_, o := c.load("vocabulary.FromJSONFile", len(vdata), func() { v, err = vocabulary.FromJSONFile("/models/vocab.json") })
			r.mustNotPanic("vocabulary.FromJSONFile", o)
			return
		}
		keys := append(append(append([]string{}, terms...), words...), adds...)
		if m, e := refVocab(vdata); e == nil {
			keys = append(keys, sortedKeys(m)...)
		}
		va, ea := loadV()
		vb, eb := loadV()
		r.Checked++
		if (ea == nil) != (eb == nil) {
			r.Fail("the same bytes loaded once and failed once: %v / %v", ea, eb)
		}
		if ea != nil {
			return
		}
		same := func(when string) {
			r.Checked++
			if d := r.cmpVocabs(va, vb, keys); d != "" {
				r.Fail("two loads of the same bytes differ %s: %s", when, d)
			}
		}
		same("after loading")
		loadM := func(v *vocabulary.Vocabulary) (m *bpemodel.MergeMap, err error) {
			_, o := c.load("MergeMapFromFile", len(mdata), func() { m, err = bpemodel.MergeMapFromFile("/models/merges.txt", v, prefix) })
			r.mustNotPanic("MergeMapFromFile", o)
			return
		}
		if r.addsFirst(c) {
			r.addAll(va, adds)
			r.addAll(vb, adds)
			same("after the same additions")
		}
		ma, ema := loadM(va)
		mb, emb := loadM(vb)
		r.Checked++
		if (ema == nil) != (emb == nil) {
			r.Fail("the same merges loaded once and failed once: %v / %v", ema, emb)
		}
		if ema != nil {
			ma, mb = bpemodel.NewMergeMap(), bpemodel.NewMergeMap()
		} else if d := r.cmpMerges(ma, mb); d != "" {
			r.Fail("two loads of the same merges differ: %s", d)
		}
		r.use(va, vb, ma, mb, words)
		r.addAll(va, adds)
		r.addAll(vb, adds)
		same("after the same additions")
		r.use(va, vb, ma, mb, words)
	})
	r.schedule(1)
	r.Go()
}

func (r *Run) addsFirst(*caller) bool { return r.p(1, 3) }

func (r *Run) addAll(v *vocabulary.Vocabulary, terms []string) {
	o := r.op("AddTerm", 1<<12, func() {
		for _, t := range terms {
			v.AddTerm(t)
		}
	})
	r.mustNotPanic("AddTerm", o)
}

func (r *Run) cmpVocabs(a, b *vocabulary.Vocabulary, keys []string) (d string) {
	o := r.op("vocabulary lookups", 1<<16, func() {
		if a.Size() != b.Size() {
			d = fmt.Sprintf("size %d and %d", a.Size(), b.Size())
			return
		}
		for _, k := range keys {
			i, ok := a.GetID(k)
			j, ok2 := b.GetID(k)
			if i != j || ok != ok2 {
				d = fmt.Sprintf("term %q has IDs %d (%v) and %d (%v)", clip(k), i, ok, j, ok2)
				return
			}
			if ok {
				s, ok := a.GetString(i)
				t, ok2 := b.GetString(i)
				if s != t || ok != ok2 {
					d = fmt.Sprintf("ID %d belongs to %q and %q", i, clip(s), clip(t))
					return
				}
			}
		}
		for i := -8; i < a.Size()+8; i++ {
			s, ok := a.GetString(i)
			t, ok2 := b.GetString(i)
			if s != t || ok != ok2 {
				d = fmt.Sprintf("ID %d belongs to %q (%v) and %q (%v)", i, clip(s), ok, clip(t), ok2)
				return
			}
		}
	})
	r.mustNotPanic("vocabulary lookups", o)
	return
}

func (r *Run) cmpMerges(a, b *bpemodel.MergeMap) string {
	if len(*a) != len(*b) {
		return fmt.Sprintf("%d and %d merges", len(*a), len(*b))
	}
	x := map[string]string{}
	for k, v := range *a {
		x[fmt.Sprint(k)] = fmt.Sprint(v)
	}
	var diffs []string
	for k, v := range *b {
		if x[fmt.Sprint(k)] != fmt.Sprint(v) {
			diffs = append(diffs, fmt.Sprint(k))
		}
	}
	if len(diffs) > 0 {
		sort.Strings(diffs)
		return "merge " + diffs[0]
	}
	return ""
}

// use tokenizes with models on both copies; errors are fine, panics and
// differences are not.
func (r *Run) use(va, vb *vocabulary.Vocabulary, ma, mb *bpemodel.MergeMap, words []string) {
	mk := func(v *vocabulary.Vocabulary, m *bpemodel.MergeMap) []models.Model {
		return []models.Model{
			wordpiecemodel.New(v, "[UNK]", "##", 100),
			bpemodel.New(v, m, 10, 0, "", "", "", false),
			bpemodel.New(v, m, 10, 0, "[UNK]", "", "</w>", true),
		}
	}
	a, b := mk(va, ma), mk(vb, mb)
	for i := range a {
		for _, w := range words {
			var ta, tb []models.Token
			var ea, eb error
			o := r.op("Tokenize", 8*len(w), func() {
				ta, ea = a[i].Tokenize(w)
				tb, eb = b[i].Tokenize(w)
			})
			r.mustNotPanic(fmt.Sprintf("Tokenize(%q) with a damaged model", clip(w)), o)
			r.Checked++
			if (ea == nil) != (eb == nil) {
				r.Fail("models loaded from the same bytes: Tokenize(%q) gave %v and %v", clip(w), ea, eb)
			}
			if d := diffToks(obsToks(ta), obsToks(tb)); d != "" {
				r.Fail("models loaded from the same bytes: Tokenize(%q): %s", clip(w), d)
			}
		}
	}
}

// --- C16 ---

func profC16(r *Run) {
	lex := append(r.lexicon(), "a", "b", "[UNK]", "")
	path := "/models/vocab.json"
	haveFile := r.p(2, 3)
	base := map[string]int{}
	if haveFile {
		v := newVocabSpec()
		gap := r.n(3)
		next := r.n(4)
		for _, t := range lex {
			if r.p(1, 2) {
				v.add(t, next)
				next += 1 + r.n(1+gap)
			}
		}
		switch {
		case r.p(1, 12):
			v = newVocabSpec()
		case r.p(1, 8):
			v.add("neg", -1-r.n(3))
		}
		// a random order of IDs
		base = v.ids
		r.D.Put(path, v.json())
		if r.p(1, 20) {
			base = map[string]int{}
			r.D.Put(path, []byte("null"))
		}
		if r.p(1, 10) && len(lex) > 3 {
			base = map[string]int{"a": 1, "b": 1, "c": 2, "d": 5}
			r.D.Put(path, []byte(`{"a": 1, "b": 1, "c": 2, "d": 5}`))
		}
	}
	r.Sample = fmt.Sprintf("file: %v", base)
	r.D.PlanFor = r.badDisk(r.fn(3), 6, r.fileSize)
	var adds []string
	for k := 3 + r.n(14); k > 0; k-- {
		switch r.n(4) {
		case 0:
			t := r.word()
			if r.p(1, 4) {
				// A damaged term, or one that differs only in the damage
				t = t[:len(t)-r.n(2)] + pick(r, brokenBits)
			}
			adds = append(adds, t)
		case 1:
			if len(adds) > 0 {
				adds = append(adds, adds[r.n(len(adds))])
			}
		default:
			adds = append(adds, pick(r, lex))
		}
	}
	lives := 1 + r.n(4)
	crashes := make([]int, lives)
	kill := make([]int64, lives)
	for i := range crashes {
		crashes[i] = -1
		if i < lives-1 || r.fp(1, 2) {
			crashes[i] = r.fn(len(adds) + 1)
			kill[i] = int64(1 + r.fn(12))
		}
	}
	// Adding a known term changes nothing, so each life may add known terms
	// again in between, or leave them out.
	again := make([][]int, lives)
	leaveOut := make([]bool, lives)
	for i := range again {
		leaveOut[i] = r.p(1, 3)
		again[i] = make([]int, len(adds))
		if r.p(1, 2) {
			for k := range again[i] {
				again[i][k] = r.n(12) // one of the known terms if not zero
			}
		}
	}
	c := r.newCaller(0)
	record := map[string]int{} // every association ever observed
	owner := map[int]string{}
	r.Spawn("process", func() {
		for life := 0; life < lives; life++ {
			var v *vocabulary.Vocabulary
			if haveFile {
				for try := 0; ; try++ {
					var err error
					t, o := c.load("vocabulary.FromJSONFile", 4096, func() { v, err = vocabulary.FromJSONFile(path) })
					r.mustNotPanic("vocabulary.FromJSONFile", o)
					if err == nil {
						break
					}
					if !t.hard() {
						r.Fail("loading a valid vocabulary failed: %v", err)
					}
					if try > 3 {
						r.D.PlanFor = r.slowDisk
					}
				}
			} else {
				r.mustNotPanic("NewVocabulary", r.op("NewVocabulary", 0, func() { v = vocabulary.NewVocabulary() }))
			}
			known := map[string]int{}
			byID := map[int]string{}
			// check compares everything known with the vocabulary.
			check := func(when string) {
				r.Checked++
				d := ""
				o := r.op("vocabulary lookups", 1<<14, func() {
					for _, t := range sortedKeys(known) {
						id, ok := v.GetID(t)
						if !ok || id != known[t] {
							d = fmt.Sprintf("%q had ID %d, now %d (%v)", t, known[t], id, ok)
							return
						}
						s, ok := v.GetString(id)
						if !ok || s != byID[id] {
							d = fmt.Sprintf("ID %d belonged to %q, now to %q (%v)", id, byID[id], s, ok)
							return
						}
					}
					if n := v.Size(); n != len(known) {
						d = fmt.Sprintf("size is %d, expected %d", n, len(known))
						return
					}
					// What is not there yet is not found, and looking for it
					// leaves no trace.
					for id := -1; id < len(known)+4; id++ {
						if _, taken := byID[id]; taken {
							continue
						}
						if s, ok := v.GetString(id); ok {
							d = fmt.Sprintf("ID %d belongs to %q, but was never given to a term", id, s)
							return
						}
					}
					for _, t := range adds {
						if id, ok := v.GetID(t); ok != inMap(known, t) || ok && known[t] != id {
							d = fmt.Sprintf("%q has the ID %d (%v)", t, id, ok)
							return
						}
					}
				})
				r.mustNotPanic("vocabulary lookups", o)
				if d != "" {
					r.Fail("%s: %s (file %v)", when, d, base)
				}
				for _, t := range sortedKeys(known) {
					if id, ok := record[t]; ok && id != known[t] {
						r.Fail("%s: %q got ID %d, but %d in an earlier life of the process with the same file and additions", when, t, known[t], id)
					}
					record[t] = known[t]
				}
				var all []int
				for id := range byID {
					all = append(all, id)
				}
				sort.Ints(all)
				for _, id := range all {
					t := byID[id]
					if o, ok := owner[id]; ok && o != t {
						r.Fail("%s: ID %d belongs to %q, but to %q in an earlier life", when, id, t, o)
					}
					owner[id] = t
				}
			}
			learn := func(t string) {
				id, ok := v.GetID(t)
				if !ok {
					r.Fail("%q has no ID after AddTerm", t)
				}
				if o, taken := byID[id]; taken && o != t {
					r.Fail("the new term %q took the ID %d over from %q (file %v)", t, id, o, base)
				}
				known[t] = id
				byID[id] = t
			}
			for _, t := range sortedKeys(base) {
				known[t] = base[t]
				id := base[t]
				s, ok := "", false
				r.mustNotPanic("GetString", r.op("GetString", 16, func() { s, ok = v.GetString(id) }))
				if x, in := base[s]; !ok || !in || x != id {
					r.Fail("ID %d of %q belongs to %q after loading", id, t, s)
				}
				byID[id] = s
			}
			check("after loading")
			dead := false
			for i, t := range adds {
				if i == crashes[life] {
					r.S.CurTask().KillAt = kill[life]
				}
				if _, ok := known[t]; ok && leaveOut[life] && i != crashes[life] {
					continue
				}
				o := r.op("AddTerm", 1<<12, func() {
					if n := again[life][i]; n > 0 && len(known) > 0 {
						l := sortedKeys(known)
						// The last in order is drawn as often as the others.
						v.AddTerm(l[(len(l)-1)*(n-1)/10])
					}
					v.AddTerm(t)
				})
				r.S.CurTask().KillAt = 0
				if o.panicked {
					if _, ok := o.pv.(simrt.Crash); ok {
						dead = true
						r.note("restart")
						break // everything in memory is gone
					}
					r.mustNotPanic("AddTerm", o)
				}
				if _, ok := known[t]; !ok {
					learn(t)
				}
				check("after AddTerm(" + quote(t) + ")")
				// a failed load meanwhile changes nothing
				if haveFile && i%3 == 2 {
					var err error
					_, o := c.load("vocabulary.FromJSONFile", 4096, func() { _, err = vocabulary.FromJSONFile(path) })
					r.mustNotPanic("vocabulary.FromJSONFile", o)
					_ = err
					check("after another load")
				}
			}
			if !dead {
				// repeating the additions changes nothing
				r.addAll(v, adds)
				check("after repeating the additions")
			}
		}
	})
	r.schedule(1)
	r.Go()
}

func inMap(m map[string]int, k string) bool { _, ok := m[k]; return ok }

type builtVocab struct {
	spec *vocabSpec
	real *vocabulary.Vocabulary
}

func vocabOf(terms []string) *builtVocab {
	b := &builtVocab{newVocabSpec(), vocabulary.NewVocabulary()}
	for i, t := range terms {
		b.spec.add(t, i)
		b.real.AddTerm(t)
	}
	return b
}

// loadUntilGood loads from a failing disk until it works; the disk fails only
// so many times.
func (c *caller) loadUntilGood(v *builtVocab, prefix int, mdata, good []byte) {
	r := c.r
	for try := 0; ; try++ {
		if try >= 3 {
			r.D.PlanFor = r.slowDisk
		}
		var m *bpemodel.MergeMap
		var err error
		t, o := c.load("MergeMapFromFile", len(good)+len(mdata), func() { m, err = bpemodel.MergeMapFromFile("/models/good.txt", v.real, prefix) })
		r.mustNotPanic("MergeMapFromFile", o)
		r.checkMergesLoad(m, err, t, v.spec.ids, prefix)
		t2, o := c.load("MergeMapFromFile", len(good)+len(mdata), func() { m, err = bpemodel.MergeMapFromFile("/models/merges.txt", v.real, prefix) })
		r.mustNotPanic("MergeMapFromFile", o)
		var vv *vocabulary.Vocabulary
		t3, o := c.load("vocabulary.FromJSONFile", r.fileSize("/models/vocab.json"), func() { vv, err = vocabulary.FromJSONFile("/models/vocab.json") })
		r.mustNotPanic("vocabulary.FromJSONFile", o)
		_ = vv
		if !t.hard() && !t2.hard() && !t3.hard() {
			return
		}
	}
}
