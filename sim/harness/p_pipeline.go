package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"verif.local/harness/touch"
	"verif.local/simrt"
)

// shared is a set of components that several callers use.
type shared struct {
	w     *world
	lex   []string
	docs  []string
	pipes []*rpipe
	pats  []splitpattern.SplitPattern
	specs []*patSpec
}

func (r *Run) newShared(w *world, nDocs, maxWords, nPipes int, supplied bool) *shared {
	s := &shared{w: w, lex: r.lexicon()}
	s.docs = r.docs(s.lex, nDocs, maxWords)
	for i := 0; i < nPipes; i++ {
		p := r.newPipe(w, s.docs, supplied)
		if i > 0 && r.p(1, 3) {
			// another configuration on the same vocabulary and model
			p.model = s.pipes[0].spec.model
		}
		s.pipes = append(s.pipes, r.buildPipe(p))
	}
	n := 1 + r.n(3)
	for i := 0; i < n; i++ {
		ps := r.pat(w, 2)
		s.specs = append(s.specs, ps)
		s.pats = append(s.pats, ps.real(nil, nil))
	}
	if r.Sample == "" {
		r.Sample = s.describe()
	}
	return s
}

func (s *shared) describe() string {
	out := ""
	for _, b := range s.pipes {
		out += b.spec.String() + "\n"
	}
	for i, d := range s.docs {
		if i < 3 {
			out += "document " + quote(d) + "\n"
		}
	}
	return out
}

func (p *pipe) String() string {
	t := "pipeline: "
	if p.norm != nil {
		t += p.norm.String()
	} else {
		t += "no normalizer"
	}
	for _, s := range p.pres {
		t += " | " + s.String()
	}
	if p.model != nil {
		t += " | " + p.model.String()
	}
	return t
}

// words of the documents as the models see them.
func (s *shared) word(r *Run, b *rpipe) string {
	if r.p(1, 6) {
		return r.word()
	}
	sp := b.spec.refSplits(pick(r, s.docs)).sp
	if len(sp) == 0 {
		return pick(r, s.lex)
	}
	t := sp[r.n(len(sp))].ns.norm()
	if r.p(1, 8) {
		return r.sibling(t)
	}
	return t
}

// job is one call a caller is going to make, with the expected outcome already
// worked out by the reference model.
type job func(c *caller)

// readOnlyJob draws a call without failures.
func (s *shared) readOnlyJob(r *Run) job {
	b := s.pipes[r.n(len(s.pipes))]
	switch r.n(15) {
	case 14:
		return s.loads(r, b)
	case 13:
		doc := pick(r, s.docs)
		at := r.n(1 << 16)
		return func(c *caller) { c.convert(doc, at) }
	case 12:
		return s.flood(r, b)
	case 0, 1, 2, 3:
		doc := pick(r, s.docs)
		return func(c *caller) { c.deliver(b, doc) }
	case 4, 5:
		word := s.word(r, b)
		want, e := b.spec.model.ref(word)
		return func(c *caller) { c.tokenizeWord(b.model, b.spec.model, word, want, e) }
	case 6, 7:
		i := r.n(len(s.pats))
		doc := pick(r, s.docs)
		want := s.specs[i].ref(doc)
		return func(c *caller) { c.findMatches(s.pats[i], s.specs[i], doc, want) }
	case 8:
		v := b.spec.model.v
		keys := append(append([]string{}, v.list...), s.lex...)
		return func(c *caller) { c.lookups(v, keys) }
	case 9:
		if b.norm == nil {
			return func(c *caller) {}
		}
		doc := pick(r, s.docs)
		return func(c *caller) {
			var ns *normalizedstring.NormalizedString
			res := c.do("Normalize", 4*len(doc), 1, func() error {
				ns = normalizedstring.FromString(doc)
				return b.norm.Normalize(ns)
			})
			if res.failed {
				r.Fail("Normalize with %v failed: %v", b.spec.norm, res.err)
			}
			ref := refFrom(doc)
			b.spec.norm.ref(ref, nil)
			r.wantNS("after "+b.spec.norm.String(), ns, ref)
		}
	case 10:
		// a component of its own, made while others work
		doc := pick(r, s.docs)
		p := *b.spec
		for k := r.n(4); k > 0; k-- {
			p = r.vary(s.w, p)
		}
		p.prebuild()
		return func(c *caller) {
			own := &rpipe{spec: &p}
			o := r.op("construct", 0, func() {
				if p.norm != nil {
					own.norm = p.norm.real(r, nil)
				}
				for _, x := range p.pres {
					own.pres = append(own.pres, x.real(nil, nil))
				}
				own.model = p.model.real(r)
			})
			r.mustNotPanic("constructing components", o)
			c.deliver(own, doc)
		}
	default:
		doc := pick(r, s.docs)
		e := r.edit(s.w)
		ed := []*edit{e, r.edit(s.w)}
		var pats []splitpattern.SplitPattern
		for _, x := range ed {
			if x.pat != nil {
				pats = append(pats, x.pat.real(nil, nil))
			} else {
				pats = append(pats, nil)
			}
		}
		return func(c *caller) {
			var ns *normalizedstring.NormalizedString
			o := r.op("edits", 8*len(doc), func() {
				ns = normalizedstring.FromString(doc)
				for i, x := range ed {
					if err := x.apply(r, ns, pats[i], nil); err != nil {
						panic(err)
					}
				}
			})
			r.mustNotPanic("edits", o)
			ref := refFrom(doc)
			for _, x := range ed {
				x.ref(ref)
			}
			r.wantNS("after "+ed[0].String()+", "+ed[1].String(), ns, ref)
		}
	}
}

// loads loads the files a model could come from, while others do the same.
func (s *shared) loads(r *Run, b *rpipe) job {
	m := b.spec.model
	vpath := fmt.Sprintf("/models/loaded-%d.json", r.next())
	r.D.Put(vpath, m.v.json())
	want, _ := refVocab(m.v.json())
	mpath, prefix := "", 0
	var wantM map[[2]int]refMerge
	if m.bpe != nil && m.own == 0 {
		mpath, prefix = fmt.Sprintf("/models/loaded-%d.txt", r.next()), len(m.bpe.prefix)
		r.D.Put(mpath, m.bpe.mergesText())
		wantM, _ = refMerges(m.bpe.mergesText(), m.v.ids, prefix)
	}
	v := r.buildVocab(m.v)
	return func(c *caller) {
		var rv *vocabulary.Vocabulary
		var err error
		_, o := c.load("vocabulary.FromJSONFile", r.fileSize(vpath), func() { rv, err = vocabulary.FromJSONFile(vpath) })
		r.mustNotPanic("vocabulary.FromJSONFile", o)
		if err != nil {
			r.Fail("loading a valid vocabulary from a healthy disk failed: %v", err)
		}
		if d := r.diffVocab(rv, want, s.lex); d != "" {
			r.Fail("after loading a vocabulary while others do: %s", d)
		}
		if mpath == "" {
			return
		}
		var mm *bpemodel.MergeMap
		_, o = c.load("MergeMapFromFile", r.fileSize(mpath), func() { mm, err = bpemodel.MergeMapFromFile(mpath, v, prefix) })
		r.mustNotPanic("MergeMapFromFile", o)
		if (err == nil) != (wantM != nil) {
			r.Fail("loading merges while others do gave error %v; valid: %v", err, wantM != nil)
		}
		if err == nil {
			if d := r.diffMerges(mm, wantM, len(m.v.ids)); d != "" {
				r.Fail("after loading merges while others do: %s", d)
			}
		}
	}
}

// flood draws many calls on different words, then some of them again, so that
// whatever the model remembers fills up and is evicted.
func (s *shared) flood(r *Run, b *rpipe) job {
	n := 5 + r.n(20)
	switch {
	case r.p(1, 400):
		n = 10050 // beyond the default capacity of the word cache
	case r.p(1, 40):
		n = 300 + r.n(1500)
	}
	m := b.spec.model
	a, z := pick(r, s.lex), pick(r, s.lex)
	step := 1 + r.n(7)
	if n > 100 {
		r.probe("flood")
	}
	return func(c *caller) {
		word := func(i int) string {
			// digits of i in the letters of the lexicon: all different
			w := []byte(a)
			for x := i*step + 1; x > 0; x /= 8 {
				w = append(w, "abelnost"[x%8])
			}
			return string(w)
		}
		one := func(w string) {
			want, e := m.ref(w)
			c.tokenizeWord(b.model, m, w, want, e)
		}
		one(z)
		for i := 0; i < n; i++ {
			one(word(i))
		}
		for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
			one(word(i))
		}
		one(z)
	}
}

func (c *caller) tokenizeWord(m models.Model, spec *modelSpec, word string, want []rtok, e refErr) {
	r := c.r
	var toks []models.Token
	var err error
	o := r.op("model.Tokenize", 4*len(word), func() { toks, err = m.Tokenize(word) })
	r.mustNotPanic("model.Tokenize", o)
	r.Checked++
	if e != errNone {
		if !spec.failsWith(e, err) {
			r.Fail("%v: Tokenize(%q) gave error %v, expected %v", spec, word, err, e)
		}
		return
	}
	if err != nil {
		r.Fail("%v: Tokenize(%q) failed: %v", spec, word, err)
	}
	if d := diffToks(obsToks(toks), want); d != "" {
		r.Fail("%v: Tokenize(%q): %s", spec, word, d)
	}
	c.keepToks(toks)
}

func (c *caller) findMatches(p splitpattern.SplitPattern, spec *patSpec, doc string, want []rcap) {
	r := c.r
	var caps []splitpattern.Capture
	var err error
	stalled := r.stalls
	o := r.op("FindMatches", 4*len(doc), func() { caps, err = p.FindMatches(doc) })
	r.mustNotPanic("FindMatches", o)
	r.Checked++
	if err != nil {
		if spec.timed() && r.stalls > stalled && isTimeout(err) {
			return
		}
		r.Fail("pattern %v on %q failed: %v", spec, clip(doc), err)
	}
	if d := diffCaps(obsCaps(caps), want); d != "" {
		r.Fail("pattern %v on %q: %s", spec, clip(doc), d)
	}
	c.keepCaps(caps)
}

// lookups checks a vocabulary in both directions.
func (c *caller) lookups(v *vocabSpec, keys []string) {
	r := c.r
	type ans struct {
		id   int
		ok   bool
		back string
		bok  bool
	}
	got := make([]ans, len(keys))
	size := 0
	o := r.op("vocabulary lookups", 16*len(keys), func() {
		for i, k := range keys {
			a := ans{}
			a.id, a.ok = v.real.GetID(k)
			if a.ok {
				a.back, a.bok = v.real.GetString(a.id)
			}
			got[i] = a
		}
		size = v.real.Size()
	})
	r.mustNotPanic("vocabulary lookups", o)
	r.Checked++
	if size != len(v.list) {
		r.Fail("vocabulary of %d terms reports size %d", len(v.list), size)
	}
	for i, k := range keys {
		id, ok := v.id(k)
		a := got[i]
		if a.ok != ok || ok && (a.id != id || !a.bok || a.back != k) {
			r.Fail("vocabulary lookup of %q: %+v, expected ID %d (%v)", k, a, id, ok)
		}
	}
}

// --- C01 ---

func profC01(r *Run) {
	w := &world{own: r.p(1, 2)}
	n := 2 + r.n(4)
	if r.p(1, 40) {
		n = 6 + r.n(14) // more callers than any small pool or ring has slots
		r.probe("many-callers")
	}
	s := r.newShared(w, 2+r.n(4), 8, 1+r.n(2), true)
	jobs := make([][]job, n)
	draw := func() job { return s.readOnlyJob(r) }
	if r.p(1, 8) {
		// one of the components draws at random
		spec := r.dropoutModel(s.lex, []float64{0.5, 0.1, 0.9, 1}[r.n(4)])
		real := spec.real(r)
		draw = func() job {
			if r.p(1, 2) {
				return s.readOnlyJob(r)
			}
			w := pick(r, s.lex)
			return func(c *caller) { c.dropout(real, spec, w, 0) }
		}
	}
	// Often all callers make the same kinds of calls on the same components.
	same := r.p(1, 2)
	var common []job
	for i := range jobs {
		k := 1 + r.n(4)
		if same {
			for len(common) < k {
				common = append(common, draw())
			}
			jobs[i] = common[:k]
			continue
		}
		for j := 0; j < k; j++ {
			jobs[i] = append(jobs[i], draw())
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		r.Spawn("caller", func() {
			for _, j := range jobs[i] {
				j(c)
			}
		})
	}
	r.schedule(n)
	r.Go()
}

// --- C13 ---

func profC13(r *Run) {
	w := &world{timeout: r.p(1, 3), own: true}
	n := 1 + r.n(4)
	if r.p(1, 2) {
		// models come from a disk that delivers slowly but surely
		r.D.PlanFor = r.slowDisk
	}
	s := r.newShared(w, 2+r.n(4), 10, 1+r.n(2), true)
	if s.pipes[0].spec.model.own == 0 && r.p(1, 1200) {
		r.huge(w, s)
	}
	if w.timeout {
		r.stallClock(1, 12)
	}
	type work struct {
		b   *rpipe
		doc string
	}
	jobs := make([][]work, n)
	for i := range jobs {
		k := 1 + r.n(4)
		for j := 0; j < k; j++ {
			jobs[i] = append(jobs[i], work{s.pipes[r.n(len(s.pipes))], pick(r, s.docs)})
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		c.faults = r.fn(4)
		c.stalls = r.fn(3)
		r.Spawn("caller", func() {
			for _, j := range jobs[i] {
				enc, want, ok := c.deliver(j.b, j.doc)
				if !ok {
					continue
				}
				c.checkWellFormed(j.doc, j.b, enc, want)
			}
		})
	}
	r.schedule(n)
	r.Go()
}

// huge makes the run one about documents whose offsets do not fit 16 bits. The
// components are the ones whose work does not grow with the square of the size.
func (r *Run) huge(w *world, s *shared) {
	p := &pipe{word: -1, model: s.pipes[0].spec.model}
	if k := r.n(4); k < 3 {
		p.norm = &normSpec{kind: []int{nkBert, nkLower, nkStrip}[k]}
		for i := range p.norm.flags {
			p.norm.flags[i] = r.p(1, 2)
		}
	}
	p.pres = []*preSpec{{kind: []int{tkBert, tkMeta, tkRune, tkWSSplit}[r.n(4)], r: ' ', pfx: r.p(1, 2)}}
	s.pipes = []*rpipe{r.buildPipe(p)}
	word := s.lex[0]
	for _, c := range word {
		if unicode.Is(unicode.Han, c) || unicode.IsSpace(c) {
			word = "word" // the normalizer would make thousands of words of it
		}
	}
	filler := strings.Repeat(strings.Repeat(word, 1+200/len(word))+" ", 330)
	for i := range s.docs {
		s.docs[i] = filler + s.docs[i]
	}
	r.probe("huge-document")
}

// checkWellFormed checks what an encoding promises on its own.
func (c *caller) checkWellFormed(doc string, b *rpipe, enc *encodings.Encoding, want renc) {
	r := c.r
	got := obsEnc(enc)
	n := len(got.ids)
	if len(got.offs) != n || len(got.toks) != n || len(got.words) != n || len(got.types) != n {
		r.Fail("parallel fields of an encoding differ in length: %+v", got)
	}
	v := b.spec.model.v
	var runes [][2]int
	o := r.op("offset conversion", 2*len(doc), func() {
		conv := strutils.NewBytesToRuneOffsetConverter(doc)
		for i, f := range got.offs {
			if want.offs[i][0] < 0 {
				runes = append(runes, [2]int{})
				continue
			}
			x := conv.Convert(strutils.ByteOffsets{Start: f[0], End: f[1]})
			runes = append(runes, [2]int{x.Start, x.End})
		}
	})
	r.mustNotPanic("offset conversion", o)
	before := make([]int, len(doc)+1) // characters before a byte
	for i, k := 0, 0; i < len(doc); k++ {
		_, size := utf8.DecodeRuneInString(doc[i:])
		for j := 1; j <= size; j++ {
			before[i+j] = k + 1
		}
		i += size
	}
	for i := 0; i < n; i++ {
		if t, ok := v.terms[got.ids[i]]; b.spec.model.own == 0 && (!ok || t != got.toks[i]) {
			r.Fail("token %d is %q with ID %d, but that ID belongs to %q", i, got.toks[i], got.ids[i], t)
		}
		f := got.offs[i]
		if want.offs[i][0] < 0 {
			continue // a token without text
		}
		if f[0] < 0 || f[0] > f[1] || f[1] > len(doc) {
			r.Fail("offsets %v of token %d are outside the document of %d bytes", f, i, len(doc))
		}
		if !strutils.IsRuneBoundary(doc, f[0]) || !strutils.IsRuneBoundary(doc, f[1]) {
			r.Fail("offsets %v of token %d (%q) cut through a character of %q", f, i, got.toks[i], clip(doc))
		}
		a, e := before[f[0]], before[f[1]]
		if runes[i] != [2]int{a, e} {
			r.Fail("byte offsets %v of %q convert to characters %v, expected %d..%d", f, clip(doc), runes[i], a, e)
		}
	}
	r.Checked++
}

// --- C02 ---

func profC02(r *Run) {
	w := &world{timeout: r.p(1, 3), own: r.p(1, 2)}
	s := r.newShared(w, 2+r.n(5), 6, 1+r.n(3), true)
	endure := r.p(1, 80) // a long life with many failures
	if endure {
		r.probe("endurance")
	}
	if w.timeout {
		r.stallClock(1, []int{6, 2}[b2i(endure)])
	}
	n := 1
	if r.p(1, 3) {
		n = 2
	}
	type step struct {
		kind   int
		j      job
		b      *rpipe
		doc    string
		faults int
		cut    int
		h      *history
	}
	plans := make([][]step, n)
	for i := range plans {
		k := 4 + r.n(12)
		if endure {
			k += 150
		}
		for x := 0; x < k; x++ {
			st := step{kind: r.n(5), b: s.pipes[r.n(len(s.pipes))], doc: pick(r, s.docs)}
			switch st.kind {
			case 0:
				st.j = s.readOnlyJob(r)
			case 1:
				st.faults = 1 + r.fn(3)
				if endure {
					st.faults += r.fn(20)
				}
			case 2:
				st.cut = r.n(4)
			case 4: // a string of the caller's own, dropped or kept after a failure
				st.h = r.history(w, s.lex, 4)
				st.faults = 1 + r.fn(3)
				st.cut = r.n(2)
			}
			plans[i] = append(plans[i], st)
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		c.stalls = r.fn(4)
		if endure {
			c.stalls = 50 + r.fn(150)
			c.sure = r.fp(1, 2)
		}
		r.Spawn("caller", func() {
			for _, st := range plans[i] {
				switch st.kind {
				case 0:
					st.j(c)
				case 1: // with failures and retries
					c.faults = st.faults
					c.deliver(st.b, st.doc)
					c.faults = 0
				case 2: // abandoned half way
					c.abandon(st.b, st.doc, st.cut)
				case 4:
					c.live(st.h, st.faults, st.cut == 0)
				default:
					c.deliver(st.b, st.doc)
				}
			}
		})
	}
	r.schedule(n)
	r.Go()
}

// convert converts byte ranges of a document, which begin and end with
// characters, into ranges of characters.
func (c *caller) convert(doc string, from int) {
	r := c.r
	var starts []int
	for i := range doc {
		starts = append(starts, i)
	}
	n := len(starts)
	starts = append(starts, len(doc))
	d := ""
	o := r.op("offset conversion", 2*len(doc), func() {
		conv := strutils.NewBytesToRuneOffsetConverter(doc)
		for k := 0; k < 6; k++ {
			s := (from + k*7) % (n + 1)
			e := s + (from/7+k*k)%(n+1-s)
			if k == 0 {
				e = n
			}
			got := conv.Convert(strutils.ByteOffsets{Start: starts[s], End: starts[e]})
			if got.Start != s || got.End != e {
				d = fmt.Sprintf("bytes %d..%d are the characters %v, expected %d..%d", starts[s], starts[e], got, s, e)
				return
			}
		}
	})
	r.mustNotPanic("offset conversion", o)
	r.Checked++
	if d != "" {
		r.Fail("offset conversion of %q: %s", clip(doc), d)
	}
}

// abandon starts on a document and drops it after a stage or a failure.
func (c *caller) abandon(b *rpipe, doc string, stage int) {
	r := c.r
	r.S.Fault("abandoned-document")
	var ns *normalizedstring.NormalizedString
	r.mustNotPanic("FromString", r.op("FromString", len(doc), func() { ns = normalizedstring.FromString(doc) }))
	c.faults = 1
	defer func() { c.faults = 0 }()
	if b.norm != nil {
		if res := c.do("Normalize", 4*len(doc), 3, func() error { return b.norm.Normalize(ns) }); res.failed {
			return
		}
	}
	if stage == 0 {
		return
	}
	pts := pretokenizedstring.FromNormalizedString(ns)
	for _, p := range b.pres {
		if res := c.do("PreTokenize", 8*len(doc)+8, 6, func() error { return p.PreTokenize(pts) }); res.failed {
			return
		}
	}
	if stage == 1 {
		return
	}
	n := 0
	c.do("Tokenize", 8*len(doc)+8, 6, func() error {
		return pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
			if err := hook("tokenizer"); err != nil {
				return leakTokens(ns.Get()), err
			}
			n++
			return b.model.Tokenize(ns.Get())
		})
	})
	if stage == 2 {
		return
	}
	var enc *encodings.Encoding
	r.mustNotPanic("IntoEncoding", r.op("IntoEncoding", len(doc), func() { enc, _ = pts.IntoEncoding(-1, 0) }))
	if enc != nil {
		touch.Encoding(enc, r.some())
	}
}

// --- C11 ---

func profC11(r *Run) {
	w := &world{timeout: true}
	n := 1 + r.n(3)
	s := r.newShared(w, 2+r.n(4), 10, 1, false)
	// Make sure timed expressions are in use.
	var pres []*preSpec
	for len(pres) < 1+r.n(2) {
		k := []int{tkByteLevel, tkWS, tkCustom}[r.n(3)]
		p := &preSpec{kind: k}
		switch k {
		case tkByteLevel:
			p.re2, p.pfx, p.trim = r.re2(w, 1), r.p(1, 2), r.p(1, 2)
		case tkWS:
			p.re2 = r.re2(w, 2)
		default:
			p.pat = &patSpec{kind: pkRegexp2, re2: r.re2(w, 0)}
			if r.p(1, 3) {
				p.pat = &patSpec{kind: pkInvert, inner: p.pat}
			}
			p.behav = r.n(5)
		}
		pres = append(pres, p)
	}
	s.pipes[0].spec.pres = pres
	spec := s.pipes[0].spec
	b := r.buildPipe(spec)
	b.norm = s.pipes[0].norm
	endure := r.p(1, 80) // time-outs without end
	if endure {
		r.stallClock(1, 2)
		r.probe("endurance")
	} else {
		r.stallClock(1, []int{3, 10, 40}[r.n(3)])
	}
	var ps []*patSpec
	var pats []splitpattern.SplitPattern
	for i := 0; i < 2; i++ {
		p := &patSpec{kind: pkRegexp2, re2: r.re2(w, 0)}
		if r.p(1, 4) {
			p = &patSpec{kind: pkInvert, inner: p}
		}
		ps = append(ps, p)
		pats = append(pats, p.real(nil, nil))
	}
	plans := make([][]job, n)
	for i := range plans {
		k := 1 + r.n(4)
		for j := 0; j < k; j++ {
			doc := pick(r, s.docs)
			switch r.n(4) {
			case 0, 1:
				plans[i] = append(plans[i], func(c *caller) { c.deliver(b, doc) })
			case 2:
				x := r.n(2)
				want := ps[x].ref(doc)
				plans[i] = append(plans[i], func(c *caller) { c.findMatches(pats[x], ps[x], doc, want) })
			default:
				x := r.n(2)
				behav := r.n(5)
				rep := r.p(1, 3)
				content := r.str()
				plans[i] = append(plans[i], func(c *caller) { c.timedSplit(pats[x], ps[x], doc, behav, rep, content) })
			}
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		c.stalls = 1 + r.fn(4)
		if endure {
			c.stalls += 50 + r.fn(200)
		}
		r.Spawn("caller", func() {
			for _, j := range plans[i] {
				j(c)
			}
			// The clock behaves again: everything must work.
			save := c.stalls
			c.stalls = 0
			r.noStalls(func() {
				for _, j := range plans[i] {
					j(c)
				}
			})
			c.stalls = save
			r.wantRegexes()
		})
	}
	r.schedule(n)
	r.Go()
}

// noStalls is only a marker: other callers' stalls may still hit this one, so
// results are judged as everywhere else.
func (r *Run) noStalls(fn func()) { fn() }

func (c *caller) timedSplit(p splitpattern.SplitPattern, spec *patSpec, doc string, behav int, replace bool, content string) {
	r := c.r
	var ns *normalizedstring.NormalizedString
	ref := refFrom(doc)
	r.mustNotPanic("FromString", r.op("FromString", len(doc), func() { ns = normalizedstring.FromString(doc) }))
	for {
		stalled := r.stalls
		var out []*normalizedstring.NormalizedString
		var err error
		name := "NormalizedString.Split"
		o := r.op(name, 8*len(doc), func() {
			if replace {
				err = ns.Replace(p, content)
			} else {
				out, err = ns.Split(p, behaviours[behav])
			}
		})
		r.mustNotPanic(name, o)
		if err != nil {
			if !isTimeout(err) || !spec.timed() || r.stalls == stalled {
				r.Fail("splitting %q by %v failed: %v (clock stalls during the call: %d)", clip(doc), spec, err, r.stalls-stalled)
			}
			r.wantNS("after a timed-out call", ns, ref)
			continue
		}
		if replace {
			ref.replace(spec.ref(ref.norm()), content)
			r.wantNS("after Replace by "+spec.String(), ns, ref)
			return
		}
		r.wantPieces("split of "+quote(clip(doc))+" by "+spec.String()+" "+behavNames[behav], out, ref.split(spec.ref(doc), behav))
		return
	}
}

// wantPieces compares the non-empty pieces of a split.
func (r *Run) wantPieces(what string, got []*normalizedstring.NormalizedString, want []*rns) {
	var g []nsObs
	for _, x := range got {
		o := r.seeNS(x)
		if !o.empty {
			g = append(g, o)
		}
	}
	var ws []nsObs
	for _, x := range want {
		if len(x.ch) > 0 {
			ws = append(ws, refObsNS(x))
		}
	}
	r.Checked++
	if len(g) != len(ws) {
		r.Fail("%s: %d pieces, expected %d", what, len(g), len(ws))
	}
	for i := range g {
		if d := diffNS(g[i], ws[i]); d != "" {
			r.Fail("%s: piece %d: %s", what, i, d)
		}
	}
}

func (r *Run) probe(name string) { simrt.Active().Probe(name) }
