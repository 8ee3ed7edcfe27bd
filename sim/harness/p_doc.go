package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"verif.local/harness/touch"
	"verif.local/simrt"
)

// startDoc makes a document with an optional normalizer and first split.
func (c *caller) startDoc(doc string, norm *normSpec) (*pretokenizedstring.PreTokenizedString, *rpts) {
	r := c.r
	var pts *pretokenizedstring.PreTokenizedString
	ref := refFrom(doc)
	o := r.op("start", 8*len(doc), func() {
		ns := normalizedstring.FromString(doc)
		if norm != nil {
			if err := norm.real(r, nil).Normalize(ns); err != nil {
				panic(err)
			}
		}
		if norm == nil && len(doc)%2 == 1 {
			pts = pretokenizedstring.FromString(doc)
		} else {
			pts = pretokenizedstring.FromNormalizedString(ns)
		}
	})
	r.mustNotPanic("starting a document", o)
	if norm != nil {
		norm.ref(ref, nil)
	}
	return pts, refPts(ref)
}

// splitStep is one Split call with supplied code.
type splitStep struct {
	pat    *patSpec
	behav  int
	edit   *edit // what the split function does to the string first, if anything
	direct int   // 0: pattern; 1: returns the string itself; 2: returns nothing for some
	attach int   // attaches tokens to every attach-th piece, if positive
}

func (r *Run) splitStep(w *world) *splitStep {
	s := &splitStep{pat: r.pat(w, 2), behav: r.n(5)}
	if r.p(1, 2) {
		s.pat = &patSpec{kind: pkHooked, inner: s.pat}
	}
	if r.p(1, 5) {
		s.direct = 1 + r.n(2)
	}
	if r.p(1, 4) {
		s.attach = 1 + r.n(4)
	}
	return s
}

func (s *splitStep) String() string {
	a := ""
	if s.attach > 0 {
		a = fmt.Sprintf(", tokens for every %d", s.attach)
	}
	return fmt.Sprintf("Split(%v, %s, %d%s)", s.pat, behavNames[s.behav], s.direct, a)
}

// tokens is what the split function attaches to a piece it makes.
func (s *splitStep) tokens(i, k int, text string) ([]models.Token, bool) {
	if s.attach == 0 || text == "" || (i+k)%s.attach != s.attach-1 {
		return nil, false
	}
	return plainTokens(text, i+k), true
}

func (s *splitStep) ref(p *rpts) {
	p.splitTok(func(i, k int, n *rns) ([]rtok, bool) {
		t, ok := s.tokens(i, k, n.norm())
		return obsToks(t), ok
	}, func(i int, n *rns) []*rns {
		switch s.direct {
		case 1:
			return []*rns{n}
		case 2:
			if i%2 == 1 {
				return nil
			}
			return []*rns{n}
		}
		return n.split(s.pat.ref(n.norm()), s.behav)
	})
}

// split runs a splitStep on the real document and checks what the split
// function is given.
func (c *caller) split(pts *pretokenizedstring.PreTokenizedString, rp *rpts, s *splitStep, pat splitpattern.SplitPattern, size int) result {
	r := c.r
	type call struct {
		i    int
		text string
	}
	var got []call
	c.many = len(rp.sp) - countHas(rp)
	res := c.do("Split", 8*size+8, 10, func() error {
		return pts.Split(func(i int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
			text := ns.Get()
			simrt.HideOn()
			got = append(got, call{i, text})
			simrt.HideOff()
			if err := hook("split function"); err != nil {
				return leakSplits(ns), err
			}
			nss := []*normalizedstring.NormalizedString{ns}
			if s.direct == 2 && i%2 == 1 {
				return nil, nil
			}
			if s.direct == 0 {
				var err error
				nss, err = ns.Split(pat, behaviours[s.behav])
				if err != nil {
					return nil, err
				}
			}
			k := 0
			out := pretokenizedstring.SplitsFromNormalizedStrings(nss)
			for j := range out {
				if out[j].NormalizedString.IsEmpty() {
					continue
				}
				if t, ok := s.tokens(i, k, out[j].NormalizedString.Get()); ok {
					out[j].Tokens = &t
				}
				k++
			}
			return out, nil
		})
	})
	var want []call
	for i, x := range rp.sp {
		if !x.has {
			want = append(want, call{i, x.ns.norm()})
		}
	}
	if len(got) > len(want) || !res.failed && len(got) != len(want) {
		r.Fail("%v: the split function was called %d times for %d splits without tokens", s, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			r.Fail("%v: call %d of the split function got split %d %q, expected split %d %q", s, i, got[i].i, got[i].text, want[i].i, want[i].text)
		}
	}
	return res
}

// tokenizeSome attaches tokens to some splits by way of a failing Tokenize.
func (c *caller) tokenizeSome(pts *pretokenizedstring.PreTokenizedString, rp *rpts, k int) {
	r := c.r
	n := 0
	stop := &InjErr{c.id, -1, "tokenizer"}
	var err error
	o := r.op("Tokenize", 1024, func() {
		err = pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
			if n == k {
				if k%2 == 1 {
					return plainTokens(ns.Get(), 1), stop
				}
				return nil, stop
			}
			n++
			return plainTokens(ns.Get(), n), nil
		})
	})
	r.mustNotPanic("Tokenize", o)
	j := 0
	for i := range rp.sp {
		if rp.sp[i].has {
			continue
		}
		if j == k {
			if err != error(stop) {
				r.Fail("Tokenize returned %v, expected the tokenizer's own error", err)
			}
			break
		}
		j++
		rp.sp[i].toks, rp.sp[i].has = obsToks(plainTokens(rp.sp[i].ns.norm(), j)), true
	}
	r.wantPts("after a partial Tokenize", pts, rp)
}

// leakTokens and leakSplits are what failing supplied code returns along with
// its error.
func leakTokens(text string) []models.Token {
	if !leaking() {
		return nil
	}
	return plainTokens(text, 1)
}

func leakSplits(ns *normalizedstring.NormalizedString) []pretokenizedstring.Split {
	if !leaking() {
		return nil
	}
	return pretokenizedstring.SplitsFromNormalizedStrings([]*normalizedstring.NormalizedString{ns})
}

// plainTokens is a tokenizer made of characters; every third call yields none.
func plainTokens(s string, n int) []models.Token {
	if n%3 == 0 {
		return nil
	}
	var out []models.Token
	for i, c := range s {
		if len(out) == 6 {
			break
		}
		t := models.Token{ID: int(c), Value: string(c)}
		t.Offsets.Start, t.Offsets.End = i, i+len(string(c))
		out = append(out, t)
	}
	return out
}

// --- C07 ---

func profC07(r *Run) {
	w := &world{timeout: r.p(1, 2)}
	n := 1
	if r.p(1, 3) {
		n = 2
	}
	lex := r.lexicon()
	r.stallClock(1, 8)
	type plan struct {
		doc    string
		norm   *normSpec
		pre    []*preSpec
		before int
		steps  []*splitStep
		some   []int
		faults int
		stalls int
	}
	var plans []*plan
	for i := 0; i < n; i++ {
		p := &plan{doc: r.doc(lex, 10), before: r.n(4), faults: 1 + r.fn(4), stalls: r.fn(3)}
		if r.p(1, 2) {
			p.norm = r.norm(w, 1, false)
		}
		for k := 1 + r.n(3); k > 0; k-- {
			p.steps = append(p.steps, r.splitStep(w))
			p.some = append(p.some, r.n(5)-2)
		}
		for k := r.n(3); k > 0; k-- {
			p.pre = append(p.pre, r.pre(w, true))
		}
		plans = append(plans, p)
	}
	r.Sample = fmt.Sprintf("document %q, steps %v then %v", plans[0].doc, plans[0].steps, plans[0].pre)
	for i := 0; i < n; i++ {
		p := plans[i]
		c := r.newCaller(i)
		c.stalls = p.stalls
		r.Spawn("caller", func() {
			pts, rp := c.startDoc(p.doc, p.norm)
			c.faults = p.faults
			step := func(what string, text bool, run func() result, ref func()) {
				for {
					before := refObsPts(rp)
					res := run()
					if !res.failed {
						ref()
						r.wantPts("after "+what, pts, rp)
						return
					}
					if !r.injected(res) && !res.timeout {
						r.Fail("%s failed: %v", what, res.err)
					}
					if d := diffPts(r.seePts(pts), before, text, true); d != "" {
						r.Fail("after a failed %s: %s", what, d)
					}
					r.Checked++
				}
			}
			for k, s := range p.steps {
				s := s
				if p.some[k] > 0 {
					f := c.faults
					c.faults = 0
					c.tokenizeSome(pts, rp, p.some[k])
					c.faults = f
				}
				pat := s.pat.real(hook, nil)
				step(s.String(), true, func() result { return c.split(pts, rp, s, pat, len(p.doc)) }, func() { s.ref(rp) })
			}
			for _, s := range p.pre {
				s := s
				real := s.real(hook, nil)
				step("pre-tokenizer "+s.String(), !s.mutatesText(), func() result {
					return c.do("PreTokenize", 8*len(p.doc)+8, 8, func() error { return real.PreTokenize(pts) })
				}, func() { s.ref(rp) })
			}
		})
	}
	r.schedule(n)
	r.Go()
}

// --- C08 ---

func profC08(r *Run) {
	w := &world{}
	n := 1
	if r.p(1, 3) {
		n = 2
	}
	lex := r.lexicon()
	var docs []string
	for i := 0; i < n; i++ {
		docs = append(docs, r.doc(lex, 10))
	}
	var pipes []*rpipe
	for i := 0; i < n; i++ {
		p := r.newPipe(w, docs, false)
		pipes = append(pipes, r.buildPipe(p))
	}
	type act struct {
		kind int // 0 tokenize, 1 split, 2 normalize, 3 encode
		some int
		st   *splitStep
		ed   *edit
	}
	plans := make([][]act, n)
	for i := range plans {
		for k := 1 + r.n(5); k > 0; k-- {
			a := act{kind: r.n(4), some: r.n(6)}
			a.st = r.splitStep(w)
			a.ed = r.edit(w)
			plans[i] = append(plans[i], a)
		}
	}
	r.Sample = pipes[0].spec.String() + "\ndocument " + quote(docs[0])
	for i := 0; i < n; i++ {
		b, doc, acts := pipes[i], docs[i], plans[i]
		c := r.newCaller(i)
		faults := 1 + r.fn(5)
		r.Spawn("caller", func() {
			pts, rp := c.startDoc(doc, b.spec.norm)
			for k, pre := range b.pres {
				if res := c.do("PreTokenize", 8*len(doc)+8, 1, func() error { return pre.PreTokenize(pts) }); res.failed {
					r.Fail("pre-tokenizer failed: %v", res.err)
				}
				b.spec.pres[k].ref(rp)
			}
			for _, a := range acts {
				switch a.kind {
				case 0: // tokenized in part by a supplied tokenizer
					c.tokenizeSome(pts, rp, a.some)
				case 1: // splits with tokens stay as they are
					pat := a.st.pat.real(nil, nil)
					if res := c.split(pts, rp, a.st, pat, len(doc)); res.failed {
						r.Fail("%v failed: %v", a.st, res.err)
					}
					a.st.ref(rp)
					r.wantPts("after "+a.st.String(), pts, rp)
				case 2:
					c.faults = faults
					c.normalize(pts, rp, a.ed, doc)
					c.faults = 0
				default:
					var err error
					var enc *encodings.Encoding
					o := r.op("IntoEncoding", len(doc), func() { enc, err = pts.IntoEncoding(b.spec.word, b.spec.typ) })
					r.mustNotPanic("IntoEncoding", o)
					if countHas(rp) == len(rp.sp) {
						if err != nil {
							r.Fail("IntoEncoding failed on a fully tokenized document: %v", err)
						}
						r.wantEnc("encoding", enc, rp.encode(b.spec.word, b.spec.typ))
					} else if err == nil {
						r.Fail("IntoEncoding returned an encoding although %d of %d splits are tokenized", countHas(rp), len(rp.sp))
					}
				}
			}
			c.faults = faults
			c.tokenize(b, pts, rp, len(doc))
		})
	}
	r.schedule(n)
	r.Go()
}

// normalize edits all splits without tokens; a failure keeps the edits made
// before it.
func (c *caller) normalize(pts *pretokenizedstring.PreTokenizedString, rp *rpts, ed *edit, doc string) {
	r := c.r
	var pat splitpattern.SplitPattern
	if ed.pat != nil {
		pat = ed.pat.real(nil, nil)
	}
	done := 0
	var got []string
	c.many = len(rp.sp) - countHas(rp)
	res := c.do("Normalize", 16*len(doc)+8, 8, func() error {
		return pts.Normalize(func(ns *normalizedstring.NormalizedString) error {
			text := ns.Get()
			simrt.HideOn()
			got = append(got, text)
			simrt.HideOff()
			if err := hook("normalizer"); err != nil {
				return err
			}
			if err := ed.apply(r, ns, pat, nil); err != nil {
				return err
			}
			done++
			return nil
		})
	})
	if res.failed && !r.injected(res) {
		r.Fail("Normalize with %v failed: %v", ed, res.err)
	}
	k := 0
	for i := range rp.sp {
		if rp.sp[i].has {
			continue
		}
		if k < len(got) && got[k] != rp.sp[i].ns.norm() {
			r.Fail("Normalize handed over %q, expected %q", got[k], rp.sp[i].ns.norm())
		}
		if k < done {
			ed.ref(rp.sp[i].ns)
		}
		k++
	}
	if !res.failed && len(got) != k {
		r.Fail("Normalize made %d calls for %d splits without tokens", len(got), k)
	}
	r.wantPts("after Normalize", pts, rp)
}

// --- C09 ---

func profC09(r *Run) {
	w := &world{timeout: r.p(1, 3)}
	n := 1 + r.n(3)
	lex := r.lexicon()
	r.stallClock(1, 6)
	type plan struct {
		kind  int
		doc   string
		norm  *normSpec
		pre   *preSpec
		pat   *patSpec
		behav int
		ed    *edit
		str   string
		inv   int
		again int // a step on a document is repeated as often, while it fails
	}
	mk := func() *plan {
		p := &plan{kind: r.n(6), doc: r.doc(lex, 8), behav: r.n(5), str: r.str()}
		if r.p(1, 6) {
			p.again = r.fn(40)
		}
		p.norm = &normSpec{kind: nkSeq}
		for k := 1 + r.n(5); k > 0; k-- {
			p.norm.list = append(p.norm.list, r.norm(w, 2, true))
		}
		p.pre = &preSpec{kind: tkCustom, pat: r.pat(w, 1), behav: r.n(5)}
		p.pat = &patSpec{kind: pkHooked, inner: r.pat(w, 1)}
		p.inv = r.n(3)
		for k := 0; k < p.inv; k++ {
			p.pat = &patSpec{kind: pkInvert, inner: p.pat}
		}
		p.ed = r.edit(w)
		return p
	}
	plans := make([][]*plan, n)
	for i := range plans {
		for k := 1 + r.n(4); k > 0; k-- {
			plans[i] = append(plans[i], mk())
		}
	}
	// Components are shared: each caller must get its own failure.
	var norms []*plan
	for _, p := range plans[0] {
		norms = append(norms, p)
	}
	r.Sample = fmt.Sprintf("%v; %v; %v", norms[0].norm, norms[0].pre, norms[0].pat)
	type built struct {
		norm interface {
			Normalize(*normalizedstring.NormalizedString) error
		}
		pre interface {
			PreTokenize(*pretokenizedstring.PreTokenizedString) error
		}
		pat splitpattern.SplitPattern
	}
	var bs []built
	for _, p := range norms {
		bs = append(bs, built{p.norm.real(r, hook), p.pre.real(hook, nil), p.pat.real(hook, nil)})
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		c.stalls = r.fn(3)
		faults := 1 + r.fn(6)
		r.Spawn("caller", func() {
			c.faults = faults
			more := func(n int, fails func() bool) {
				if n == 0 {
					fails()
					return
				}
				save := c.faults
				c.faults += n
				c.sure = true
				for fails() && n > 0 {
					n--
				}
				c.faults, c.sure = save, false
			}
			for k, own := range plans[i] {
				x := k % len(norms)
				spec, b := norms[x], bs[x]
				doc := own.doc
				switch own.kind {
				case 0, 1: // normalizers
					var ns *normalizedstring.NormalizedString
					r.mustNotPanic("FromString", r.op("FromString", len(doc), func() { ns = normalizedstring.FromString(doc) }))
					ref := refFrom(doc)
					calls := 0
					res := c.doN("Normalize", 16*len(doc), 4, func() error { return b.norm.Normalize(ns) }, &calls)
					until := -1
					if res.failed {
						if !r.injected(res) {
							r.Fail("Normalize with %v failed: %v", spec.norm, res.err)
						}
						until = calls - 1
					}
					u := until
					spec.norm.ref(ref, &u)
					if !res.failed && calls != spec.norm.supplied() {
						r.Fail("%v: %d supplied steps were called, expected %d", spec.norm, calls, spec.norm.supplied())
					}
					r.wantNS(fmt.Sprintf("after %v (stopped at supplied step %d)", spec.norm, until), ns, ref)
				case 2: // pre-tokenizer
					pts, rp := c.startDoc(doc, nil)
					var res result
					more(own.again, func() bool {
						res = c.do("PreTokenize", 8*len(doc)+8, 6, func() error { return b.pre.PreTokenize(pts) })
						c.expectFailure(res, "PreTokenize", spec.pre.timed())
						return res.failed
					})
					if !res.failed {
						spec.pre.ref(rp)
					}
					r.wantPts("after PreTokenize", pts, rp)
				case 3: // pattern given to a string
					var ns *normalizedstring.NormalizedString
					ref := refFrom(doc)
					r.mustNotPanic("FromString", r.op("FromString", len(doc), func() { ns = normalizedstring.FromString(doc) }))
					var out []*normalizedstring.NormalizedString
					res := c.do("Split", 8*len(doc), 1, func() (err error) {
						out, err = ns.Split(b.pat, behaviours[own.behav])
						return
					})
					c.expectFailure(res, "Split", spec.pat.timed())
					if !res.failed {
						r.wantPieces("Split by "+spec.pat.String(), out, ref.split(spec.pat.ref(doc), own.behav))
					}
					res = c.do("Replace", 8*len(doc), 1, func() error { return ns.Replace(b.pat, own.str) })
					c.expectFailure(res, "Replace", spec.pat.timed())
					if !res.failed {
						ref.replace(spec.pat.ref(doc), own.str)
					}
					r.wantNS("after Replace", ns, ref)
				case 4: // pattern on its own
					var caps []splitpattern.Capture
					res := c.do("FindMatches", 8*len(doc), 1, func() (err error) {
						caps, err = b.pat.FindMatches(doc)
						return
					})
					c.expectFailure(res, "FindMatches", spec.pat.timed())
					if !res.failed {
						if d := diffCaps(obsCaps(caps), spec.pat.ref(doc)); d != "" {
							r.Fail("pattern %v on %q: %s", spec.pat, clip(doc), d)
						}
					}
				default: // Tokenize and Normalize of a document
					pts, rp := c.startDoc(doc, nil)
					st := &splitStep{pat: spec.pat, behav: own.behav}
					var res result
					more(own.again, func() bool {
						res = c.split(pts, rp, st, b.pat, len(doc))
						c.expectFailure(res, "Split", spec.pat.timed())
						return res.failed
					})
					if !res.failed {
						st.ref(rp)
					}
					c.normalize(pts, rp, own.ed, doc)
					done := 0
					c.many = len(rp.sp) - countHas(rp)
					res = c.do("Tokenize", 8*len(doc), 8, func() error {
						return pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
							if err := hook("tokenizer"); err != nil {
								return leakTokens(ns.Get()), err
							}
							done++
							return plainTokens(ns.Get(), done), nil
						})
					})
					c.expectFailure(res, "Tokenize", false)
					k := 0
					for i := range rp.sp {
						if k < done {
							k++
							rp.sp[i].toks, rp.sp[i].has = obsToks(plainTokens(rp.sp[i].ns.norm(), k)), true
						}
					}
					r.wantPts("after Tokenize", pts, rp)
				}
			}
		})
	}
	r.schedule(n)
	r.Go()
}

// doN is do, also reporting how many supplied calls were made.
func (c *caller) doN(name string, size, span int, fn func() error, calls *int) result {
	res := c.do(name, size, span, func() error {
		defer func() { *calls = c.calls }()
		return fn()
	})
	return res
}

// expectFailure accepts injected failures, and time-outs where they can occur.
func (c *caller) expectFailure(res result, what string, timed bool) {
	if !res.failed || c.r.injected(res) {
		return
	}
	if res.timeout && timed {
		return
	}
	c.r.Fail("%s failed: %v", what, res.err)
}

// --- C10 ---

// interrupted is one call of a history of edits that supplied code interrupts.
type interrupted struct {
	ed    *edit
	split bool
	pat   *patSpec
	behav int
}

// history is a string, what was done to it, and the calls to come.
type history struct {
	doc  string
	pre  []*edit
	acts []interrupted
}

func (h *history) String() string {
	return fmt.Sprintf("document %q, prepared by %v, then %d interrupted calls", h.doc, h.pre, len(h.acts))
}

func (r *Run) history(w *world, lex []string, most int) *history {
	h := &history{doc: r.doc(lex, most)}
	for k := r.n(4); k > 0; k-- {
		h.pre = append(h.pre, r.edit(w))
	}
	for k := 2 + r.n(6); k > 0; k-- {
		a := interrupted{ed: r.edit(w), split: r.p(1, 3), behav: r.n(5)}
		for !a.split && a.ed.kind != edFilter && a.ed.kind != edMap && a.ed.kind != edReplace && r.p(3, 4) {
			a.ed = r.edit(w)
		}
		inner := r.pat(w, 1)
		a.pat = &patSpec{kind: pkHooked, inner: inner}
		if r.p(1, 3) {
			a.pat = &patSpec{kind: pkInvert, inner: a.pat}
		}
		if r.p(1, 4) {
			a.pat = inner
		}
		if a.ed.kind == edReplace {
			a.ed.pat = a.pat
		}
		h.acts = append(h.acts, a)
	}
	return h
}

// live goes through a history; an interrupted call leaves the string as it was
// and is made again until it succeeds, or the string is dropped.
func (c *caller) live(h *history, faults int, drop bool) {
	r := c.r
	doc := h.doc
	ref := refFrom(doc)
	var ns *normalizedstring.NormalizedString
	o := r.op("prepare", 16*len(doc), func() {
		ns = normalizedstring.FromString(doc)
		for _, e := range h.pre {
			var p splitpattern.SplitPattern
			if e.pat != nil {
				p = e.pat.real(nil, nil)
			}
			if err := e.apply(r, ns, p, nil); err != nil {
				panic(err)
			}
		}
	})
	r.mustNotPanic("preparing a string", o)
	for _, e := range h.pre {
		e.ref(ref)
	}
	r.wantNS(fmt.Sprintf("%q after %v", doc, h.pre), ns, ref)
	c.faults = faults
	defer func() { c.faults = 0 }()
	for _, a := range h.acts {
		if !c.interrupt(ns, ref, a, len(doc), drop) {
			return
		}
	}
}

// interrupt makes one call, which supplied code may interrupt, until it
// succeeds. It reports whether the string is worth going on with.
func (c *caller) interrupt(ns *normalizedstring.NormalizedString, ref *rns, a interrupted, size int, drop bool) bool {
	r := c.r
	pat := a.pat.real(hook, nil)
	if a.pat.kind == pkFunc {
		// the predicate of the pattern is supplied code as well
		f := classFn(a.pat.class)
		pat = splitpattern.FromFunc(func(c rune) bool {
			hookPanicOnly("predicate")
			return f(c)
		})
	}
	runeHook := func() { hookPanicOnly("rune function") }
	span := 1
	if !a.split && (a.ed.kind == edFilter || a.ed.kind == edMap) || a.pat.kind == pkFunc {
		span = len(ref.ch) + 1
		if span > 12 && r.fp(1, 2) {
			span = 12
		}
	}
	var pieces []*normalizedstring.NormalizedString
	what := a.ed.String()
	if a.split {
		what = "Split by " + a.pat.String()
	}
	run := func() result {
		return c.do(what, 16*size, span, func() (err error) {
			if a.split {
				pieces, err = ns.Split(pat, behaviours[a.behav])
				return
			}
			return a.ed.apply(r, ns, pat, runeHook)
		})
	}
	before := r.seeNS(ns)
	for {
		res := run()
		if !res.failed {
			break
		}
		if !r.injected(res) && !(res.timeout && a.pat.timed()) {
			r.Fail("%s failed: %v", what, res.err)
		}
		r.Checked++
		if d := diffNS(r.seeNS(ns), before); d != "" {
			r.Fail("after an interrupted %s: %s", what, d)
		}
		if drop {
			r.S.Fault("abandoned-document")
			return false
		}
	}
	if a.split {
		r.wantPieces(what, pieces, ref.split(a.pat.ref(ref.norm()), a.behav))
		r.wantNS("after "+what, ns, ref)
		return true
	}
	a.ed.ref(ref)
	r.wantNS("after "+what, ns, ref)
	return ref.len() <= 2000
}

func profC10(r *Run) {
	w := &world{timeout: r.p(1, 4)}
	n := 1
	if r.p(1, 3) {
		n = 2
	}
	lex := r.lexicon()
	r.stallClock(1, 4)
	hs := make([]*history, n)
	for i := range hs {
		hs[i] = r.history(w, lex, 6)
	}
	r.Sample = hs[0].String()
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		c.stalls = r.fn(3)
		faults := 1 + r.fn(8)
		r.Spawn("caller", func() { c.live(hs[i], faults, false) })
	}
	r.schedule(n)
	r.Go()
}

// hookPanicOnly is for supplied functions that cannot return an error.
func hookPanicOnly(where string) {
	simrt.HideOn()
	defer simrt.HideOff()
	s := simrt.Active()
	id := s.Cur()
	if id < 0 || id >= len(callers) || callers[id] == nil {
		return
	}
	c := callers[id]
	c.asPanic = true
	c.hooked(where)
}

// --- C14 ---

func profC14(r *Run) {
	w := &world{}
	n := 1 + r.n(3)
	s := r.newShared(w, 2+r.n(4), 8, 1+r.n(2), false)
	// Supplied patterns that keep what they returned.
	var memos [][]*memoPattern
	var memoPats [][]splitpattern.SplitPattern
	var memoSpecs [][]*patSpec
	for i := 0; i < n; i++ {
		var ms []*memoPattern
		var ps []splitpattern.SplitPattern
		var sp []*patSpec
		for k := 1 + r.n(2); k > 0; k-- {
			p := &patSpec{kind: pkMemo, inner: r.pat(w, 1)}
			for r.p(1, 2) {
				p = &patSpec{kind: pkInvert, inner: p}
			}
			sp = append(sp, p)
			ps = append(ps, p.real(nil, &ms))
		}
		memos = append(memos, ms)
		memoPats = append(memoPats, ps)
		memoSpecs = append(memoSpecs, sp)
	}
	type act struct {
		kind  int
		b     *rpipe
		doc   string
		word  string
		toks  []rtok
		e     refErr
		x     int
		caps  []rcap
		behav int
	}
	plans := make([][]act, n)
	for i := range plans {
		for k := 2 + r.n(6); k > 0; k-- {
			a := act{kind: r.n(7), b: s.pipes[r.n(len(s.pipes))], doc: pick(r, s.docs), behav: r.n(5)}
			a.word = s.word(r, a.b)
			a.toks, a.e = a.b.spec.model.ref(a.word)
			a.x = r.n(12)
			if a.kind == 5 {
				a.x = r.n(48)
			}
			if a.kind == 1 {
				a.x = r.n(len(s.pats))
				a.caps = s.specs[a.x].ref(a.doc)
			}
			plans[i] = append(plans[i], a)
			if r.p(1, 2) {
				plans[i] = append(plans[i], a) // the same call again, after the scribbling
			}
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		r.Spawn("caller", func() {
			memoToks := map[string][]models.Token{}
			for _, a := range plans[i] {
				switch a.kind {
				case 0: // token lists
					var toks []models.Token
					var err error
					o := r.op("model.Tokenize", 4*len(a.word), func() {
						toks, err = a.b.model.Tokenize(a.word)
						touch.ReadTokens(toks)
					})
					r.mustNotPanic("model.Tokenize", o)
					r.Checked++
					if a.e == errNone {
						if err != nil {
							r.Fail("%v: Tokenize(%q) failed: %v", a.b.spec.model, a.word, err)
						}
						if d := diffToks(obsToks(toks), a.toks); d != "" {
							r.Fail("%v: Tokenize(%q): %s", a.b.spec.model, a.word, d)
						}
					}
					r.scribble("tokens", func() { touch.Tokens(toks, r.some()) })
					c.keepToks(toks) // what the caller wrote stays
				case 1: // captures
					var caps []splitpattern.Capture
					o := r.op("FindMatches", 4*len(a.doc), func() {
						caps, _ = s.pats[a.x].FindMatches(a.doc)
						touch.ReadCaptures(caps)
					})
					r.mustNotPanic("FindMatches", o)
					r.Checked++
					if d := diffCaps(obsCaps(caps), a.caps); d != "" {
						r.Fail("pattern %v on %q: %s", s.specs[a.x], clip(a.doc), d)
					}
					r.scribble("captures", func() { touch.Captures(caps, r.some()) })
					c.keepCaps(caps)
				case 2: // encodings
					enc, want, ok := c.deliver(a.b, a.doc)
					if !ok {
						continue
					}
					r.scribble("spare room", func() { touch.Extend(enc) })
					r.wantEnc("after extending the lists of the encoding", enc, want)
					c.unkeep("encoding")
					r.scribble("encoding", func() { touch.Encoding(enc, r.some()) })
					c.keepEnc(enc)
				case 3: // everything obtained from one document
					c.scribbleDoc(a.b, a.doc)
				case 4: // supplied patterns keep their captures
					k := r.pickLocal(len(memoPats[i]), a.x)
					p, spec := memoPats[i][k], memoSpecs[i][k]
					ref := refFrom(a.doc)
					var out []*normalizedstring.NormalizedString
					var err error
					o := r.op("Split", 8*len(a.doc), func() {
						ns := normalizedstring.FromString(a.doc)
						out, err = ns.Split(p, behaviours[a.behav])
						if err == nil {
							err = ns.Replace(p, "x")
						}
						if err == nil {
							_, err = p.FindMatches(a.doc)
						}
					})
					r.mustNotPanic("Split", o)
					if err != nil {
						r.Fail("Split by %v failed: %v", spec, err)
					}
					r.wantPieces("split of "+quote(clip(a.doc))+" by "+spec.String(), out, ref.split(spec.ref(a.doc), a.behav))
					r.scribble("list of pieces", func() { touch.Nss(out) })
				case 5: // supplied tokenizers and split functions keep their lists
					c.keptLists(a.b, a.doc, memoToks, a.x/4%12, a.x%4)
				default:
					c.tokenizeWord(a.b.model, a.b.spec.model, a.word, a.toks, a.e)
				}
				for _, m := range memos[i] {
					r.Checked++
					if d := m.changed(); d != "" {
						r.Fail("captures kept by a supplied pattern were modified (text %q)", clip(d))
					}
				}
			}
		})
	}
	r.schedule(n)
	r.Go()
}

func (r *Run) pickLocal(n, x int) int { return x % n }

// some varies what of a list is overwritten.
func (r *Run) some() touch.Some {
	if r.scribbles == 0 {
		r.scribbles = r.n(24)
	}
	r.scribbles++
	return touch.Some((r.scribbles*5 + r.scribbles/8) % 24)
}

func (r *Run) scribble(what string, fn func()) {
	r.S.Fault("caller-overwrites-" + strings.ReplaceAll(what, " ", "-"))
	r.mustNotPanic("overwriting "+what, r.op("overwrite", 64, fn))
}

// scribbleDoc overwrites every list obtained from a document and checks that
// the document, and its later results, do not care.
func (c *caller) scribbleDoc(b *rpipe, doc string) {
	r := c.r
	pts, rp := c.startDoc(doc, b.spec.norm)
	r.scribble("byte splits", func() {
		touch.OrigSplits(pts.GetOriginalByteSplits(), r.some())
		touch.NormSplits(pts.GetNormalizedByteSplits(), r.some())
	})
	r.wantPts("after overwriting lists obtained from the document", pts, rp)
	r.wantNormalizedSplits("a document, after overwriting lists obtained from it", pts, rp)
	if sp := rp.sp; len(sp) > 0 {
		ns := pts.Splits()[0].NormalizedString
		before := refObsNS(sp[0].ns)
		r.scribble("alignments", func() { touch.Alignments(ns.OriginalAlignments()) })
		if d := diffNS(r.seeNS(ns), before); d != "" {
			r.Fail("after overwriting the alignments: %s", d)
		}
	}
	for k, pre := range b.pres {
		if res := c.do("PreTokenize", 8*len(doc)+8, 1, func() error { return pre.PreTokenize(pts) }); res.failed {
			r.Fail("pre-tokenizer failed: %v", res.err)
		}
		b.spec.pres[k].ref(rp)
		r.scribble("byte splits", func() {
			touch.OrigSplits(pts.GetOriginalByteSplits(), r.some())
			touch.NormSplits(pts.GetNormalizedByteSplits(), r.some())
		})
		r.wantPts("after overwriting lists obtained from the document", pts, rp)
		r.wantNormalizedSplits("a document, after overwriting lists obtained from it", pts, rp)
	}
	enc, want, ok := c.tokenize(b, pts, rp, len(doc))
	if !ok {
		return
	}
	r.scribble("spare room", func() { touch.Extend(enc) })
	r.wantEnc("after extending the lists of the encoding", enc, want)
	r.scribble("encoding", func() { touch.Encoding(enc, r.some()) })
	r.scribble("byte splits", func() {
		touch.OrigSplits(pts.GetOriginalByteSplits(), r.some())
		touch.NormSplits(pts.GetNormalizedByteSplits(), r.some())
	})
	r.wantPts("after overwriting the encoding", pts, rp)
	var again *encodings.Encoding
	var err error
	r.mustNotPanic("IntoEncoding", r.op("IntoEncoding", len(doc), func() { again, err = pts.IntoEncoding(b.spec.word, b.spec.typ) }))
	if err != nil {
		r.Fail("a second IntoEncoding failed: %v", err)
	}
	r.wantEnc("second encoding, after the first was overwritten", again, want)
}

// keptLists uses a supplied tokenizer and a supplied split function that keep
// the lists they return.
func (c *caller) keptLists(b *rpipe, doc string, memo map[string][]models.Token, shape, given int) {
	r := c.r
	for round := 0; round < 2; round++ {
		pts, rp := c.startDoc(doc, b.spec.norm)
		var lists [][]pretokenizedstring.Split
		var copies [][]pretokenizedstring.Split
		st := &splitStep{pat: &patSpec{kind: pkFunc, class: 1}, behav: bIsolated}
		pat := st.pat.real(nil, nil)
		var err error
		var enc *encodings.Encoding
		n := 0
		o := r.op("Split and Tokenize", 16*len(doc), func() {
			err = pts.Split(func(i int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
				nss, err := ns.Split(pat, behaviours[st.behav])
				// empty pieces among the others, and a part of a longer list
				var l []pretokenizedstring.Split
				for k, x := range pretokenizedstring.SplitsFromNormalizedStrings(nss) {
					if shape < 6 && (k+shape)%3 == 0 {
						l = append(l, pretokenizedstring.Split{NormalizedString: normalizedstring.FromString("")})
					}
					if given > 0 && (k+shape)%given == 0 {
						t := plainTokens(x.NormalizedString.Get(), 1)
						x.Tokens = &t
					}
					l = append(l, x)
				}
				for k := 0; k < 3; k++ {
					l = append(l, pretokenizedstring.Split{NormalizedString: normalizedstring.FromString("")})
				}
				copies = append(copies, append([]pretokenizedstring.Split(nil), l...))
				l = l[:len(l)-2-shape%2]
				lists = append(lists, l)
				return l, err
			})
			if err != nil {
				return
			}
			err = pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
				n++
				t := ns.Get()
				l, ok := memo[t]
				if !ok {
					l = append(plainTokens(t, 1), models.Token{ID: -9, Value: "next"})
					l = l[:len(l)-1]
					memo[t] = l
				}
				return l, nil
			})
			if err == nil {
				enc, err = pts.IntoEncoding(-1, 0)
			}
		})
		r.mustNotPanic("Split and Tokenize", o)
		if err != nil {
			r.Fail("splitting and tokenizing failed: %v", err)
		}
		st.ref(rp)
		for i := range rp.sp {
			t := rp.sp[i].ns.norm()
			rp.sp[i].toks, rp.sp[i].has = obsToks(plainTokens(t, 1)), true
			l, ok := memo[t]
			if !ok {
				continue
			}
			if d := diffToks(obsToks(l), rp.sp[i].toks); d != "" {
				r.Fail("tokens kept by a supplied tokenizer were modified: %s", d)
			}
			if l[:len(l)+1][len(l)].Value != "next" {
				r.Fail("the list of tokens kept by a supplied tokenizer was modified behind the part it returned")
			}
		}
		r.wantEnc("encoding of kept tokens", enc, rp.encode(-1, 0))
		for i := range lists {
			lists[i] = lists[i][:len(copies[i])]
			for j := range lists[i] {
				if lists[i][j] != copies[i][j] {
					r.Fail("the list of splits kept by a supplied split function was modified at %d", j)
				}
			}
		}
		r.scribble("encoding", func() { touch.Encoding(enc, r.some()) })
	}
}

// --- C17 ---

// harm damages text the way a bad transfer does.
func (r *Run) harm(doc string) string {
	d := []byte(doc)
	for k := 1 + r.fn(4); k > 0 && len(d) > 0; k-- {
		at := r.fn(len(d))
		n := 1 + r.fn(4)
		if at+n > len(d) {
			n = len(d) - at
		}
		switch r.fn(7) {
		case 0:
			r.S.Fault("text-cut")
			d = d[:at]
		case 1:
			r.S.Fault("text-head-lost")
			d = d[at:]
		case 2:
			r.S.Fault("text-bit-flip")
			d[at] ^= 1 << r.fn(8)
		case 3:
			r.S.Fault("text-bytes-lost")
			d = append(d[:at:at], d[at+n:]...)
		case 4:
			r.S.Fault("text-bytes-repeated")
			blk := append([]byte(nil), d[at:at+n]...)
			d = append(d[:at+n:at+n], append(blk, d[at+n:]...)...)
		case 5:
			r.S.Fault("text-garbage-byte")
			d[at] = []byte{0xff, 0xc0, 0x80, 0xe3, 0xf0, 0xed, 0x00, 0xfe}[r.fn(8)]
		default:
			r.S.Fault("text-garbage-inserted")
			g := []byte{0xf4, 0x90, 0xed, 0xa0, 0x80, 0xc1, 0xbf, 0xe0}[r.fn(8)]
			d = append(d[:at:at], append([]byte{g}, d[at:]...)...)
		}
	}
	return string(d)
}

// learnPieces adds parts of a damaged document to a vocabulary, cut anywhere.
func (r *Run) learnPieces(m *modelSpec, doc string) {
	v := r.buildVocab(m.v)
	for k := 1 + r.n(4); k > 0; k-- {
		at := r.n(len(doc))
		t := doc[at:min(len(doc), at+1+r.n(6))]
		if m.bpe == nil && r.p(2, 3) {
			t = m.wp.prefix + t
		}
		if _, ok := m.v.id(t); ok {
			continue
		}
		v.AddTerm(t)
		id, ok := v.GetID(t)
		if !ok {
			r.Fail("%q has no ID after AddTerm", t)
		}
		m.v.add(t, id)
		r.probe("broken-term")
	}
}

func profC17(r *Run) {
	w := &world{}
	n := 1 + r.n(3)
	s := r.newShared(w, 2+r.n(4), 8, 1+r.n(2), true)
	broken := r.p(1, 2)
	type act struct {
		b    *rpipe
		doc  string
		good bool
		eds  []*edit
		beh  int
	}
	plans := make([][]act, n)
	for i := range plans {
		for k := 1 + r.n(4); k > 0; k-- {
			a := act{b: s.pipes[r.n(len(s.pipes))], doc: pick(r, s.docs), good: r.p(1, 4), beh: r.n(5)}
			if !a.good {
				a.doc = r.harm(a.doc)
				if broken && !a.b.spec.model.def && a.doc != "" {
					r.learnPieces(a.b.spec.model, a.doc)
				}
			}
			if r.p(1, 3) {
				for k := 1 + r.n(4); k > 0; k-- {
					a.eds = append(a.eds, r.edit(w))
				}
			}
			plans[i] = append(plans[i], a)
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		r.Spawn("caller", func() {
			for _, a := range plans[i] {
				if a.good {
					c.deliver(a.b, a.doc)
					continue
				}
				c.damaged(s, a.b, a.doc, a.eds, a.beh)
			}
		})
	}
	r.schedule(n)
	r.Go()
}

// damaged takes a damaged document through everything.
func (c *caller) damaged(s *shared, b *rpipe, doc string, eds []*edit, beh int) {
	r := c.r
	where := func(what string) string {
		return fmt.Sprintf("%s (damaged document %q, %v)", what, clip(doc), b.spec)
	}
	var enc *encodings.Encoding
	var err error
	o := r.op("pipeline", 32*len(doc), func() {
		ns := normalizedstring.FromString(doc)
		for _, e := range eds {
			var p splitpattern.SplitPattern
			if e.pat != nil {
				p = e.pat.real(nil, nil)
			}
			if err = e.apply(r, ns, p, nil); err != nil {
				return
			}
		}
		if b.norm != nil {
			if err = b.norm.Normalize(ns); err != nil {
				return
			}
		}
		obsNS(ns)
		pts := pretokenizedstring.FromNormalizedString(ns)
		if b.norm == nil && len(eds) == 0 {
			pts = pretokenizedstring.FromString(doc)
		}
		for _, p := range b.pres {
			if err = p.PreTokenize(pts); err != nil {
				return
			}
		}
		obsPts(pts)
		err = pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
			return b.model.Tokenize(ns.Get())
		})
		if err != nil {
			return
		}
		enc, err = pts.IntoEncoding(b.spec.word, b.spec.typ)
	})
	r.mustNotPanic(where("the pipeline"), o)
	r.Checked++
	if err == nil {
		got := obsEnc(enc)
		k := len(got.ids)
		if len(got.offs) != k || len(got.toks) != k || len(got.words) != k || len(got.types) != k {
			r.Fail("%s: parallel fields of the encoding differ in length", where("the pipeline"))
		}
		for i, f := range got.offs {
			if f[0] < 0 || f[0] > f[1] || f[1] > len(doc) {
				r.Fail("%s: offsets %v of token %d (%q) are outside the document of %d bytes", where("the pipeline"), f, i, got.toks[i], len(doc))
			}
		}
		var runes []strutils.RuneOffsets
		o := r.op("offset conversion", 2*len(doc), func() {
			conv := strutils.NewBytesToRuneOffsetConverter(doc)
			for _, f := range got.offs {
				runes = append(runes, conv.Convert(strutils.ByteOffsets{Start: f[0], End: f[1]}))
			}
		})
		r.mustNotPanic(where("conversion to character offsets"), o)
		chars := utf8.RuneCountInString(doc)
		for i, f := range runes {
			if f.Start < 0 || f.Start > f.End || f.End > chars {
				r.Fail("%s: byte offsets %v of token %d convert to %v in a document of %d characters", where("the pipeline"), got.offs[i], i, f, chars)
			}
		}
	}
	for i, p := range s.pats {
		i, p := i, p
		var caps []splitpattern.Capture
		var pieces []*normalizedstring.NormalizedString
		o := r.op("patterns", 32*len(doc), func() {
			caps, _ = p.FindMatches(doc)
			ns := normalizedstring.FromString(doc)
			pieces, _ = ns.Split(p, behaviours[beh])
			for _, x := range pieces {
				obsNS(x)
			}
		})
		r.mustNotPanic(where("pattern "+s.specs[i].String()), o)
		at := 0
		for _, x := range caps {
			if x.Offsets.Start < at || x.Offsets.End < x.Offsets.Start || x.Offsets.End > len(doc) {
				r.Fail("%s: captures %v out of bounds or order", where("pattern "+s.specs[i].String()), obsCaps(caps))
			}
			at = x.Offsets.End
		}
		for _, x := range pieces {
			f := r.seeNS(x)
			if f.s < 0 || f.s > f.e || f.e > len(doc) {
				r.Fail("%s: a piece covers %d..%d of %d bytes", where("Split by "+s.specs[i].String()), f.s, f.e, len(doc))
			}
		}
		r.Checked++
	}
}

// --- C12 ---

// randMode decides the library's random draws.
func (r *Run) randMode(mode int) {
	s := r.S
	switch mode {
	case 0:
		s.RandFn = nil
	default:
		r.S.Faults.Add("random-adversary", 1)
		k := 0
		s.RandFn = func(s *simrt.Sim) uint64 {
			k++
			v := s.C.U64(simrt.SRand)
			if v%8 == 0 { // never so extreme that a fair loop could not end
				return simrt.Spread(v)
			}
			switch mode {
			case 1:
				return v % 2
			case 2:
				return math.MaxUint64 &^ (0x7ff << (v % 2))
			case 3:
				if k%2 == 0 {
					return math.MaxUint64 &^ 0x7ff
				}
				return 0
			}
			if k%5 == 0 {
				return math.MaxUint64 &^ 0x7ff
			}
			return v % 3
		}
	}
}

// longWord is a word of up to about max bytes.
func (r *Run) longWord(words []string, max int) string {
	var b strings.Builder
	for n := max/7 + r.n(max-max/7); b.Len() < n; {
		b.WriteString(pick(r, words))
	}
	return b.String()
}

func (r *Run) dropoutModel(words []string, p float64) *modelSpec {
	m := r.bpe(words)
	m.bpe.dropout = p
	return m
}

func profC12(r *Run) {
	if r.p(1, 40) {
		r.dropoutStatistics()
		return
	}
	n := 1 + r.n(3)
	lex := r.lexicon()
	if r.p(1, 3) {
		lex = append(lex, strings.Repeat(lex[0], 3), strings.Repeat("ab", 1+r.n(8)))
	}
	if r.p(1, 12) {
		lex = append(lex, r.longWord(lex, 140))
	}
	if r.p(1, 250) {
		lex = append(lex, r.longWord(lex, 2000))
		r.probe("very-long-word")
	}
	ps := []float64{1, 1, 0, 0.5, 0.1, 0.9, 0.999999, 1e-9, 1 - 1e-10}
	var specs []*modelSpec
	var reals []models.Model
	for k := 1 + r.n(2); k > 0; k-- {
		m := r.dropoutModel(lex, ps[r.n(len(ps))])
		specs = append(specs, m)
		reals = append(reals, m.real(r))
	}
	r.Sample = specs[0].String() + fmt.Sprintf(" on %q", lex)
	mode := r.C.N(simrt.SRand, 5)
	r.randMode(mode)
	type act struct {
		m int
		w string
	}
	plans := make([][]act, n)
	for i := range plans {
		for k := 1 + r.n(6); k > 0; k-- {
			w := pick(r, lex)
			if r.p(1, 6) {
				w = r.word()
			}
			plans[i] = append(plans[i], act{r.n(len(specs)), w})
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		r.Spawn("caller", func() {
			for _, a := range plans[i] {
				c.dropout(reals[a.m], specs[a.m], a.w, mode)
			}
		})
	}
	r.schedule(n)
	r.Go()
}

// dropout tokenizes a word and checks the segmentation.
func (c *caller) dropout(m models.Model, spec *modelSpec, w string, mode int) {
	r := c.r
	var toks []models.Token
	var err error
	o := r.op("Tokenize with dropout", 4*len(w), func() { toks, err = m.Tokenize(w) })
	r.mustNotPanic("Tokenize with dropout", o)
	r.Checked++
	p := spec.bpe.dropout
	if w == "" {
		return
	}
	init, e := refBPEInit(spec.v, spec.bpe, w)
	if e != errNone {
		if !spec.failsWith(e, err) {
			r.Fail("%v: Tokenize(%q) gave error %v, expected %v", spec, w, err, e)
		}
		return
	}
	full, fe := refBPE(spec.v, spec.bpe, w)
	if err != nil && spec.bpe.oov != nil && p < 1 {
		// Merging may end in symbols that the vocabulary lacks.
		if fe == errNone && (p <= 0 || p < 1e-6 && mode == 0) || len(init) <= 200 && !spec.reachesOOV(w, init) {
			r.Fail("%v: Tokenize(%q) failed: %v", spec, w, err)
		}
		return
	}
	if err != nil {
		r.Fail("%v: Tokenize(%q) failed: %v", spec, w, err)
	}
	got := obsToks(toks)
	if p >= 1 {
		if d := diffToks(got, refToks(spec.v, init)); d != "" {
			r.Fail("dropout 1 must merge nothing: %v: Tokenize(%q): %s", spec, w, d)
		}
		return
	}
	if p <= 0 || p < 1e-6 && mode == 0 {
		if fe != errNone {
			r.Fail("%v: Tokenize(%q) succeeded although %v", spec, w, fe)
		}
		if d := diffToks(got, full); d != "" {
			r.Fail("dropout %v must merge everything: %v: Tokenize(%q): %s", p, spec, w, d)
		}
		return
	}
	// In between: tokens tile the characters, and each is reachable.
	var t [][]map[int]bool
	if len(init) <= 200 {
		t = spec.reachable(w, init)
	}
	at := 0
	for i, x := range got {
		from := at
		for at < len(init) && init[at].e <= x.e {
			at++
		}
		if from == at || init[from].s != x.s || init[at-1].e != x.e {
			r.Fail("%v: Tokenize(%q): token %d %+v does not continue the tiling of %+v", spec, w, i, x, init)
		}
		var ids map[int]bool
		if t != nil {
			ids = t[from][at]
		} else {
			ids = reachable(spec.bpe, init[from:at])[0][at-from]
		}
		if !ids[x.id] {
			r.Fail("%v: Tokenize(%q): token %d %+v cannot be made from %+v by merges", spec, w, i, x, init[from:at])
		}
		if v, ok := spec.v.terms[x.id]; !ok || v != x.val {
			r.Fail("%v: Tokenize(%q): token %d %+v has the wrong value", spec, w, i, x)
		}
	}
	if at != len(init) {
		r.Fail("%v: Tokenize(%q): tokens end after %d of %d characters", spec, w, at, len(init))
	}
	if len(got) < len(init) {
		r.probe("dropout-merged-some")
	}
	if fe == errNone && len(got) > len(full) {
		r.probe("dropout-dropped-some")
	}
}

func (m *modelSpec) reachable(w string, init []rsym) [][]map[int]bool {
	t := m.reach[w]
	if t == nil {
		t = reachable(m.bpe, init)
		if m.reach == nil {
			m.reach = map[string][][]map[int]bool{}
		}
		m.reach[w] = t
	}
	return t
}

func (m *modelSpec) reachesOOV(w string, init []rsym) bool {
	for _, row := range m.reachable(w, init) {
		for _, ids := range row {
			for id := range ids {
				if _, ok := m.v.terms[id]; !ok {
					return true
				}
			}
		}
	}
	return false
}

// dropoutStatistics measures how often opportunities are dropped.
func (r *Run) dropoutStatistics() {
	// Small and large probabilities need more draws to tell them from 0 and 1.
	ps := []float64{0.5, 0.1, 0.3, 0.7, 0.9, 0.25, 1.0 / 3, 0.0625, 0.0075, 0.9925}
	p := ps[r.n(len(ps))]
	// In each of these, no two merges ever compete for the same character, so
	// that there is only one way to count the opportunities.
	cases := []struct {
		word   string
		merges [][2]string
	}{
		{"ab", [][2]string{{"a", "b"}}},
		{"abab", [][2]string{{"a", "b"}}},
		{"abc", [][2]string{{"a", "b"}, {"ab", "c"}}},
		{"abcd", [][2]string{{"a", "b"}, {"c", "d"}}},
		{"abcd", [][2]string{{"c", "d"}, {"a", "b"}}},
		{"abcd", [][2]string{{"a", "b"}, {"c", "d"}, {"ab", "cd"}}},
		{"abcd", [][2]string{{"ab", "cd"}, {"c", "d"}, {"a", "b"}}},
		{"cabab", [][2]string{{"a", "b"}, {"ab", "ab"}, {"c", "abab"}}},
		{"ababab", [][2]string{{"a", "b"}}},
		{"abcdef", [][2]string{{"c", "d"}, {"a", "b"}, {"e", "f"}, {"ab", "cd"}}},
		{"abababab", [][2]string{{"a", "b"}, {"abab", "abab"}}},
	}
	tc := cases[r.n(len(cases))]
	// Where merges do compete, only the chance that none is applied is certain.
	competing := r.p(1, 4)
	opportunities := 0
	if competing {
		all := [][2]string{{"a", "b"}, {"b", "a"}, {"a", "a"}, {"b", "b"}, {"b", "c"}, {"c", "a"}, {"ab", "a"}, {"ab", "c"}, {"b", "ab"}}
		tc.merges = nil
		for _, x := range r.perm(len(all))[:1+r.n(6)] {
			tc.merges = append(tc.merges, all[x])
		}
		b := []byte("abcaabbab")
		for i, x := range r.perm(len(b)) {
			b[i], b[x] = b[x], b[i]
		}
		tc.word = string(b[:2+r.n(6)])
		for i := 1; i < len(tc.word); i++ {
			for _, mg := range tc.merges {
				if mg[0] == tc.word[i-1:i] && mg[1] == tc.word[i:i+1] {
					opportunities++
				}
			}
		}
	}
	word := tc.word
	v := newVocabSpec()
	b := &bpeSpec{table: map[[2]int]refMerge{}, dropout: p, cache: 100}
	for _, c := range word {
		if _, ok := v.id(string(c)); !ok {
			v.add(string(c), len(v.list))
		}
	}
	for _, mg := range tc.merges {
		for _, t := range []string{mg[0], mg[1], mg[0] + mg[1]} {
			if _, ok := v.id(t); !ok {
				v.add(t, len(v.list))
			}
		}
	}
	b.merges = tc.merges
	spec := &modelSpec{v: v, bpe: b}
	for i, mg := range tc.merges {
		b.ranks = append(b.ranks, i)
		l, q, id := spec.mergeIDs(mg)
		b.table[[2]int{l, q}] = refMerge{i, id}
	}
	init, _ := refBPEInit(v, b, word)
	want := map[string]float64{}
	if competing {
		want[strings.Join(pieces(word), "|")] = math.Pow(p, float64(opportunities))
	} else {
		dropoutDistribution(v, b, init, 1, want)
	}
	m := spec.real(r)
	r.Sample = fmt.Sprintf("drop rate %v of %q", p, word)
	// One choice decides all the draws, so that a shrunk run stays a fair one.
	x := uint64(r.C.N(simrt.SRand, 1<<30))
	r.S.RandFn = func(*simrt.Sim) uint64 {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31
	}
	N := 1500
	if p < 0.05 || p > 0.95 {
		N = 10000
	}
	n := 1 + r.n(2)
	total, seen := 0, map[string]int{}
	for i := 0; i < n; i++ {
		r.newCaller(i)
		r.Spawn("caller", func() {
			for k := 0; k < N; k++ {
				var toks []models.Token
				var err error
				o := r.op("Tokenize with dropout", 64, func() { toks, err = m.Tokenize(word) })
				r.mustNotPanic("Tokenize with dropout", o)
				if err != nil {
					r.Fail("Tokenize failed: %v", err)
				}
				total++
				seen[segmentation(toks)]++
			}
		})
	}
	r.schedule(n)
	if !r.Go() {
		return
	}
	r.Checked += int64(total)
	r.S.Probe("dropout-statistics")
	for k := range seen {
		if !competing {
			want[k] += 0
		}
	}
	for _, k := range sortedFloatKeys(want) {
		q := want[k]
		if q == 0 && seen[k] > 0 {
			r.Fail("dropout %v on %q: the result was %q, which no sequence of drops explains", p, word, k)
		}
		sd := math.Sqrt(float64(total) * q * (1 - q))
		if d := math.Abs(float64(seen[k]) - float64(total)*q); d > 6.5*sd+4 {
			r.Fail("dropout %v on %q: the result was %q %d times out of %d, expected about %.0f", p, word, k, seen[k], total, float64(total)*q)
		}
	}
}

func sortedFloatKeys(m map[string]float64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func segmentation(toks []models.Token) string {
	var s []string
	for _, t := range toks {
		s = append(s, t.Value)
	}
	return strings.Join(s, "|")
}

// dropoutDistribution is BPE-dropout as published: in each step every
// applicable merge is dropped with the given probability, and the first of
// those left is applied, until none is left.
func dropoutDistribution(v *vocabSpec, b *bpeSpec, sy []rsym, pr float64, out map[string]float64) {
	type cand struct {
		refMerge
		at int
	}
	var cs []cand
	for i := 0; i+1 < len(sy); i++ {
		if mg, ok := b.table[[2]int{sy[i].id, sy[i+1].id}]; ok {
			cs = append(cs, cand{mg, i})
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].rank < cs[j].rank })
	for _, c := range cs {
		next := append([]rsym(nil), sy[:c.at]...)
		next = append(next, rsym{c.id, sy[c.at].s, sy[c.at+1].e})
		next = append(next, sy[c.at+2:]...)
		dropoutDistribution(v, b, next, pr*(1-b.dropout), out)
		pr *= b.dropout
	}
	var s []string
	for _, x := range sy {
		s = append(s, v.terms[x.id])
	}
	out[strings.Join(s, "|")] += pr
}

// --- C15 ---

func profC15(r *Run) {
	// Everything at once: starvation, damaged files, adversarial draws, clock
	// stalls and failures. Each call has a budget of steps; after the faults
	// stop, each must succeed.
	w := &world{timeout: r.p(1, 4)}
	n := 2 + r.n(3)
	s := r.newShared(w, 2+r.n(3), 10, 1+r.n(2), true)
	if r.p(1, 4) {
		long := strings.Repeat(pick(r, s.docs)+pick(r, alphaSpace), 1+r.n(8))
		if len(long) < 1500 {
			s.docs = append(s.docs, long)
		}
	}
	endure := r.p(1, 100) // failures without end
	if endure {
		r.probe("endurance")
	}
	r.stallClock(1, []int{12, 2}[b2i(endure)])
	mode := r.C.N(simrt.SRand, 5)
	r.randMode(mode)
	words := s.lex
	if r.p(1, 4) {
		words = append(words, r.longWord(words, 140))
	}
	drop := r.dropoutModel(words, []float64{1, 0.5, 0.99, 0.01, 1 - 1e-10, 1 - 1e-10}[r.n(6)])
	dropReal := drop.real(r)
	terms, mdata, prefix := r.mergesFile()
	v := vocabOf(terms)
	good := mdata
	if r.p(1, 2) {
		mdata = r.damage(mdata)
	}
	r.D.Put("/models/merges.txt", mdata)
	r.D.Put("/models/good.txt", good)
	r.D.Put("/models/vocab.json", v.spec.json())
	r.D.PlanFor = r.badDisk(1, 3, r.fileSize)
	if r.p(1, 2) {
		r.D.PlanFor, _ = r.stuckDisk(r.D.PlanFor) // until loadUntilGood stops the failures
	}
	type act struct {
		kind int
		b    *rpipe
		doc  string
		w    string
	}
	plans := make([][]act, n)
	for i := range plans {
		for k := 1 + r.n(4); k > 0; k-- {
			plans[i] = append(plans[i], act{r.n(5), s.pipes[r.n(len(s.pipes))], pick(r, s.docs), pick(r, words)})
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		c.stalls = r.fn(3)
		faults := r.fn(4)
		if endure {
			c.stalls, faults = 50+r.fn(150), 50+r.fn(100)
			c.sure = r.fp(1, 2)
		}
		r.Spawn("caller", func() {
			for _, a := range plans[i] {
				switch a.kind {
				case 0, 1:
					c.faults = faults
					c.deliver(a.b, a.doc)
					c.faults = 0
				case 2:
					for k := 0; k < 3; k++ {
						c.dropout(dropReal, drop, a.w, mode)
					}
				case 3:
					c.loadUntilGood(v, prefix, mdata, good)
				default:
					if len(a.doc) > 0 {
						c.damaged(s, a.b, a.doc[:len(a.doc)-1], nil, 0)
					}
				}
			}
		})
	}
	r.schedule(n)
	if r.S.Cfg.Policy == 0 && r.fp(1, 2) {
		r.S.Cfg.Policy = 1
		r.S.Faults.Add("schedule-starvation", 1)
	}
	r.Go()
}
