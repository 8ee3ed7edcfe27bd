package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"verif.local/simrt"
)

// caller is one simulated user of the library.
type caller struct {
	r  *Run
	id int

	// Supplied code fails as armed here.
	calls   int // supplied calls of the current operation
	at      int // fail at this call; -1: never
	asPanic bool
	leak    bool // failing code also returns part of a result
	nfail   int
	err     error
	pan     interface{}
	where   string // what failed
	after   int    // supplied calls after the failure

	faults int  // failures this caller may still inject
	sure   bool // it does so at the first opportunity
	many   int  // how many supplied calls the next operation makes, if it is known
	stalls int  // clock stalls this caller may still meet

	kept []kept
	done bool
}

// kept is a result the caller goes on using: it must stay as it was.
type kept struct {
	tag   string
	check func() string
}

func (c *caller) keep(tag string, check func() string) {
	if len(c.kept) < 48 {
		c.kept = append(c.kept, kept{tag, check})
		return
	}
	// the first ones stay, the others make room for later ones
	copy(c.kept[24:], c.kept[25:])
	c.kept[47] = kept{tag, check}
}

// unkeep forgets the last result of that kind.
func (c *caller) unkeep(tag string) {
	for i := len(c.kept) - 1; i >= 0; i-- {
		if c.kept[i].tag == tag {
			c.kept = append(c.kept[:i:i], c.kept[i+1:]...)
			return
		}
	}
}

// recheck looks at all kept results again.
func (c *caller) recheck() {
	for _, k := range c.kept {
		c.r.Checked++
		if d := k.check(); d != "" {
			c.r.Fail("a result (%s) that the caller kept was changed afterwards: %s", k.tag, d)
		}
	}
}

func (c *caller) keepEnc(enc *encodings.Encoding) {
	if enc == nil {
		return
	}
	before := obsEnc(enc)
	c.keep("encoding", func() string {
		now := obsEnc(enc)
		if !reflect.DeepEqual(now, before) {
			return fmt.Sprintf("%+v became %+v", before, now)
		}
		return ""
	})
}

func (c *caller) keepToks(toks []models.Token) {
	before := obsToks(toks)
	c.keep("tokens", func() string { return diffToks(obsToks(toks), before) })
}

func (c *caller) keepCaps(caps []splitpattern.Capture) {
	before := obsCaps(caps)
	c.keep("captures", func() string { return diffCaps(obsCaps(caps), before) })
}

func (c *caller) keepPts(pts *pretokenizedstring.PreTokenizedString, rp *rpts) {
	want := refObsPts(rp)
	c.keep("document", func() string { return diffPts(c.r.seePts(pts), want, true, true) })
}

var callers []*caller

// newCaller registers the state of task number id.
func (r *Run) newCaller(id int) *caller {
	c := &caller{r: r, id: id, at: -1}
	for len(callers) <= id {
		callers = append(callers, nil)
	}
	callers[id] = c
	return c
}

// hook is what supplied components call; it acts for the running caller.
func hook(where string) error {
	simrt.HideOn()
	defer simrt.HideOff()
	s := simrt.Active()
	id := s.Cur()
	if id < 0 || id >= len(callers) || callers[id] == nil {
		return nil
	}
	return callers[id].hooked(where)
}

func (c *caller) hooked(where string) error {
	if c.err != nil || c.pan != nil {
		c.after++
	}
	n := c.calls
	c.calls++
	if n != c.at {
		return nil
	}
	c.nfail++
	c.where = where
	if c.asPanic {
		c.pan = c.r.injPanic(c.id, c.nfail, where)
		c.r.S.Fault("supplied-code-panic")
		panic(c.pan)
	}
	c.err = c.r.injErr(c.id, c.nfail, where)
	c.r.S.Fault("supplied-code-error")
	return c.err
}

// leaking reports whether the supplied code that has just failed should return
// a part of its result along with the error.
func leaking() bool {
	simrt.HideOn()
	defer simrt.HideOff()
	s := simrt.Active()
	id := s.Cur()
	return id >= 0 && id < len(callers) && callers[id] != nil && callers[id].leak && callers[id].err != nil
}

func (c *caller) reset() {
	c.calls, c.at, c.err, c.pan, c.after, c.asPanic, c.leak = 0, -1, nil, nil, 0, false, false
}

// arm lets one of the next supplied calls fail, if the caller has failures left.
func (c *caller) arm(span, many int) {
	c.reset()
	if c.faults > 0 && c.sure && !c.r.fp(1, 16) {
		c.at = 0
		c.asPanic = c.r.fp(1, 3)
		c.leak = c.r.fp(1, 2)
		return
	}
	if c.faults > 0 && c.r.fp(2, 3) {
		if many > 16*span && c.r.fp(1, 4) {
			span = many // anywhere
		} else if c.r.fp(1, 8) {
			span *= 16
		}
		c.at = c.r.fn(span)
		c.asPanic = c.r.fp(1, 3)
		c.leak = c.r.fp(1, 2)
	}
}

// result of an operation that may fail as planned.
type result struct {
	failed  bool
	timeout bool
	planned bool // it is the failure that was injected
	err     error
}

// do runs one operation, armed with at most one failure, and checks that
// exactly the injected failure comes out, if any.
func (c *caller) do(name string, size int, span int, fn func() error) result {
	r := c.r
	c.arm(span, c.many)
	c.many = 0
	stalled := r.stalls
	var err error
	o := r.op(name, size, func() { err = fn() })
	r.Checked++
	switch {
	case o.panicked:
		if c.pan == nil || !same(o.pv, c.pan) {
			if c.pan != nil {
				r.Fail("%s: supplied code panicked with %v but the caller got the panic %v", name, c.pan, o.pv)
			}
			r.mustNotPanic(name, o)
		}
	case c.pan != nil:
		r.Fail("%s: the panic of supplied code (%s) was swallowed; the caller got err=%v", name, c.where, err)
	case c.err != nil:
		if err == nil {
			r.Fail("%s: the error of supplied code (%s) was swallowed", name, c.where)
		}
		if !same(err, c.err) {
			r.Fail("%s: supplied code (%s) returned the error %q but the caller got %q", name, c.where, c.err, err)
		}
	}
	if c.after > 0 {
		r.Fail("%s: supplied code was called %d more times after its failure", name, c.after)
	}
	res := result{failed: o.panicked || err != nil, err: err}
	if res.failed && !o.panicked && c.err == nil {
		if r.stalls > stalled && isTimeout(err) {
			res.timeout = true
		}
	}
	if c.err != nil || c.pan != nil {
		res.planned = true
		c.faults--
		if c.pan != nil {
			res.err = nil
		}
	}
	c.reset()
	return res
}

func (r *Run) injected(res result) bool {
	return res.failed && res.planned
}

func isTimeout(err error) bool {
	return err != nil && strings.HasPrefix(err.Error(), "match timeout after")
}

// stallClock makes clock readings jump while callers have stalls left.
func (r *Run) stallClock(num, den int) {
	r.S.ClockFn = func(s *simrt.Sim) int64 {
		id := s.Cur()
		if id < 0 || id >= len(callers) || callers[id] == nil {
			return 0
		}
		c := callers[id]
		if c.stalls > 0 && r.C.P(simrt.SClock, num, den) {
			c.stalls--
			r.stalls++
			s.Fault("clock-stall")
			return int64(time.Hour) + int64(r.C.N(simrt.SClock, 1000))*int64(time.Minute)
		}
		// ordinary jitter
		if r.C.P(simrt.SClock, 1, 16) {
			return int64(r.C.N(simrt.SClock, 1000)) * int64(10*time.Microsecond)
		}
		return 0
	}
}

// rpipe is a built pipeline, possibly shared.
type rpipe struct {
	spec  *pipe
	norm  normalizers.Normalizer
	pres  []pretokenizers.PreTokenizer
	model models.Model
	memos []*memoPattern
}

func (r *Run) buildPipe(p *pipe) *rpipe {
	b := &rpipe{spec: p}
	if p.norm != nil {
		b.norm = p.norm.real(r, hook)
	}
	for _, s := range p.pres {
		b.pres = append(b.pres, s.real(hook, &b.memos))
	}
	if p.model != nil {
		b.model = p.model.real(r)
	}
	return b
}

// mutatesText reports whether an interrupted run of the pre-tokenizer may
// already have added its documented prefix.
func (s *preSpec) mutatesText() bool { return s.kind == tkByteLevel || s.kind == tkMeta }

func (s *preSpec) timed() bool {
	return s.re2 != nil && s.re2.timeout > 0 || s.pat != nil && s.pat.timed()
}

func (p *patSpec) timed() bool {
	if p.inner != nil {
		return p.inner.timed()
	}
	return p.re2 != nil && p.re2.timeout > 0
}

// deliver takes one document through the whole pipeline, retrying what fails,
// and checks every state on the way. ok is false when the document cannot be
// tokenized (the configured unknown token does not exist).
func (c *caller) deliver(b *rpipe, doc string) (enc *encodings.Encoding, want renc, ok bool) {
	r := c.r
	p := b.spec

	var ns *normalizedstring.NormalizedString
	ref := refFrom(doc)
	for {
		r.mustNotPanic("FromString", r.op("FromString", len(doc), func() { ns = normalizedstring.FromString(doc) }))
		if b.norm == nil {
			break
		}
		before := c.calls
		_ = before
		res := c.do("Normalize", 4*len(doc), 4, func() error { return b.norm.Normalize(ns) })
		if !res.failed {
			p.norm.ref(ref, nil)
			r.wantNS("after "+p.norm.String(), ns, ref)
			break
		}
		if !r.injected(res) {
			r.Fail("Normalize with %v failed: %v", p.norm, res.err)
		}
	}

	var pts *pretokenizedstring.PreTokenizedString
	r.mustNotPanic("FromNormalizedString", r.op("FromNormalizedString", len(doc), func() {
		if b.norm == nil && len(doc)%2 == 1 {
			pts = pretokenizedstring.FromString(doc)
		} else {
			pts = pretokenizedstring.FromNormalizedString(ns)
		}
	}))
	rp := refPts(ref)
	for i, pre := range b.pres {
		sp := p.pres[i]
		for {
			before := refObsPts(rp)
			res := c.do("PreTokenize", 8*len(doc)+8, 8, func() error { return pre.PreTokenize(pts) })
			if !res.failed {
				sp.ref(rp)
				r.wantPts("after pre-tokenizer "+sp.String(), pts, rp)
				break
			}
			if !r.injected(res) && !res.timeout {
				r.Fail("pre-tokenizer %v failed: %v", sp, res.err)
			}
			if res.timeout && !sp.timed() {
				r.Fail("pre-tokenizer %v has no time limit but timed out", sp)
			}
			if d := diffPts(r.seePts(pts), before, !sp.mutatesText(), true); d != "" {
				r.Fail("after a failed run of pre-tokenizer %v: %s", sp, d)
			}
		}
	}

	enc, want, ok = c.tokenize(b, pts, rp, len(doc))
	if ok {
		c.keepPts(pts, rp)
		c.keepEnc(enc)
	}
	return
}

// tokenize attaches tokens to all splits and makes the encoding.
func (c *caller) tokenize(b *rpipe, pts *pretokenizedstring.PreTokenizedString, rp *rpts, size int) (enc *encodings.Encoding, want renc, ok bool) {
	r := c.r
	p := b.spec
	for {
		var order []string
		c.many = len(rp.sp) - countHas(rp)
		res := c.do("Tokenize", 8*size+8, 10, func() error {
			return pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
				text := ns.Get()
				simrt.HideOn()
				order = append(order, text)
				simrt.HideOff()
				if err := hook("tokenizer"); err != nil {
					return leakTokens(text), err
				}
				return b.model.Tokenize(text)
			})
		})
		// The reference goes as far as the failure.
		done := len(order)
		if res.failed {
			done--
		}
		k := 0
		var expectErr refErr
		for i := range rp.sp {
			if rp.sp[i].has {
				continue
			}
			if k >= len(order) {
				break
			}
			if order[k] != rp.sp[i].ns.norm() {
				r.Fail("Tokenize handed over the text %q, expected %q", order[k], rp.sp[i].ns.norm())
			}
			if k < done {
				toks, e := p.model.ref(order[k])
				if e != errNone {
					r.Fail("the model tokenized %q although %v", order[k], e)
				}
				rp.sp[i].toks, rp.sp[i].has = toks, true
			} else if !r.injected(res) {
				_, expectErr = p.model.ref(order[k])
			}
			k++
		}
		if k < len(order) {
			r.Fail("Tokenize made %d calls for %d splits without tokens", len(order), k)
		}
		r.wantPts("after Tokenize", pts, rp)
		if !res.failed {
			for i := range rp.sp {
				if !rp.sp[i].has {
					r.Fail("Tokenize succeeded but never processed split %d (%q)", i, rp.sp[i].ns.norm())
				}
			}
			break
		}
		// No partial encoding.
		var err error
		o := r.op("IntoEncoding", size, func() { _, err = pts.IntoEncoding(p.word, p.typ) })
		r.mustNotPanic("IntoEncoding", o)
		if err == nil {
			r.Fail("IntoEncoding returned an encoding although %d of %d splits are tokenized", countHas(rp), len(rp.sp))
		}
		if r.injected(res) {
			continue
		}
		if expectErr == errNone {
			r.Fail("tokenizing with %v failed: %v", p.model, res.err)
		}
		if !p.model.failsWith(expectErr, res.err) {
			r.Fail("tokenizing with %v failed with %q, expected %v", p.model, res.err, expectErr)
		}
		return nil, renc{}, false
	}
	var err error
	o := r.op("IntoEncoding", size, func() { enc, err = pts.IntoEncoding(p.word, p.typ) })
	r.mustNotPanic("IntoEncoding", o)
	if err != nil {
		r.Fail("IntoEncoding failed on a fully tokenized document: %v", err)
	}
	want = rp.encode(p.word, p.typ)
	r.wantEnc("encoding", enc, want)
	return enc, want, true
}

func countHas(p *rpts) int {
	n := 0
	for _, s := range p.sp {
		if s.has {
			n++
		}
	}
	return n
}

func (r *Run) wantEnc(what string, enc *encodings.Encoding, want renc) {
	r.Checked++
	var got encObs
	r.mustNotPanic("reading an encoding", r.op("observe", 1024, func() { got = obsEnc(enc) }))
	if d := diffEnc(got, want); d != "" {
		r.Fail("%s: %s", what, d)
	}
}
