package main

import (
	"fmt"
	"reflect"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
)

// What a caller can see of a value, in plain comparable form.

// nsObs is everything observable about a normalized string.
type nsObs struct {
	norm, orig string
	s, e       int
	empty      bool
	align      [][2]int // per normalized byte
	back       [][2]int // per original byte
}

func obsNS(ns *normalizedstring.NormalizedString) nsObs {
	o := nsObs{norm: ns.Get(), orig: ns.GetOriginal(), empty: ns.IsEmpty()}
	off := ns.OriginalOffsets()
	o.s, o.e = off.Start, off.End
	if ns.Len() != len(o.norm) || ns.OriginalLen() != len(o.orig) {
		o.norm += fmt.Sprintf("<lengths %d %d>", ns.Len(), ns.OriginalLen())
	}
	for i := 0; i < len(o.norm); i++ {
		g, ok := ns.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(i, i+1))
		if !ok {
			o.align = append(o.align, [2]int{-1, -1})
			continue
		}
		o.align = append(o.align, [2]int{g.Start(), g.End()})
	}
	for _, a := range ns.OriginalAlignments() {
		v := reflect.ValueOf(a)
		o.back = append(o.back, [2]int{int(v.Field(0).Int()), int(v.Field(1).Int())})
	}
	return o
}

func refObsNS(n *rns) nsObs {
	o := nsObs{norm: n.norm(), orig: n.orig, s: n.shift, e: n.shift + len(n.orig), empty: len(n.ch) == 0}
	for _, c := range n.ch {
		for range []byte(c.t) {
			o.align = append(o.align, [2]int{c.s, c.e})
		}
	}
	o.back = n.origAlignments()
	return o
}

func diffNS(a, b nsObs) string {
	switch {
	case a.norm != b.norm:
		return fmt.Sprintf("text %q, expected %q", clip(a.norm), clip(b.norm))
	case a.orig != b.orig:
		return fmt.Sprintf("original %q, expected %q", clip(a.orig), clip(b.orig))
	case a.s != b.s || a.e != b.e:
		return fmt.Sprintf("original offsets %d..%d, expected %d..%d", a.s, a.e, b.s, b.e)
	case a.empty != b.empty:
		return fmt.Sprintf("IsEmpty %v, expected %v", a.empty, b.empty)
	}
	if d := diffPairs(a.align, b.align); d != "" {
		return fmt.Sprintf("alignment of %q with %q: %s", clip(a.norm), clip(a.orig), d)
	}
	if d := diffPairs(a.back, b.back); d != "" {
		return fmt.Sprintf("alignment of the original %q with %q: %s", clip(a.orig), clip(a.norm), d)
	}
	return ""
}

func diffPairs(a, b [][2]int) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries, expected %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("entry %d is %v, expected %v", i, a[i], b[i])
		}
	}
	return ""
}

// splObs is everything observable about one split.
type splObs struct {
	text string
	s, e int
	has  bool
	toks []rtok
}

func obsToks(t []models.Token) []rtok {
	out := make([]rtok, 0, len(t))
	for _, x := range t {
		out = append(out, rtok{x.ID, x.Value, x.Offsets.Start, x.Offsets.End})
	}
	return out
}

func obsPts(p *pretokenizedstring.PreTokenizedString) []splObs {
	var out []splObs
	for _, b := range p.GetOriginalByteSplits() {
		o := splObs{text: b.String, s: b.Offsets.Start, e: b.Offsets.End}
		if b.Tokens != nil {
			o.has = true
			o.toks = obsToks(*b.Tokens)
		}
		out = append(out, o)
	}
	return out
}

func refObsPts(p *rpts) []splObs {
	var out []splObs
	for _, s := range p.sp {
		out = append(out, splObs{s.ns.norm(), s.ns.shift, s.ns.shift + len(s.ns.orig), s.has, s.toks})
	}
	return out
}

func diffToks(a, b []rtok) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("%d tokens, expected %d; missing %+v", len(a), len(b), b[i])
		case i >= len(b):
			return fmt.Sprintf("%d tokens, expected %d; extra %+v", len(a), len(b), a[i])
		case a[i] != b[i]:
			return fmt.Sprintf("token %d is %+v, expected %+v", i, a[i], b[i])
		}
	}
	return ""
}

// diffPts compares splits; text and tokens are compared where asked for.
func diffPts(a, b []splObs, text, toks bool) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("%d splits, expected %d; missing %q", len(a), len(b), b[i].text)
		case i >= len(b):
			return fmt.Sprintf("%d splits, expected %d; extra %q", len(a), len(b), a[i].text)
		case text && a[i].text != b[i].text:
			return fmt.Sprintf("split %d is %q, expected %q", i, clip(a[i].text), clip(b[i].text))
		case a[i].s != b[i].s || a[i].e != b[i].e:
			return fmt.Sprintf("split %d %q covers %d..%d, expected %d..%d", i, clip(a[i].text), a[i].s, a[i].e, b[i].s, b[i].e)
		}
		if toks {
			if a[i].has != b[i].has {
				return fmt.Sprintf("split %d %q tokenized: %v, expected %v", i, clip(a[i].text), a[i].has, b[i].has)
			}
			if d := diffToks(a[i].toks, b[i].toks); d != "" {
				return fmt.Sprintf("split %d %q: %s", i, clip(a[i].text), d)
			}
		}
	}
	return ""
}

// encObs is everything observable about an encoding.
type encObs struct {
	renc
	special, attention []int
	over               int
}

func obsEnc(e *encodings.Encoding) encObs {
	var o encObs
	o.ids = append(o.ids, e.IDs...)
	o.words = append(o.words, e.Words...)
	o.types = append(o.types, e.TypeIDs...)
	o.toks = append(o.toks, e.Tokens...)
	for _, x := range e.Offsets {
		o.offs = append(o.offs, [2]int{x.Start, x.End})
	}
	o.special = append(o.special, e.SpecialTokensMask...)
	o.attention = append(o.attention, e.AttentionMask...)
	o.over = len(e.Overflowing)
	if e.Len() != len(e.IDs) || e.IsEmpty() != (len(e.IDs) == 0) {
		o.over = -1
	}
	return o
}

func diffInts(name string, a, b []int) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d %s, expected %d", len(a), name, len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s[%d] is %d, expected %d (%v, expected %v)", name, i, a[i], b[i], a, b)
		}
	}
	return ""
}

func diffEnc(a encObs, b renc) string {
	if len(a.toks) != len(b.toks) {
		return fmt.Sprintf("tokens %q, expected %q", a.toks, b.toks)
	}
	for i := range b.toks {
		if a.toks[i] != b.toks[i] {
			return fmt.Sprintf("tokens %q, expected %q", a.toks, b.toks)
		}
	}
	if d := diffInts("IDs", a.ids, b.ids); d != "" {
		return d
	}
	if d := diffInts("words", a.words, b.words); d != "" {
		return d
	}
	if d := diffInts("type IDs", a.types, b.types); d != "" {
		return d
	}
	offs := b.offs
	for i, o := range offs {
		if o[0] < 0 && i < len(a.offs) { // anything goes
			offs = append([][2]int(nil), offs...)
			offs[i] = a.offs[i]
		}
	}
	if d := diffPairs(a.offs, offs); d != "" {
		return fmt.Sprintf("offsets of %q: %s", a.toks, d)
	}
	zero := make([]int, len(b.ids))
	one := make([]int, len(b.ids))
	for i := range one {
		one[i] = 1
	}
	if d := diffInts("special-tokens mask", a.special, zero); d != "" {
		return d
	}
	if d := diffInts("attention mask", a.attention, one); d != "" {
		return d
	}
	if a.over != 0 {
		return "unexpected overflowing encodings or inconsistent length"
	}
	return ""
}

func obsCaps(c []splitpattern.Capture) []rcap {
	var out []rcap
	for _, x := range c {
		out = append(out, rcap{x.Offsets.Start, x.Offsets.End, x.IsMatch})
	}
	return out
}

func diffCaps(a, b []rcap) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("captures %v, expected %v", a, b)
		}
	}
	return ""
}

// seeNS observes a string as part of the run.
func (r *Run) seeNS(ns *normalizedstring.NormalizedString) (o nsObs) {
	r.mustNotPanic("reading a normalized string", r.op("observe", 4096, func() { o = obsNS(ns) }))
	return
}

func (r *Run) seePts(p *pretokenizedstring.PreTokenizedString) (o []splObs) {
	r.mustNotPanic("reading the splits", r.op("observe", 4096, func() { o = obsPts(p) }))
	return
}

func (r *Run) wantNS(what string, ns *normalizedstring.NormalizedString, want *rns) {
	r.Checked++
	if d := diffNS(r.seeNS(ns), refObsNS(want)); d != "" {
		r.Fail("%s: %s", what, d)
	}
}

func (r *Run) wantPts(what string, p *pretokenizedstring.PreTokenizedString, want *rpts) {
	r.Checked++
	if d := diffPts(r.seePts(p), refObsPts(want), true, true); d != "" {
		r.Fail("%s: %s", what, d)
	}
}

// wantNormalizedSplits compares the splits by their places in the normalized
// text.
func (r *Run) wantNormalizedSplits(what string, p *pretokenizedstring.PreTokenizedString, ref *rpts) {
	var got []splObs
	o := r.op("GetNormalizedByteSplits", 4096, func() {
		for _, b := range p.GetNormalizedByteSplits() {
			s := splObs{text: b.String, s: b.Offsets.Start, e: b.Offsets.End, has: b.Tokens != nil}
			if s.has {
				s.toks = obsToks(*b.Tokens)
			}
			got = append(got, s)
		}
	})
	r.mustNotPanic("GetNormalizedByteSplits", o)
	var want []splObs
	at := 0
	for _, s := range ref.sp {
		want = append(want, splObs{s.ns.norm(), at, at + s.ns.len(), s.has, s.toks})
		at += s.ns.len()
	}
	r.Checked++
	if m := diffPts(got, want, true, true); m != "" {
		r.Fail("normalized splits of %s: %s", what, m)
	}
}
