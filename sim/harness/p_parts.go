package main

import (
	"fmt"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"verif.local/harness/touch"
)

// --- C18 ---

// part says how a string was cut out of an earlier one of the family.
type part struct {
	from  int
	pat   *patSpec // nil: a slice
	behav int
	a, b  int // what to cut or which piece to take, in permille
	eds   []*edit
}

// family is a string, and parts of it and of its parts.
type family struct {
	doc   string
	pre   []*edit
	parts []part
}

func (f *family) String() string {
	s := fmt.Sprintf("document %q, prepared by %v", clip(f.doc), f.pre)
	for i, p := range f.parts {
		how := fmt.Sprintf("slice %d..%d permille", p.a, p.b)
		if p.pat != nil {
			how = fmt.Sprintf("split by %v (behaviour %d), piece at %d permille", p.pat, p.behav, p.a)
		}
		s += fmt.Sprintf("; %d is a %s of %d, then %v", i+1, how, p.from, p.eds)
	}
	return s
}

func (r *Run) family(w *world, lex []string) *family {
	f := &family{doc: r.doc(lex, 6)}
	for k := r.n(3); k > 0; k-- {
		f.pre = append(f.pre, r.edit(w))
	}
	for k := 1 + r.n(6); k > 0; k-- {
		p := part{from: r.n(len(f.parts) + 1), a: r.n(1000), b: r.n(1000), behav: r.n(5)}
		if p.a > p.b {
			p.a, p.b = p.b, p.a
		}
		switch r.n(5) {
		case 0: // from the beginning
			p.a = 0
		case 1: // all of it
			p.a, p.b = 0, 999
		case 2: // the same part again
			if n := len(f.parts); n > 0 {
				p = f.parts[r.n(n)]
				p.eds = nil
			}
		}
		if p.pat == nil && r.p(1, 2) {
			p.pat = r.pat(w, 1)
		}
		if r.p(1, 4) {
			p.eds = append(p.eds, r.edit(w))
		}
		f.parts = append(f.parts, p)
	}
	return f
}

func applyEdit(r *Run, e *edit, ns *normalizedstring.NormalizedString) {
	var p splitpattern.SplitPattern
	if e.pat != nil {
		p = e.pat.real(nil, nil)
	}
	if err := e.apply(r, ns, p, nil); err != nil {
		panic(err)
	}
}

// byteRange turns permille of the characters into a range of bytes.
func (n *rns) byteRange(a, b int) (int, int) {
	i, j := a*len(n.ch)/1000, b*len(n.ch)/1000+1
	if j > len(n.ch) {
		j = len(n.ch)
	}
	s, e := 0, 0
	for k, c := range n.ch[:j] {
		if k < i {
			s += len(c.t)
		}
		e += len(c.t)
	}
	return s, e
}

// cut takes the part out of a real string.
func (p part) cut(ns *normalizedstring.NormalizedString, s, e int) (*normalizedstring.NormalizedString, int, error) {
	if p.pat == nil {
		out, ok := ns.Slice(normalizedstring.NewNormalizedRange(s, e))
		if !ok {
			return nil, 0, fmt.Errorf("Slice(%d..%d) of %q refused", s, e, clip(ns.Get()))
		}
		return out, 1, nil
	}
	all, err := ns.Split(p.pat.real(nil, nil), behaviours[p.behav])
	if err != nil {
		return nil, 0, err
	}
	var l []*normalizedstring.NormalizedString
	for _, x := range all {
		if !x.IsEmpty() {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return nil, 0, nil
	}
	return l[p.a*len(l)/1000], len(l), nil
}

// ref takes the part out of a reference string.
func (p part) ref(n *rns) (*rns, int) {
	if p.pat == nil {
		s, e := n.byteRange(p.a, p.b)
		return n.slice(s, e), 1
	}
	var l []*rns
	for _, x := range n.split(p.pat.ref(n.norm()), p.behav) {
		if len(x.ch) > 0 {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return nil, 0
	}
	return l[p.a*len(l)/1000], len(l)
}

// make builds the reference strings; a part of nothing is nil.
func (f *family) refs() []*rns {
	root := refFrom(f.doc)
	for _, e := range f.pre {
		e.ref(root)
	}
	out := []*rns{root}
	for _, p := range f.parts {
		var n *rns
		if from := out[p.from]; from != nil && len(from.ch) > 0 {
			n, _ = p.ref(from)
			if n != nil {
				n = n.clone()
				for _, e := range p.eds {
					e.ref(n)
				}
			}
		}
		out = append(out, n)
	}
	return out
}

// build makes the real strings.
func (f *family) build(r *Run) (out []*normalizedstring.NormalizedString) {
	refs := f.refs0()
	o := r.op("making a family of strings", 1<<14, func() {
		root := normalizedstring.FromString(f.doc)
		for _, e := range f.pre {
			applyEdit(r, e, root)
		}
		out = append(out, root)
		for i, p := range f.parts {
			var n *normalizedstring.NormalizedString
			if from := out[p.from]; from != nil && refs[i].ok {
				var k int
				var err error
				n, k, err = p.cut(from, refs[i].s, refs[i].e)
				if err != nil {
					panic(err)
				}
				if k != refs[i].k {
					panic(fmt.Sprintf("%v: part %d: %d pieces, expected %d", f, i+1, k, refs[i].k))
				}
				for _, e := range p.eds {
					applyEdit(r, e, n)
				}
			}
			out = append(out, n)
		}
	})
	r.mustNotPanic("making a family of strings", o)
	return out
}

type cutInfo struct {
	ok      bool
	s, e, k int
}

// refs0 is where the parts are cut.
func (f *family) refs0() []cutInfo {
	refs := f.refs()
	var out []cutInfo
	for i, p := range f.parts {
		var c cutInfo
		if from := refs[p.from]; from != nil && refs[i+1] != nil {
			c.ok = true
			c.s, c.e = from.byteRange(p.a, p.b)
			_, c.k = p.ref(from)
		}
		out = append(out, c)
	}
	return out
}

// query is something one can ask a string without changing it.
type query struct {
	kind  int
	a, b  int
	pat   *patSpec
	real  splitpattern.SplitPattern
	behav int
}

func (r *Run) query(w *world) query {
	q := query{kind: r.n(12), a: r.n(24), b: r.n(24), behav: r.n(5)}
	if q.a > q.b && r.p(5, 6) {
		q.a, q.b = q.b, q.a
	}
	if q.kind >= 9 {
		q.pat = r.pat(w, 1)
		q.real = q.pat.real(nil, nil)
	}
	return q
}

func (q query) String() string { return fmt.Sprintf("query %d(%d, %d, %v)", q.kind, q.a, q.b, q.pat) }

// ask describes the answer.
func (q query) ask(ns *normalizedstring.NormalizedString) (out string) {
	defer func() {
		if v := recover(); v != nil {
			if e, ok := v.(error); ok {
				if _, ok := v.(interface{ RuntimeError() }); ok {
					out = "panicked: " + e.Error()
					return
				}
			}
			panic(v)
		}
	}()
	nr := normalizedstring.NewNormalizedRange(q.a, q.b)
	or := normalizedstring.NewOriginalRange(q.a, q.b)
	switch q.kind {
	case 0:
		return fmt.Sprintf("%q %q %d %d %v %v", ns.Get(), ns.GetOriginal(), ns.Len(), ns.OriginalLen(), ns.IsEmpty(), ns.OriginalOffsets())
	case 1:
		s, ok := ns.GetRange(nr)
		return fmt.Sprintf("%q %v", s, ok)
	case 2:
		s, ok := ns.GetRange(or)
		return fmt.Sprintf("%q %v", s, ok)
	case 3:
		s, ok := ns.GetOriginalRange(nr)
		return fmt.Sprintf("%q %v", s, ok)
	case 4:
		s, ok := ns.GetOriginalRange(or)
		return fmt.Sprintf("%q %v", s, ok)
	case 5:
		g, ok := ns.CoerceRangeToNormalized(or)
		return fmt.Sprint(g.Start(), g.End(), ok)
	case 6:
		g, ok := ns.CoerceRangeToOriginal(nr)
		return fmt.Sprint(g.Start(), g.End(), ok)
	case 7:
		l := ns.OriginalAlignments()
		s := fmt.Sprint(l)
		touch.Alignments(l)
		return s
	case 8:
		n, ok := ns.Slice(or)
		if !ok {
			return "refused"
		}
		return fmt.Sprintf("%q of %q at %v", n.Get(), n.GetOriginal(), n.OriginalOffsets())
	case 9:
		l, err := q.real.FindMatches(ns.Get())
		return fmt.Sprint(obsCaps(l), err)
	default:
		l, err := ns.Split(q.real, behaviours[q.behav])
		s := fmt.Sprint(len(l), err)
		for _, n := range l {
			s += fmt.Sprintf("; %q of %q at %v", n.Get(), n.GetOriginal(), n.OriginalOffsets())
		}
		touch.Nss(l)
		return s
	}
}

func (c *caller) keepNS(tag string, ns *normalizedstring.NormalizedString, want *rns) {
	w := refObsNS(want)
	c.keep(tag, func() string { return diffNS(c.r.seeNS(ns), w) })
}

// readers is a tokenized document that several callers read.
type readers struct {
	pts  *pretokenizedstring.PreTokenizedString
	ref  *rpts
	conv *strutils.BytesToRuneOffsetConverter
	doc  string
}

func (r *Run) readers(w *world, lex []string) *readers {
	docs := []string{r.doc(lex, 6)}
	p := r.newPipe(w, docs, false)
	if r.p(1, 4) { // a supplied model
		p.model.def = false
		p.model.own = 1 + r.n(127)
	}
	ref := p.refSplits(docs[0])
	if p.refTokenize(ref) != errNone {
		return nil
	}
	norm := (*normSpec)(nil)
	if p.norm != nil {
		norm = p.norm
	}
	d := &readers{ref: ref, doc: docs[0]}
	model := p.model.real(r)
	o := r.op("making a document", 1<<14, func() {
		ns := normalizedstring.FromString(docs[0])
		if norm != nil {
			if err := norm.real(r, nil).Normalize(ns); err != nil {
				panic(err)
			}
		}
		d.pts = pretokenizedstring.FromNormalizedString(ns)
		for _, x := range p.pres {
			if err := x.real(nil, nil).PreTokenize(d.pts); err != nil {
				panic(err)
			}
		}
		err := d.pts.Tokenize(func(ns *normalizedstring.NormalizedString) ([]models.Token, error) {
			return model.Tokenize(ns.Get())
		})
		if err != nil {
			panic(err)
		}
		d.conv = strutils.NewBytesToRuneOffsetConverter(docs[0])
	})
	r.mustNotPanic("making a document", o)
	return d
}

// read looks at the shared document in one of several ways.
func (c *caller) read(d *readers, kind, x, y int, e *edit) {
	r := c.r
	switch kind {
	case 0:
		r.wantPts("a document read by several callers", d.pts, d.ref)
	case 1, 2:
		// every encoding is the caller's own
		word, typ := x%4-1, y%3
		var enc *encodings.Encoding
		var err error
		o := r.op("IntoEncoding", 4096, func() { enc, err = d.pts.IntoEncoding(word, typ) })
		r.mustNotPanic("IntoEncoding", o)
		if err != nil {
			r.Fail("IntoEncoding failed on a fully tokenized document: %v", err)
		}
		r.wantEnc("encoding of a document read by several callers", enc, d.ref.encode(word, typ))
		r.scribble("encoding", func() { touch.Extend(enc); touch.Encoding(enc, r.some()) })
	case 3:
		r.wantNormalizedSplits("a document read by several callers", d.pts, d.ref)
	case 4:
		// a part of one of its splits
		if len(d.ref.sp) == 0 {
			return
		}
		i := x % len(d.ref.sp)
		ref := d.ref.sp[i].ns
		if len(ref.ch) == 0 {
			return
		}
		s, t := ref.byteRange(x%1000, 999)
		if s >= t {
			return
		}
		var n *normalizedstring.NormalizedString
		ok := false
		o := r.op("Slice", 4096, func() {
			n, ok = d.pts.Splits()[i].NormalizedString.Slice(normalizedstring.NewNormalizedRange(s, t))
		})
		r.mustNotPanic("Slice", o)
		if !ok {
			r.Fail("Slice(%d..%d) of %q refused", s, t, ref.norm())
		}
		own := ref.slice(s, t)
		r.wantNS("a slice of a split", n, own)
		r.mustNotPanic(e.String(), r.op(e.String(), 4096, func() { applyEdit(r, e, n) }))
		e.ref(own)
		r.wantNS("a slice of a split after "+e.String(), n, own)
		c.keepNS("slice", n, own)
	default:
		if d.doc == "" {
			return
		}
		cs := refFrom(d.doc).ch
		at := func(i int) int { // where a character starts
			if i == len(cs) {
				return len(d.doc)
			}
			return cs[i].s
		}
		i, j := x%(len(cs)+1), y%(len(cs)+1)
		if i > j {
			i, j = j, i
		}
		var got strutils.RuneOffsets
		o := r.op("Convert", 16, func() { got = d.conv.Convert(strutils.ByteOffsets{Start: at(i), End: at(j)}) })
		r.mustNotPanic("Convert", o)
		r.Checked++
		if got.Start != i || got.End != j {
			r.Fail("bytes %d..%d of %q are characters %d..%d, expected %d..%d", at(i), at(j), clip(d.doc), got.Start, got.End, i, j)
		}
	}
}

func profC18(r *Run) {
	w := &world{}
	n := 1 + r.n(4)
	lex := r.lexicon()
	f := r.family(w, lex)
	r.Sample = f.String()
	refs := f.refs()
	real := f.build(r)
	var d *readers
	if r.p(1, 2) {
		d = r.readers(w, lex)
	}
	// Who edits which string; the others are read by all and edited by nobody.
	owner := make([]int, len(refs))
	allOwned := r.p(1, 3)
	for i := range owner {
		owner[i] = -1
		if refs[i] != nil && (allOwned || r.p(1, 2)) {
			owner[i] = r.n(n)
		}
	}
	var shared []int
	for i := range owner {
		if owner[i] < 0 && refs[i] != nil {
			shared = append(shared, i)
		}
	}
	type act struct {
		kind int
		at   int
		in   interrupted
		p    part
		q    []query
		x, y int
	}
	plans := make([][]act, n)
	for c := range plans {
		var mine []int
		for i := range owner {
			if owner[i] == c {
				mine = append(mine, i)
			}
		}
		for k := 3 + r.n(8); k > 0; k-- {
			a := act{kind: r.n(6), x: r.n(4000), y: r.n(4000)}
			a.in = r.history(w, lex, 1).acts[0]
			a.p = r.family(w, lex).parts[0]
			for m := 1 + r.n(3); m > 0; m-- {
				a.q = append(a.q, r.query(w))
			}
			switch {
			case a.kind >= 5 && d != nil:
				a.kind = 5
			case a.kind >= 3 && len(mine) > 0:
				a.kind = 3
				a.at = mine[r.n(len(mine))]
			case len(shared) > 0:
				a.kind %= 3
				a.at = shared[r.n(len(shared))]
			case len(mine) > 0:
				a.kind = 3
				a.at = mine[r.n(len(mine))]
			default:
				continue
			}
			plans[c] = append(plans[c], a)
		}
	}
	for i := 0; i < n; i++ {
		i := i
		c := r.newCaller(i)
		faults := r.fn(3)
		r.Spawn("caller", func() {
			var alone []*normalizedstring.NormalizedString
			own := map[int]*rns{}
			for _, a := range plans[i] {
				switch a.kind {
				case 0: // what a string looks like
					r.wantNS(fmt.Sprintf("string %d, which nobody edits", a.at), real[a.at], refs[a.at])
				case 1: // any question; the same string alone gives the same answer
					if alone == nil {
						alone = f.build(r)
					}
					for _, q := range a.q {
						var got, want string
						o := r.op(q.String(), 4096, func() { got = q.ask(real[a.at]) })
						r.mustNotPanic(q.String(), o)
						o = r.op(q.String(), 4096, func() { want = q.ask(alone[a.at]) })
						r.mustNotPanic(q.String(), o)
						r.Checked++
						if got != want {
							r.Fail("%v of string %d, which others read: %s; alone: %s", q, a.at, clip(got), clip(want))
						}
					}
				case 2: // a new part, edited at once
					ref := refs[a.at]
					if len(ref.ch) == 0 {
						continue
					}
					pr, k := a.p.ref(ref)
					s, e := ref.byteRange(a.p.a, a.p.b)
					var part *normalizedstring.NormalizedString
					what := "Slice"
					if a.p.pat != nil {
						what = "Split by " + a.p.pat.String()
					}
					o := r.op(what, 4096, func() {
						var err error
						var got int
						if part, got, err = a.p.cut(real[a.at], s, e); err != nil {
							panic(err)
						} else if got != k {
							panic(fmt.Sprintf("%d pieces, expected %d", got, k))
						}
					})
					r.mustNotPanic(what, o)
					if pr == nil {
						continue
					}
					pr = pr.clone()
					r.wantNS("a new part by "+what, part, pr)
					c.faults = faults
					c.interrupt(part, pr, a.in, len(f.doc), true)
					c.faults = 0
					c.keepNS("part", part, pr)
					r.wantNS("a string after an edit of a part of it", real[a.at], ref)
				case 3: // an edit of one's own
					ref := own[a.at]
					if ref == nil {
						ref = refs[a.at].clone()
						own[a.at] = ref
						r.wantNS("a string of one's own", real[a.at], ref)
					}
					if ref.len() > 2000 {
						continue
					}
					c.faults = faults
					c.interrupt(real[a.at], ref, a.in, len(f.doc), true)
					c.faults = 0
				default:
					c.read(d, a.x%6, a.x, a.y, a.p.editOr(a.in.ed))
				}
			}
			for j := range owner {
				if ref := own[j]; ref != nil {
					r.wantNS(fmt.Sprintf("string %d, edited by one caller only", j), real[j], ref)
					c.keepNS("string of one's own", real[j], ref)
				} else if owner[j] == i {
					r.wantNS(fmt.Sprintf("string %d, edited by nobody", j), real[j], refs[j])
				}
			}
			for _, j := range shared {
				c.keepNS("shared string", real[j], refs[j])
			}
		})
	}
	r.schedule(n)
	r.Go()
}

// editOr is an edit that fits a slice.
func (p part) editOr(e *edit) *edit {
	if len(p.eds) > 0 {
		return p.eds[0]
	}
	if e.kind == edReplace {
		return &edit{kind: edUpper} // its pattern may be one that fails
	}
	return e
}
