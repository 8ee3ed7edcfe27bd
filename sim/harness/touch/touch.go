// Package touch reads and overwrites values the library handed out. Unlike
// the rest of the harness it is compiled with the happens-before detector, so
// that memory the library wrongly shares between callers is seen.
package touch

import (
	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

// ReadTokens reads every field.
//
//go:noinline
func ReadTokens(t []models.Token) int {
	n := 0
	for i := range t {
		n += t[i].ID + len(t[i].Value) + t[i].Offsets.Start + t[i].Offsets.End
	}
	return n
}

// ReadCaptures reads every field.
//
//go:noinline
func ReadCaptures(c []splitpattern.Capture) int {
	n := 0
	for i := range c {
		n += c[i].Offsets.Start + c[i].Offsets.End
		if c[i].IsMatch {
			n++
		}
	}
	return n
}

// Some says what is overwritten: the kinds of fields (all of them if it is
// zero), and whether in all elements or only in one.
type Some int

func (m Some) field(k int) bool { return m&7 == 0 || m&7>>k&1 == 1 }

func (m Some) elem(i, n int) bool {
	switch m >> 3 {
	case 1:
		return i == n-1
	case 2:
		return i == 0
	}
	return true
}

// Tokens overwrites the whole list, including its spare capacity.
func Tokens(t []models.Token, m Some) {
	n := len(t)
	t = t[:cap(t)]
	for i := range t {
		if !m.elem(i, n) {
			continue
		}
		if m.field(0) {
			t[i].ID = -77777
		}
		if m.field(1) {
			t[i].Value = "scribbled"
		}
		if m.field(2) {
			t[i].Offsets.Start, t[i].Offsets.End = 1<<20, -5
		}
	}
}

// Captures overwrites the whole list, including its spare capacity.
func Captures(c []splitpattern.Capture, m Some) {
	n := len(c)
	c = c[:cap(c)]
	for i := range c {
		if !m.elem(i, n) {
			continue
		}
		if m.field(0) {
			c[i].IsMatch = !c[i].IsMatch
		}
		if m.field(1) {
			c[i].Offsets.Start = 1 << 20
		}
		if m.field(2) {
			c[i].Offsets.End = -5
		}
	}
}

// Alignments overwrites the list.
func Alignments(a []normalizedstring.AlignmentRange) {
	a = a[:cap(a)]
	for i := range a {
		a[i] = normalizedstring.AlignmentRange{}
	}
}

// OrigSplits overwrites the list.
func OrigSplits(s []pretokenizedstring.OriginalByteSplit, m Some) {
	n := len(s)
	s = s[:cap(s)]
	for i := range s {
		if !m.elem(i, n) {
			continue
		}
		if m.field(0) {
			s[i].String = "scribbled"
		}
		if m.field(1) {
			s[i].Offsets.Start, s[i].Offsets.End = 1<<20, -5
		}
		if m.field(2) {
			s[i].Tokens = nil
		}
	}
}

// NormSplits overwrites the list.
func NormSplits(s []pretokenizedstring.NormalizedByteSplit, m Some) {
	n := len(s)
	s = s[:cap(s)]
	for i := range s {
		if !m.elem(i, n) {
			continue
		}
		if m.field(0) {
			s[i].String = "scribbled"
		}
		if m.field(1) {
			s[i].Offsets.Start, s[i].Offsets.End = 1<<20, -5
		}
		if m.field(2) {
			s[i].Tokens = nil
		}
	}
}

// Nss overwrites a list of normalized strings (not the strings themselves).
func Nss(s []*normalizedstring.NormalizedString) {
	s = s[:cap(s)]
	for i := range s {
		s[i] = nil
	}
}

// Encoding overwrites the lists of an encoding.
func Encoding(e *encodings.Encoding, m Some) {
	ints := func(v []int, k int) {
		if !m.field(k) {
			return
		}
		n := len(v)
		v = v[:cap(v)]
		for i := range v {
			if m.elem(i, n) {
				v[i] = -77777
			}
		}
	}
	ints(e.IDs, 0)
	ints(e.TypeIDs, 1)
	ints(e.Words, 2)
	ints(e.SpecialTokensMask, 1)
	ints(e.AttentionMask, 2)
	for i := range e.Tokens {
		if m.field(0) && m.elem(i, len(e.Tokens)) {
			e.Tokens[i] = "scribbled"
		}
	}
	for i := range e.Offsets {
		if m.field(2) && m.elem(i, len(e.Offsets)) {
			e.Offsets[i].Start, e.Offsets[i].End = 1<<20, -5
		}
	}
	e.Overflowing = append(e.Overflowing, e)
	if len(e.IDs)%2 == 1 {
		*e = encodings.Encoding{}
		return
	}
	// the caller adds a token of its own
	e.IDs = append(e.IDs, -5)
	e.TypeIDs = append(e.TypeIDs, -5)
	e.Tokens = append(e.Tokens, "own")
	e.Words = append(e.Words, -5)
	e.Offsets = append(e.Offsets, strutils.ByteOffsets{Start: -5, End: -5})
	e.SpecialTokensMask = append(e.SpecialTokensMask, 1)
	e.AttentionMask = append(e.AttentionMask, 1)
}

// Extend makes longer copies of the lists of an encoding, as far as they have
// room; the encoding itself stays as it is.
func Extend(e *encodings.Encoding) {
	_ = append(e.IDs, -5)
	_ = append(e.TypeIDs, -6)
	_ = append(e.Tokens, "own")
	_ = append(e.Words, -7)
	_ = append(e.Offsets, strutils.ByteOffsets{Start: -5, End: -5})
	_ = append(e.SpecialTokensMask, -8)
	_ = append(e.AttentionMask, -9)
	_ = append(e.Overflowing, e)
}

// ReadEncoding reads every list of an encoding.
//
//go:noinline
func ReadEncoding(e *encodings.Encoding) int {
	n := 0
	for i := range e.IDs {
		n += e.IDs[i]
	}
	for i := range e.Offsets {
		n += e.Offsets[i].Start + e.Offsets[i].End
	}
	for i := range e.Tokens {
		n += len(e.Tokens[i])
	}
	for i := range e.Words {
		n += e.Words[i]
	}
	for i := range e.TypeIDs {
		n += e.TypeIDs[i]
	}
	return n
}
