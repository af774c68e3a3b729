// Package ai is an abstract interpreter over go/ssa.
//
// Numeric values live in a product of three domains: an affine form over
// symbols, a bit-provenance vector (which bit of which symbol each bit of the
// value is), and intervals on symbols, refined per abstract state, with a
// conjunction of affine inequalities.  Heap objects are field sensitive,
// byte buffers are sequences of segments with affine lengths.  Control flow
// is explored as a bounded powerset of abstract states that is merged at
// function exits and widened at loop heads.
package ai

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// I is a 128-bit signed integer, wide enough to never overflow here.
type I struct {
	hi int64
	lo uint64
}

func N(v int64) I {
	h := int64(0)
	if v < 0 {
		h = -1
	}
	return I{h, uint64(v)}
}
func NU(v uint64) I { return I{0, v} }
func (a I) Add(b I) I {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return I{a.hi + b.hi + int64(c), lo}
}
func (a I) Neg() I {
	lo, c := bits.Add64(^a.lo, 1, 0)
	return I{^a.hi + int64(c), lo}
}
func (a I) Sub(b I) I { return a.Add(b.Neg()) }
func (a I) Cmp(b I) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}
func (a I) Sign() int { return a.Cmp(I{}) }
func (a I) Mul(k int64) I {
	neg := false
	if k < 0 {
		neg = true
		k = -k
	}
	x := a
	if x.hi < 0 {
		neg = !neg
		x = x.Neg()
	}
	h, l := bits.Mul64(x.lo, uint64(k))
	r := I{int64(h + uint64(x.hi)*uint64(k)), l}
	if neg {
		r = r.Neg()
	}
	return r
}
func (a I) IsInt64() bool {
	return (a.hi == 0 && a.lo < 1<<63) || (a.hi == -1 && a.lo >= 1<<63)
}
func (a I) Int64() int64   { return int64(a.lo) }
func (a I) Uint64() uint64 { return a.lo }

// DivFloor divides by a positive k.
func (a I) DivFloor(k int64) I {
	if a.hi >= 0 {
		qh, r := bits.Div64(0, uint64(a.hi), uint64(k))
		ql, _ := bits.Div64(r, a.lo, uint64(k))
		return I{int64(qh), ql}
	}
	n := a.Neg() // positive; floor(-n/k) = -ceil(n/k)
	return n.Add(N(k - 1)).DivFloor(k).Neg()
}
func (a I) Bit(i int) bool {
	if i < 64 {
		return a.lo>>uint(i)&1 == 1
	}
	return a.hi>>uint(i-64)&1 == 1
}
func (a I) String() string {
	if a.IsInt64() {
		return strconv.FormatInt(int64(a.lo), 10)
	}
	if a.hi == 0 {
		return strconv.FormatUint(a.lo, 10)
	}
	return fmt.Sprintf("%d*2^64+%d", a.hi, a.lo)
}
func minI(a, b I) I {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxI(a, b I) I {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func pow2(k int) I {
	if k < 64 {
		return I{0, 1 << uint(k)}
	}
	return I{1 << uint(k-64), 0}
}

type Iv struct{ lo, hi I }

func typeRange(w int, signed bool) Iv {
	if signed {
		return Iv{pow2(w - 1).Neg(), pow2(w - 1).Sub(N(1))}
	}
	return Iv{N(0), pow2(w).Sub(N(1))}
}
func (v Iv) In(o Iv) bool   { return v.lo.Cmp(o.lo) >= 0 && v.hi.Cmp(o.hi) <= 0 }
func (v Iv) Join(o Iv) Iv   { return Iv{minI(v.lo, o.lo), maxI(v.hi, o.hi)} }
func (v Iv) Empty() bool    { return v.lo.Cmp(v.hi) > 0 }
func (v Iv) String() string { return "[" + v.lo.String() + "," + v.hi.String() + "]" }

// Sym is an unknown integer.
type Sym struct {
	id     int
	name   string
	rng    Iv // range by construction
	w      int
	signed bool
	def    []Bit // bits it is defined by, if any
	defAff *Aff  // form it is defined by, if any
	widen  bool
	src    int  // source it is a byte of, if any
	off    *Aff // and where
	free   bool // related to nothing else by construction
}

type aterm struct {
	s int
	k int64
}

// Aff is c + sum k*s.
type Aff struct {
	c I
	t []aterm
}

func AC(v int64) *Aff { return &Aff{c: N(v)} }
func ACI(v I) *Aff    { return &Aff{c: v} }
func ASym(s int) *Aff { return &Aff{t: []aterm{{s, 1}}} }

func (a *Aff) IsConst() bool { return len(a.t) == 0 }
func (a *Aff) ConstEq(v int64) bool {
	return len(a.t) == 0 && a.c.Cmp(N(v)) == 0
}
func (a *Aff) Single() (int, bool) {
	if len(a.t) == 1 && a.t[0].k == 1 && a.c.Sign() == 0 {
		return a.t[0].s, true
	}
	return 0, false
}
func (a *Aff) AddK(b *Aff, k int64) *Aff {
	r := &Aff{c: a.c.Add(b.c.Mul(k))}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].s < b.t[j].s):
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, aterm{b.t[j].s, b.t[j].k * k})
			j++
		default:
			if n := a.t[i].k + b.t[j].k*k; n != 0 {
				r.t = append(r.t, aterm{a.t[i].s, n})
			}
			i++
			j++
		}
	}
	return r
}
func (a *Aff) Add(b *Aff) *Aff { return a.AddK(b, 1) }
func (a *Aff) Sub(b *Aff) *Aff { return a.AddK(b, -1) }
func (a *Aff) AddC(v int64) *Aff {
	return &Aff{c: a.c.Add(N(v)), t: a.t}
}
func (a *Aff) Neg() *Aff { return AC(0).Sub(a) }
func (a *Aff) Mul(k int64) *Aff {
	if k == 0 {
		return AC(0)
	}
	r := &Aff{c: a.c.Mul(k)}
	for _, t := range a.t {
		r.t = append(r.t, aterm{t.s, t.k * k})
	}
	return r
}
func (a *Aff) Eq(b *Aff) bool {
	if a == b {
		return true
	}
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}
func (a *Aff) Key() string {
	var b strings.Builder
	b.WriteString(a.c.String())
	for _, t := range a.t {
		fmt.Fprintf(&b, "+%d*s%d", t.k, t.s)
	}
	return b.String()
}

// Subst replaces symbols.
func (a *Aff) Subst(m map[int]*Aff) *Aff {
	hit := false
	for _, t := range a.t {
		if _, ok := m[t.s]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a
	}
	r := &Aff{c: a.c}
	for _, t := range a.t {
		if b, ok := m[t.s]; ok {
			r = r.AddK(b, t.k)
		} else {
			r = r.AddK(ASym(t.s), t.k)
		}
	}
	return r
}

func sortTerms(t []aterm) { sort.Slice(t, func(i, j int) bool { return t[i].s < t[j].s }) }

// Bit is one bit of a value: a constant or bit b of symbol s.
type Bit struct {
	s int // -1 for a constant
	b int // index, or the constant
}

var (
	Bit0 = Bit{-1, 0}
	Bit1 = Bit{-1, 1}
)

func bitsKey(b []Bit) string {
	var s strings.Builder
	for _, x := range b {
		if x.s < 0 {
			s.WriteByte(byte('0' + x.b))
		} else {
			fmt.Fprintf(&s, "(%d.%d)", x.s, x.b)
		}
	}
	return s.String()
}

// divExact is a/k if every part of a is a multiple of k, nil otherwise.
func (a *Aff) divExact(k int64) *Aff {
	if k < 0 {
		a, k = a.Neg(), -k
	}
	q := a.c.DivFloor(k)
	if q.Mul(k).Cmp(a.c) != 0 {
		return nil
	}
	r := ACI(q)
	for _, t := range a.t {
		if t.k%k != 0 {
			return nil
		}
		r = r.AddK(ASym(t.s), t.k/k)
	}
	return r
}
