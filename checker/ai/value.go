package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Int is an integer of W bits; at least one of A and B is set.
type Int struct {
	W int
	S bool
	A *Aff
	B []Bit
}

type condOp int8

const (
	cGE   condOp = iota // a >= 0
	cEQ                 // a == 0
	cSym                // boolean symbol id
	cNil                // opaque/slice id is nil
	cBits               // bits equal the constant pattern
)

type Cond struct {
	op  condOp
	a   *Aff
	id  int
	b   []Bit
	k   []int
	neg bool
}

// Bool: K 0 false, 1 true, 2 depends on C.
type Bool struct {
	K int8
	C Cond
}

var (
	False = Bool{K: 0}
	True  = Bool{K: 1}
)

func B2(b bool) Bool {
	if b {
		return True
	}
	return False
}

// Term is an uninterpreted value, equal to another one with the same key.
type Term struct{ key string }

type segKind int8

const (
	sByte segKind = iota
	sRef          // bytes off.. of source src
	sZero
)

type Seg struct {
	k   segKind
	n   *Aff
	b   *Int
	src int
	off *Aff
}

// Bytes is the content of a byte array or string.
type Bytes struct {
	segs []Seg
	n    *Aff
}
type Str struct{ *Bytes }

type Struct struct{ f []Value }
type Arr struct {
	e []Value
	t types.Type // element type
}

type PE struct {
	i int  // field or constant index
	a *Aff // index into bytes
}
type Ptr struct {
	o    int
	path []PE
	as   types.Type // reinterpreted pointee (unsafe), nil otherwise
	fld  int        // 1+field of the reinterpreted pointee
}
type Nil struct{}
type Slice struct {
	nilID int // 0: not nil, -1: nil, >0: unknown, decided by nils[nilID]
	base  Ptr
	off   *Aff
	len   *Aff
	cap   *Aff
}
type Iface struct {
	t types.Type
	v Value
}

// Opaque is a value of an unknown implementation.
type Opaque struct {
	id     int
	name   string
	t      types.Type
	mayNil bool
}
type Func struct {
	fn    *ssa.Function
	binds []Value
	// bound native behaviour
	native string
}
type MapV struct {
	keys, vals []Value
	open       bool // may hold more
}
type ChanV struct {
	buf    []Value
	cap    *Aff
	closed bool
}
type Tuple []Value

// Uninit marks registers not available.
type Uninit struct{}

func ptrKey(p Ptr) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", p.o)
	for _, e := range p.path {
		if e.a != nil {
			fmt.Fprintf(&b, "[%s]", e.a.Key())
		} else {
			fmt.Fprintf(&b, ".%d", e.i)
		}
	}
	return b.String()
}

type spawn struct {
	fn   Value
	args []Value
	pos  string
}

// wop is a channel operation a goroutine waits for, forever as far as seen.
type wop struct {
	ch   Value
	send bool
	pos  token.Pos
}

// nbit is a bit pattern a value does not have.
type nbit struct {
	b []Bit
	k []int
}

type State struct {
	heap                 map[int]Value
	hshare               bool
	rng                  map[int]Iv
	rshare               bool
	facts                []*Aff
	neqs                 []*Aff
	bitv                 map[Bit]int
	bools                map[int]bool
	nils                 map[int]bool
	eqs                  map[string]bool // decided unknown equalities
	nbits                []nbit          // bit patterns values do not have
	locks                map[string]int  // mutexes held: 1 write, n>=10 read
	once                 map[string]bool
	spawns               []spawn
	waits                []wop
	notes                []string
	trace                *traceN
	bot                  bool // no execution reaches this
	panicking, recovered int
	unlocks              int // mutexes released, counted on demand
}

func newState() *State {
	return &State{heap: map[int]Value{}, rng: map[int]Iv{}, bitv: map[Bit]int{}, bools: map[int]bool{}, nils: map[int]bool{}, eqs: map[string]bool{}, locks: map[string]int{}, once: map[string]bool{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	s.hshare, s.rshare = true, true
	n := *s
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.neqs = s.neqs[:len(s.neqs):len(s.neqs)]
	n.nbits = s.nbits[:len(s.nbits):len(s.nbits)]
	n.spawns = s.spawns[:len(s.spawns):len(s.spawns)]
	n.waits = s.waits[:len(s.waits):len(s.waits)]
	n.notes = s.notes[:len(s.notes):len(s.notes)]
	n.bitv = cp(s.bitv)
	n.bools = cp(s.bools)
	n.nils = cp(s.nils)
	n.eqs = cp(s.eqs)
	n.locks = cp(s.locks)
	n.once = cp(s.once)
	return &n
}
func (s *State) set(o int, v Value) {
	if s.hshare {
		s.heap = cp(s.heap)
		s.hshare = false
	}
	s.heap[o] = v
}
func (s *State) setRng(id int, v Iv) {
	if s.rshare {
		s.rng = cp(s.rng)
		s.rshare = false
	}
	if v.Empty() {
		s.bot = true
	}
	s.rng[id] = v
}

func (in *Interp) symRange(s *State, id int) Iv {
	if v, ok := s.rng[id]; ok {
		return v
	}
	return in.syms[id].rng
}

func (in *Interp) affRange(s *State, a *Aff) Iv {
	r := Iv{a.c, a.c}
	for _, t := range a.t {
		v := in.symRange(s, t.s)
		if t.k > 0 {
			r.lo = r.lo.Add(v.lo.Mul(t.k))
			r.hi = r.hi.Add(v.hi.Mul(t.k))
		} else {
			r.lo = r.lo.Add(v.hi.Mul(t.k))
			r.hi = r.hi.Add(v.lo.Mul(t.k))
		}
	}
	return r
}

// entails reports whether a >= 0 follows.
func (in *Interp) entails(s *State, a *Aff) bool {
	in.entWork = 0
	return in.ent(s, a, 4)
}
func (in *Interp) ent(s *State, a *Aff, depth int) bool {
	if in.entWork++; in.entWork > 30000 {
		return false // not shown
	}
	if in.entWork%256 == 0 {
		in.tick()
	}
	r := in.affRange(s, a)
	if r.lo.Sign() >= 0 {
		return true
	}
	if depth == 0 || r.hi.Sign() < 0 && len(a.t) == 0 {
		return false
	}
	for _, f := range s.facts {
		var m int64
		for _, ft := range f.t {
			for _, at := range a.t {
				if at.s == ft.s && (at.k > 0) == (ft.k > 0) && at.k%ft.k == 0 {
					q := at.k / ft.k
					if q > 0 && (m == 0 || q < m) {
						m = q
					}
				}
			}
		}
		if m > 0 {
			if in.ent(s, a.AddK(f, -m), depth-1) {
				return true
			}
		}
	}
	// Symbols defined by a form.
	for _, t := range a.t {
		if d := in.syms[t.s].defAff; d != nil {
			if in.ent(s, a.AddK(ASym(t.s), -t.k).AddK(d, t.k), depth-1) {
				return true
			}
		}
	}
	return false
}

func (in *Interp) addFact(s *State, a *Aff) {
	// a >= 0
	if len(a.t) == 0 {
		if a.c.Sign() < 0 {
			s.bot = true
		}
		return
	}
	if len(a.t) == 1 {
		t := a.t[0]
		v := in.symRange(s, t.s)
		if t.k > 0 {
			// s >= ceil(-c/k)
			lo := a.c.DivFloor(t.k).Neg()
			if lo.Cmp(v.lo) > 0 {
				s.setRng(t.s, Iv{lo, v.hi})
			}
		} else {
			hi := a.c.DivFloor(-t.k)
			if hi.Cmp(v.hi) < 0 {
				s.setRng(t.s, Iv{v.lo, hi})
			}
		}
		in.propagate(s, t.s)
		return
	}
	for _, f := range s.facts {
		if f.Eq(a) {
			return
		}
	}
	s.facts = append(s.facts, a)
	// Tighten the ranges of its symbols.
	for _, t := range a.t {
		rest := a.AddK(ASym(t.s), -t.k)
		rr := in.affRange(s, rest)
		v := in.symRange(s, t.s)
		if t.k > 0 {
			// k*s >= -rest.hi
			lo := rr.hi.DivFloor(t.k).Neg()
			if lo.Cmp(v.lo) > 0 {
				s.setRng(t.s, Iv{lo, v.hi})
			}
		} else {
			hi := rr.hi.DivFloor(-t.k)
			if hi.Cmp(v.hi) < 0 {
				s.setRng(t.s, Iv{v.lo, hi})
			}
		}
	}
}

// propagate carries a refined range to the symbols a symbol is defined by.
func (in *Interp) propagate(s *State, id int) {
	sy := in.syms[id]
	r := in.symRange(s, id)
	if sy.defAff != nil {
		in.addFact(s, sy.defAff.Sub(ACI(r.lo)))
		in.addFact(s, ACI(r.hi).Sub(sy.defAff))
	}
	if sy.def != nil && r.lo.Cmp(r.hi) == 0 {
		for i, b := range sy.def {
			if b.s >= 0 {
				v := 0
				if r.lo.Bit(i) {
					v = 1
				}
				in.setBit(s, b, v)
			}
		}
	}
	if sy.def != nil && sy.signed && r.hi.Sign() < 0 {
		if b := sy.def[len(sy.def)-1]; b.s >= 0 {
			in.setBit(s, b, 1)
		}
	}
	if sy.def != nil && r.lo.Sign() >= 0 {
		// High bits above the range are zero.
		n := 0
		for n < 127 && pow2(n).Cmp(r.hi) <= 0 {
			n++
		}
		for i := n; i < len(sy.def); i++ {
			if b := sy.def[i]; b.s >= 0 {
				in.setBit(s, b, 0)
			}
		}
		// The high part of another value.
		if b := sy.def[0]; b.s >= 0 && !sy.signed && !in.syms[b.s].signed && b.b+len(sy.def) == in.syms[b.s].w {
			top := true
			for i, x := range sy.def {
				top = top && x == Bit{b.s, b.b + i}
			}
			if top {
				o := in.symRange(s, b.s)
				k := pow2(b.b)
				lo, hi := I{}, k.Sub(N(1))
				for i := range sy.def {
					if r.lo.Bit(i) {
						lo = lo.Add(pow2(b.b + i))
					}
					if r.hi.Bit(i) {
						hi = hi.Add(pow2(b.b + i))
					}
				}
				m := Iv{maxI(lo, o.lo), minI(hi, o.hi)}
				if m != o {
					s.setRng(b.s, m)
				}
			}
		}
		// Bits shared by every value of the range.
		for i := len(sy.def) - 1; i >= 0; i-- {
			if r.lo.Bit(i) != r.hi.Bit(i) {
				break
			}
			if b := sy.def[i]; b.s >= 0 {
				v := 0
				if r.lo.Bit(i) {
					v = 1
				}
				in.setBit(s, b, v)
			}
		}
	}
}

func (in *Interp) setBit(s *State, b Bit, v int) {
	b = in.normBit(s, b)
	if b.s < 0 {
		return
	}
	s.bitv[b] = v
	// The range the known bits leave.
	sy := in.syms[b.s]
	lo, hi := I{}, I{}
	for i := 0; i < sy.w; i++ {
		x := in.normBit(s, Bit{b.s, i})
		w := pow2(i)
		if sy.signed && i == sy.w-1 {
			w = w.Neg()
		}
		if x.s < 0 {
			if x.b == 1 {
				lo, hi = lo.Add(w), hi.Add(w)
			}
		} else if w.Sign() < 0 {
			lo = lo.Add(w)
		} else {
			hi = hi.Add(w)
		}
	}
	r := in.symRange(s, b.s)
	n := Iv{maxI(lo, r.lo), minI(hi, r.hi)}
	if n != r {
		s.setRng(b.s, n)
	}
}

// normBit canonicalises a bit under the ranges of a state.
func (in *Interp) normBit(s *State, b Bit) Bit {
	for n := 0; n < 20; n++ {
		if b.s < 0 {
			return b
		}
		if v, ok := s.bitv[b]; ok {
			return Bit{-1, v}
		}
		sy := in.syms[b.s]
		if sy.def != nil {
			if b.b < len(sy.def) {
				b = sy.def[b.b]
			} else if sy.signed {
				b = sy.def[len(sy.def)-1]
			} else {
				return Bit0
			}
			continue
		}
		if sy.defAff != nil {
			if id, ok := sy.defAff.Single(); ok {
				b = Bit{id, b.b}
				continue
			}
		}
		r := in.symRange(s, b.s)
		if b.b >= 100 { // the sign
			if r.lo.Sign() >= 0 {
				return Bit0
			}
			if r.hi.Sign() < 0 {
				return Bit1
			}
			return b
		}
		if r.lo.Cmp(r.hi) == 0 {
			if r.lo.Bit(b.b) {
				return Bit1
			}
			return Bit0
		}
		if r.lo.Sign() >= 0 {
			if pow2(b.b).Cmp(r.hi) > 0 {
				return Bit0
			}
			// common prefix
			same := true
			for i := b.b; i < 100; i++ {
				if r.lo.Bit(i) != r.hi.Bit(i) {
					same = false
					break
				}
			}
			if same {
				if r.lo.Bit(b.b) {
					return Bit1
				}
				return Bit0
			}
		} else {
			// within [-2^k, 2^k-1]: bits >= k are the sign
			k := 0
			for k < 126 && (pow2(k).Neg().Cmp(r.lo) > 0 || pow2(k).Sub(N(1)).Cmp(r.hi) < 0) {
				k++
			}
			if b.b >= k {
				if r.hi.Sign() < 0 {
					return Bit1
				}
				nb := Bit{b.s, 1000} // the sign bit, canonically
				if v, ok := s.bitv[nb]; ok {
					return Bit{-1, v}
				}
				return nb
			}
			if r.hi.Sign() < 0 {
				// common prefix of two negative bounds
				same := true
				for i := b.b; i < 100; i++ {
					if r.lo.Bit(i) != r.hi.Bit(i) {
						same = false
						break
					}
				}
				if same {
					if r.lo.Bit(b.b) {
						return Bit1
					}
					return Bit0
				}
			}
		}
		return b
	}
	return b
}

func (in *Interp) normBits(s *State, b []Bit) []Bit {
	r := make([]Bit, len(b))
	for i := range b {
		r[i] = in.normBit(s, b[i])
	}
	return r
}

func (in *Interp) newSym(name string, rng Iv, w int, signed bool) int {
	id := len(in.syms)
	in.syms = append(in.syms, &Sym{id: id, name: name, rng: rng, w: w, signed: signed})
	return id
}

func constBits(v I, w int) []Bit {
	r := make([]Bit, w)
	for i := range r {
		if v.Bit(i) {
			r[i] = Bit1
		} else {
			r[i] = Bit0
		}
	}
	return r
}

// bitsOf gives the bits of an integer.
func (in *Interp) bitsOf(s *State, x *Int) []Bit {
	if x.B != nil {
		return in.normBits(s, x.B)
	}
	if x.A.IsConst() {
		return constBits(x.A.c, x.W)
	}
	if id, ok := x.A.Single(); ok {
		r := make([]Bit, x.W)
		for i := range r {
			r[i] = in.normBit(s, Bit{id, i})
		}
		return r
	}
	if k, l, h := in.splitLow(s, x.A, x.W); k > 0 {
		r := append([]Bit{}, in.bitsOf(s, &Int{W: k, A: l})...)
		return append(r, in.bitsOf(s, &Int{W: x.W - k, S: x.S, A: h})...)
	}
	key := fmt.Sprintf("aff:%s", x.A.Key())
	id, ok := in.memo[key]
	if !ok {
		id = in.newSym("("+in.affStr(x.A)+")", typeRange(x.W, x.S), x.W, x.S)
		in.syms[id].defAff = x.A
		in.memo[key] = id
	}
	rr := in.affRange(s, x.A)
	cur := in.symRange(s, id)
	s.setRng(id, Iv{maxI(rr.lo, cur.lo), minI(rr.hi, cur.hi)})
	r := make([]Bit, x.W)
	for i := range r {
		// keep this symbol's own bits: it is not a plain rename
		r[i] = in.normBit(s, Bit{id, i})
	}
	return r
}

// splitLow writes a as l + 2^k*h with l within k bits, if it can be.
func (in *Interp) splitLow(s *State, a *Aff, w int) (int, *Aff, *Aff) {
	for k := 1; k < w && k < 62; k++ {
		m := int64(1) << k
		cl := a.c.Sub(a.c.DivFloor(m).Mul(m))
		l, h := ACI(cl), ACI(a.c.DivFloor(m))
		for _, t := range a.t {
			if t.k%m == 0 {
				h = h.AddK(ASym(t.s), t.k/m)
			} else {
				l = l.AddK(ASym(t.s), t.k)
			}
		}
		if h.IsConst() {
			break
		}
		if r := in.affRange(s, l); r.lo.Sign() >= 0 && r.hi.Cmp(pow2(k)) < 0 {
			return k, l, h
		}
	}
	return 0, nil, nil
}

// affOf gives an affine form of an integer.
func (in *Interp) affOf(s *State, x *Int) *Aff {
	if x.A != nil {
		return x.A
	}
	b := in.normBits(s, x.B)
	// constant?
	allc := true
	for _, y := range b {
		if y.s >= 0 {
			allc = false
			break
		}
	}
	if allc {
		c := I{}
		for i, y := range b {
			if y.b == 1 {
				if x.S && i == len(b)-1 {
					c = c.Sub(pow2(i))
				} else {
					c = c.Add(pow2(i))
				}
			}
		}
		return ACI(c)
	}
	// exactly a symbol?
	for _, y := range b {
		if y.s >= 0 {
			if in.sameBits(s, b, y.s, x.W) {
				r := in.symRange(s, y.s)
				if r.In(typeRange(x.W, x.S)) {
					sy := in.syms[y.s]
					if sy.defAff != nil {
						return sy.defAff
					}
					return ASym(y.s)
				}
			}
			break
		}
	}
	// a symbol and known bits above it?
	if top := b[len(b)-1]; top.s < 0 || !x.S {
		for _, y := range b {
			if y.s < 0 {
				continue
			}
			sy := in.syms[y.s]
			if sy.signed || sy.w > len(b) || sy.def != nil || !in.sameBits(s, b[:sy.w], y.s, sy.w) || in.symRange(s, y.s).lo.Sign() < 0 {
				break
			}
			c, known := I{}, true
			for i := sy.w; i < len(b); i++ {
				if b[i].s >= 0 {
					known = false
				} else if b[i].b == 1 {
					c = c.Add(pow2(i))
				}
			}
			if known {
				if x.S && top.b == 1 {
					c = c.Sub(pow2(len(b)))
				}
				a := ASym(y.s)
				if sy.defAff != nil {
					a = sy.defAff
				}
				return a.Add(ACI(c))
			}
			break
		}
	}
	// a multiple of a power of two, and known bits below it?
	if b[0].s < 0 {
		k, c := 0, I{}
		for b[k].s < 0 {
			if b[k].b == 1 {
				c = c.Add(pow2(k))
			}
			k++
		}
		if k < 62 {
			h := in.affOf(s, &Int{W: x.W - k, S: x.S, B: b[k:]})
			return h.Mul(1 << k).Add(ACI(c))
		}
	}
	// the same value in another width is the same symbol
	def := in.defBits(x.B)
	sg := x.S
	if k := len(def); def[k-1] == Bit0 {
		for k > 1 && def[k-1] == Bit0 {
			k--
		}
		def, sg = def[:k], false
	} else if sg {
		for k > 1 && def[k-2] == def[k-1] {
			k--
		}
		def = def[:k]
	}
	key := fmt.Sprintf("bits:%v:%s", sg, bitsKey(def))
	id, ok := in.memo[key]
	if !ok {
		// a value the state knows some bits of may be one defined before
		src := -1
		for _, y := range def {
			if y.s >= 0 {
				src = y.s
				break
			}
		}
		for _, c := range in.bySrc[src] {
			if sy := in.syms[c]; in.sameValue(s, sy.def, sy.signed, b, x.S) {
				id, ok = c, true
				break
			}
		}
		if !ok {
			id = in.newSym("bits", typeRange(len(def), sg), len(def), sg)
			in.syms[id].def = def
			in.memo[key] = id
			for _, y := range def {
				if y.s >= 0 {
					if l := in.bySrc[y.s]; len(l) == 0 || l[len(l)-1] != id {
						in.bySrc[y.s] = append(l, id)
					}
				}
			}
		}
	}
	// range from known bits
	lo, hi := I{}, I{}
	for i, y := range b {
		w := pow2(i)
		if x.S && i == len(b)-1 {
			w = w.Neg()
			if y.s < 0 {
				if y.b == 1 {
					lo, hi = lo.Add(w), hi.Add(w)
				}
			} else {
				lo = lo.Add(w)
			}
			continue
		}
		if y.s < 0 {
			if y.b == 1 {
				lo, hi = lo.Add(w), hi.Add(w)
			}
		} else {
			hi = hi.Add(w)
		}
	}
	// sign-extended values are smaller than their width suggests
	if x.S && len(b) > 1 {
		k := len(b) - 1
		for k > 0 && b[k-1] == b[k] {
			k--
		}
		if b[k].s >= 0 && k < len(b)-1 {
			lo, hi = maxI(lo, pow2(k).Neg()), minI(hi, pow2(k).Sub(N(1)))
		}
	}
	cur := in.symRange(s, id)
	s.setRng(id, Iv{maxI(lo, cur.lo), minI(hi, cur.hi)})
	return ASym(id)
}

// defBits replaces bits that are defined as others.
func (in *Interp) defBits(b []Bit) []Bit {
	r := make([]Bit, len(b))
	for i, x := range b {
		for n := 0; n < 20 && x.s >= 0; n++ {
			sy := in.syms[x.s]
			if sy.def == nil {
				if id, ok := sy.single(); ok {
					x.s = id
					continue
				}
				break
			}
			if x.b < len(sy.def) {
				x = sy.def[x.b]
			} else if sy.signed {
				x = sy.def[len(sy.def)-1]
			} else {
				x = Bit0
			}
		}
		r[i] = x
	}
	return r
}

func (sy *Sym) single() (int, bool) {
	if sy.defAff == nil {
		return 0, false
	}
	return sy.defAff.Single()
}

// sameValue reports whether two bit patterns, of any widths, stand for the
// same integer in this state.
func (in *Interp) sameValue(s *State, d []Bit, ds bool, b []Bit, bs bool) bool {
	at := func(b []Bit, sg bool, i int) Bit {
		switch {
		case i < len(b):
			return in.normBit(s, b[i])
		case sg:
			return in.normBit(s, b[len(b)-1])
		}
		return Bit0
	}
	n := len(d)
	if len(b) > n {
		n = len(b)
	}
	for i := 0; i <= n; i++ {
		if at(d, ds, i) != at(b, bs, i) {
			return false
		}
	}
	return true
}

// sameBits reports whether b are all the bits of symbol id.
func (in *Interp) sameBits(s *State, b []Bit, id, w int) bool {
	for i := range b {
		if b[i] != in.normBit(s, Bit{id, i}) {
			return false
		}
	}
	return true
}

func (in *Interp) intEq(s *State, x, y *Int) bool {
	if x.A != nil && y.A != nil {
		if x.A.Eq(y.A) {
			return true
		}
		d := x.A.Sub(y.A)
		if in.entails(s, d) && in.entails(s, d.Neg()) {
			return true
		}
	}
	if x.W == y.W {
		bx, by := in.bitsOf(s, x), in.bitsOf(s, y)
		same := true
		for i := range bx {
			if bx[i] != by[i] {
				same = false
				break
			}
		}
		if same {
			return true
		}
	}
	a, b := in.affOf(s, x), in.affOf(s, y)
	d := a.Sub(b)
	return in.entails(s, d) && in.entails(s, d.Neg())
}

func (in *Interp) affStr(a *Aff) string {
	var p []string
	for _, t := range a.t {
		n := in.syms[t.s].name + "#" + fmt.Sprint(t.s)
		switch t.k {
		case 1:
			p = append(p, n)
		default:
			p = append(p, fmt.Sprintf("%d*%s", t.k, n))
		}
	}
	if len(p) == 0 || a.c.Sign() != 0 {
		p = append(p, a.c.String())
	}
	return strings.Join(p, " + ")
}

func (in *Interp) Show(s *State, v Value) string {
	return in.show(s, v, 3)
}
func (in *Interp) show(s *State, v Value, d int) string {
	if d < 0 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Int:
		if v.A == nil {
			a := in.affOf(s, v)
			if a.IsConst() {
				return a.c.String()
			}
			b := in.normBits(s, v.B)
			var sb strings.Builder
			for i := len(b) - 1; i >= 0; i-- {
				if b[i].s < 0 {
					fmt.Fprint(&sb, b[i].b)
				} else {
					fmt.Fprintf(&sb, "(%s#%d.%d)", in.syms[b[i].s].name, b[i].s, b[i].b)
				}
			}
			return "bits " + sb.String()
		}
		return in.affStr(v.A) + in.affRange(s, v.A).String()
	case Bool:
		switch v.K {
		case 0:
			return "false"
		case 1:
			return "true"
		}
		return fmt.Sprintf("cond(op%d id%d neg%v)", v.C.op, v.C.id, v.C.neg)
	case Term:
		return v.key
	case Str:
		return "str" + in.showBytes(s, v.Bytes)
	case *Bytes:
		return "bytes" + in.showBytes(s, v)
	case *Struct:
		var p []string
		for _, x := range v.f {
			p = append(p, in.show(s, x, d-1))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *Arr:
		var p []string
		for _, x := range v.e {
			p = append(p, in.show(s, x, d-1))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case Ptr:
		return "&" + ptrKey(v)
	case Slice:
		if v.nilID < 0 {
			return "nil slice"
		}
		return fmt.Sprintf("slice(%s off %s len %s)", ptrKey(v.base), in.affStr(v.off), in.affStr(v.len))
	case Iface:
		return "(" + types.TypeString(v.t, nil) + ")" + in.show(s, v.v, d-1)
	case Opaque:
		return "?" + v.name + fmt.Sprint(v.id)
	case Func:
		if v.fn != nil {
			return v.fn.String()
		}
		return v.native
	case Tuple:
		var p []string
		for _, x := range v {
			p = append(p, in.show(s, x, d-1))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}
func (in *Interp) showBytes(s *State, b *Bytes) string {
	var p []string
	for _, g := range b.segs {
		switch g.k {
		case sByte:
			p = append(p, in.show(s, g.b, 1))
		case sRef:
			p = append(p, fmt.Sprintf("src%d[%s:+%s]", g.src, in.affStr(g.off), in.affStr(g.n)))
		case sZero:
			p = append(p, "0*"+in.affStr(g.n))
		}
	}
	return "<" + strings.Join(p, " ") + ">"
}

func sortedKeys[K ~int, V any](m map[K]V) []K {
	r := make([]K, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// narrow restricts the range of a symbol.
func (in *Interp) narrow(s *State, id int, v Iv) {
	r := in.symRange(s, id)
	n := Iv{maxI(r.lo, v.lo), minI(r.hi, v.hi)}
	if n != r {
		s.setRng(id, n)
	}
}
