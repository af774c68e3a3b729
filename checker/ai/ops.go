package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MaxLen bounds the length of any single input string or slice.
var MaxLen = pow2(30)

// IntW is the number of bits of the types int, uint and uintptr.
var IntW = 64

// maxMake bounds the length of slices.
var maxMake = pow2(40)

// Use32 analyses for a machine of 32 bits. Inputs of it are shorter.
func Use32() {
	IntW = 32
	MaxLen = pow2(27)
	maxMake = pow2(31).Sub(N(1))
}

func basicInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int:
		return IntW, true, true
	case types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uintptr:
		return IntW, false, true
	case types.Uint64:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func mkInt(t types.Type, a *Aff) *Int {
	w, s, ok := basicInfo(t)
	if !ok {
		w, s = 64, true
	}
	return &Int{W: w, S: s, A: a}
}

var tInt = types.Typ[types.Int]

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func (in *Interp) zero(t types.Type) Value {
	if isTime(t) {
		return Term{"time:zero"}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, s, ok := basicInfo(t); ok {
			return &Int{W: w, S: s, A: AC(0)}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str{&Bytes{n: AC(0)}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return Term{"const:0"}
		}
		return Nil{}
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			n := AC(u.Len())
			return &Bytes{n: n, segs: []Seg{{k: sZero, n: n}}}
		}
		a := &Arr{e: make([]Value, u.Len()), t: u.Elem()}
		for i := range a.e {
			a.e[i] = in.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return Slice{nilID: -1, off: AC(0), len: AC(0), cap: AC(0)}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = in.zero(u.At(i).Type())
		}
		return r
	}
	return Nil{}
}

func (in *Interp) freshInt(t types.Type, name string) *Int {
	w, s, _ := basicInfo(t)
	id := in.newSym(name, typeRange(w, s), w, s)
	in.syms[id].free = true
	return &Int{W: w, S: s, A: ASym(id)}
}

func (in *Interp) freshLen(name string) *Aff {
	id := in.newSym("len("+name+")", Iv{N(0), MaxLen}, IntW, true)
	in.syms[id].free = true
	return ASym(id)
}

func (in *Interp) freshBool() Bool {
	in.nbool++
	return Bool{K: 2, C: Cond{op: cSym, id: in.nbool}}
}

// localBool reports whether a boolean means nothing outside the activation.
func (a *activation) localBool(id int) bool { return id > a.entryBool && !a.in.keyedBool[id] }

func (in *Interp) memoBool(key string) Bool {
	id, ok := in.memo["bool:"+key]
	if !ok {
		in.nbool++
		id = in.nbool
		in.memo["bool:"+key] = id
		in.keyedBool[id] = true
	}
	return Bool{K: 2, C: Cond{op: cSym, id: id}}
}

func (in *Interp) havoc(s *State, t types.Type, name string) Value {
	if isTime(t) {
		in.nopq++
		return Term{fmt.Sprintf("time:any%d", in.nopq)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := basicInfo(t); ok {
			return in.freshInt(t, name)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.freshBool()
		case u.Info()&types.IsString != 0:
			return Str{in.refBytes(name, in.freshLen(name))}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			in.nopq++
			return Term{fmt.Sprintf("float:%s%d", name, in.nopq)}
		}
		in.nopq++
		return Opaque{id: in.nopq, name: name, t: t, mayNil: true}
	case *types.Struct:
		v := &Struct{f: make([]Value, u.NumFields())}
		for i := range v.f {
			v.f[i] = in.havoc(s, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return v
	case *types.Array:
		if isByte(u.Elem()) {
			return in.refBytes(name, AC(u.Len()))
		}
		a := &Arr{e: make([]Value, u.Len()), t: u.Elem()}
		for i := range a.e {
			a.e[i] = in.havoc(s, u.Elem(), name)
		}
		return a
	case *types.Slice:
		n := in.freshLen(name)
		var c Value
		if isByte(u.Elem()) {
			c = in.refBytes(name, n)
		} else {
			c = &SymArr{n: n, t: u.Elem()}
		}
		o := in.alloc(s, c)
		in.nopq++
		return Slice{nilID: in.nopq, base: Ptr{o: o}, off: AC(0), len: n, cap: n}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = in.havoc(s, u.At(i).Type(), name)
		}
		return r
	case *types.Map:
		o := in.alloc(s, &MapV{open: true})
		return Ptr{o: o}
	}
	in.nopq++
	return Opaque{id: in.nopq, name: name, t: t, mayNil: true}
}

func (in *Interp) alloc(s *State, v Value) int {
	in.nobj++
	s.set(in.nobj, v)
	return in.nobj
}

func (in *Interp) constVal(s *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	if w, sg, ok := basicInfo(t); ok {
		v := constant.ToInt(c.Value)
		if i, ex := constant.Int64Val(v); ex {
			return &Int{W: w, S: sg, A: AC(i)}
		}
		u, _ := constant.Uint64Val(v)
		return &Int{W: w, S: sg, A: ACI(NU(u))}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B2(constant.BoolVal(c.Value))
	case constant.String:
		return Str{in.constBytes(constant.StringVal(c.Value))}
	}
	return Term{"const:" + c.Value.ExactString()}
}

func (in *Interp) mkBits(w int, sg bool, b []Bit) *Int {
	for _, x := range b {
		if x.s >= 0 {
			return &Int{W: w, S: sg, B: b}
		}
	}
	c := I{}
	for i, y := range b {
		if y.b == 1 {
			if sg && i == w-1 {
				c = c.Sub(pow2(i))
			} else {
				c = c.Add(pow2(i))
			}
		}
	}
	return &Int{W: w, S: sg, A: ACI(c)}
}

func wrap(v I, w int, s bool) I {
	b := constBits(v, w)
	c := I{}
	for i, y := range b {
		if y.b == 1 {
			if s && i == w-1 {
				c = c.Sub(pow2(i))
			} else {
				c = c.Add(pow2(i))
			}
		}
	}
	return c
}

func (in *Interp) fit(s *State, w int, sg bool, a *Aff, what string) *Int {
	if in.fits(s, a, w, sg) {
		return &Int{W: w, S: sg, A: a}
	}
	if a.IsConst() {
		return &Int{W: w, S: sg, A: ACI(wrap(a.c, w, sg))}
	}
	// Always off by the same multiple of the modulus?
	r := in.affRange(s, a)
	for _, k := range []int64{1, -1} {
		d := Iv{r.lo.Add(pow2(w).Mul(k)), r.hi.Add(pow2(w).Mul(k))}
		if d.In(typeRange(w, sg)) {
			return &Int{W: w, S: sg, A: a.Add(ACI(pow2(w).Mul(k)))}
		}
	}
	return in.memoInt(w, sg, "wrap:"+a.Key())
}

func (in *Interp) fits(s *State, a *Aff, w int, sg bool) bool {
	tr := typeRange(w, sg)
	r := in.affRange(s, a)
	if r.In(tr) {
		return true
	}
	if r.lo.Cmp(tr.lo) < 0 && !in.entails(s, a.Sub(ACI(tr.lo))) {
		return false
	}
	if r.hi.Cmp(tr.hi) > 0 && !in.entails(s, ACI(tr.hi).Sub(a)) {
		return false
	}
	return true
}

// fitsBounds is fits for a value whose range is not the one of its bits.
func (in *Interp) fitsBounds(s *State, x *Int, w int, sg bool) bool {
	b := in.bitsOf(s, x)
	return b[w-1] != Bit0 && in.fits(s, in.affOf(s, x), w, sg)
}

func (in *Interp) memoInt(w int, sg bool, key string) *Int {
	key = fmt.Sprintf("int%d%v:%s", w, sg, key)
	id, ok := in.memo[key]
	if !ok {
		id = in.newSym(key, typeRange(w, sg), w, sg)
		in.memo[key] = id
	}
	return &Int{W: w, S: sg, A: ASym(id)}
}

func log2(v I) int {
	for k := 0; k < 64; k++ {
		if pow2(k).Cmp(v) == 0 {
			return k
		}
	}
	return -1
}

func (in *Interp) bitOp(op token.Token, x, y Bit) Bit {
	switch op {
	case token.AND:
		if x == Bit0 || y == Bit0 {
			return Bit0
		}
		if x == Bit1 || x == y {
			return y
		}
		if y == Bit1 {
			return x
		}
	case token.OR:
		if x == Bit1 || y == Bit1 {
			return Bit1
		}
		if x == Bit0 || x == y {
			return y
		}
		if y == Bit0 {
			return x
		}
	case token.XOR:
		if x == y {
			return Bit0
		}
		if x == Bit0 {
			return y
		}
		if y == Bit0 {
			return x
		}
		if x.s < 0 && y.s < 0 {
			return Bit1
		}
		// not(not(b)) = b
		if x == Bit1 {
			x, y = y, x
		}
		if y == Bit1 && x.s >= 0 {
			if o, ok := in.notOf[x]; ok {
				return o
			}
		}
	}
	if op != token.XOR || y != Bit1 {
		if x.s > y.s || (x.s == y.s && x.b > y.b) {
			x, y = y, x
		}
	}
	key := fmt.Sprintf("bit%s:%v:%v", op, x, y)
	id, ok := in.memo[key]
	if !ok {
		id = in.newSym("bit", typeRange(1, false), 1, false)
		in.memo[key] = id
		if op == token.XOR && y == Bit1 {
			in.notOf[Bit{id, 0}] = x
			in.notOf[x] = Bit{id, 0}
		}
	}
	return Bit{id, 0}
}

// assembles reports whether a consists of bytes at different places.
func (in *Interp) assembles(a *Aff) bool {
	if a.c != (I{}) || len(a.t) == 0 {
		return false
	}
	for _, t := range a.t {
		y := in.syms[t.s]
		if y.signed || y.w > 8 && (y.def == nil || y.w%8 != 0) || t.k < 1 || t.k != 1 && log2(N(t.k))%8 != 0 {
			return false
		}
	}
	return true
}

func (in *Interp) intOp(s *State, op token.Token, x, y *Int) *Int {
	w, sg := x.W, x.S
	switch op {
	case token.ADD, token.SUB:
		k := int64(1)
		if op == token.SUB {
			k = -1
		}
		var r *Int
		if op == token.ADD && (x.B != nil || y.B != nil) {
			bx, by := in.bitsOf(s, x), in.bitsOf(s, y)
			ok := true
			nb := make([]Bit, w)
			for i := range bx {
				switch {
				case bx[i] == Bit0:
					nb[i] = by[i]
				case by[i] == Bit0:
					nb[i] = bx[i]
				default:
					ok = false
				}
			}
			if ok {
				r = in.mkBits(w, sg, nb)
				if r.A != nil {
					return r
				}
				if a := in.affOf(s, x).Add(in.affOf(s, y)); !in.assembles(a) {
					r.A = a
				}
				return r
			}
		}
		if op == token.ADD && x.B == nil && y.B == nil && in.assembles(x.A) && in.assembles(y.A) {
			// bytes put side by side
			if bx, by, ok := in.bitsOf(s, x), in.bitsOf(s, y), true; ok {
				nb := make([]Bit, w)
				for i := range bx {
					switch {
					case bx[i] == Bit0:
						nb[i] = by[i]
					case by[i] == Bit0:
						nb[i] = bx[i]
					default:
						ok = false
					}
				}
				if ok {
					return in.mkBits(w, sg, nb)
				}
			}
		}
		return in.fit(s, w, sg, in.affOf(s, x).AddK(in.affOf(s, y), k), "")
	case token.MUL:
		a, b := in.affOf(s, x), in.affOf(s, y)
		if a.IsConst() {
			a, b = b, a
			x, y = y, x
		}
		if b.IsConst() && b.c.IsInt64() {
			m := a.Mul(b.c.Int64())
			if in.fits(s, m, w, sg) {
				return &Int{W: w, S: sg, A: m}
			}
			if k := log2(b.c); k >= 0 {
				return in.intOp(s, token.SHL, x, &Int{W: IntW, A: AC(int64(k))})
			}
			return in.fit(s, w, sg, m, "mul")
		}
		ra, rb := in.affRange(s, a), in.affRange(s, b)
		r := in.memoInt(w, sg, "mul:"+a.Key()+":"+b.Key())
		if ra.lo.Sign() >= 0 && rb.lo.Sign() >= 0 && ra.hi.hi == 0 && rb.hi.hi == 0 {
			hi := mulU(ra.hi.lo, rb.hi.lo)
			if hi.hi >= 0 && hi.Cmp(typeRange(w, sg).hi) <= 0 {
				id, _ := r.A.Single()
				in.narrow(s, id, Iv{N(0), hi})
			}
		}
		return r
	case token.QUO, token.REM:
		a, b := in.affOf(s, x), in.affOf(s, y)
		if a.IsConst() && b.IsConst() && a.c.IsInt64() && b.c.IsInt64() && b.c.Sign() != 0 {
			p, q := a.c.Int64(), b.c.Int64()
			if op == token.QUO {
				return &Int{W: w, S: sg, A: AC(p / q)}
			}
			return &Int{W: w, S: sg, A: AC(p % q)}
		}
		if b.IsConst() && b.c.Sign() > 0 && b.c.IsInt64() && len(a.t) > 0 && b.c.Cmp(N(1)) > 0 {
			if d := a.divExact(b.c.Int64()); d != nil {
				if op == token.QUO {
					return &Int{W: w, S: sg, A: d}
				}
				return &Int{W: w, S: sg, A: AC(0)}
			}
		}
		ra := in.affRange(s, a)
		if b.IsConst() && b.c.Sign() > 0 && b.c.IsInt64() && ra.lo.Sign() >= 0 {
			c := b.c.Int64()
			if k := log2(b.c); k >= 0 && x.B != nil {
				if op == token.QUO {
					return in.intOp(s, token.SHR, x, &Int{W: IntW, A: AC(int64(k))})
				}
				return in.intOp(s, token.AND, x, &Int{W: w, S: sg, A: AC(c - 1)})
			}
			q := in.memoInt(w, sg, fmt.Sprintf("quo:%s/%d", a.Key(), c))
			id, _ := q.A.Single()
			cur := in.symRange(s, id)
			s.setRng(id, Iv{maxI(cur.lo, N(0)), minI(cur.hi, ra.hi.DivFloor(c))})
			in.addFact(s, a.AddK(q.A, -c))
			in.addFact(s, q.A.Mul(c).AddC(c-1).Sub(a))
			if op == token.QUO {
				return q
			}
			return &Int{W: w, S: sg, A: a.AddK(q.A, -c)}
		}
		if b.IsConst() && b.c.Sign() > 0 && b.c.IsInt64() && ra.hi.Sign() <= 0 && in.fits(s, a.Neg(), w, sg) {
			// towards zero
			q := in.intOp(s, op, &Int{W: w, S: sg, A: a.Neg()}, &Int{W: w, S: sg, A: b})
			return &Int{W: w, S: sg, A: in.affOf(s, q).Neg()}
		}
		r := in.memoInt(w, sg, op.String()+a.Key()+":"+b.Key())
		rb := in.affRange(s, b)
		if ra.lo.Sign() >= 0 && rb.lo.Sign() >= 0 {
			id, _ := r.A.Single()
			hi := ra.hi
			if op == token.REM {
				hi = minI(hi, rb.hi.Sub(N(1)))
				in.addFact(s, b.Sub(r.A).AddC(-1))
			}
			in.narrow(s, id, Iv{N(0), maxI(hi, N(0))})
			in.addFact(s, a.Sub(r.A))
		}
		return r
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		bx, by := in.bitsOf(s, x), in.bitsOf(s, y)
		nb := make([]Bit, w)
		for i := range nb {
			b := by[i]
			o := op
			if op == token.AND_NOT {
				b = in.bitOp(token.XOR, b, Bit1)
				o = token.AND
			}
			nb[i] = in.normBit(s, in.bitOp(o, bx[i], b))
		}
		r := in.mkBits(w, sg, nb)
		// A mask that changes nothing.
		if r.A == nil && x.A != nil && op == token.AND {
			same := true
			for i := range nb {
				if nb[i] != bx[i] {
					same = false
				}
			}
			if same {
				r.A = x.A
			}
		}
		return r
	case token.SHL, token.SHR:
		ya := in.affOf(s, y)
		yr := in.affRange(s, ya)
		if yr.lo.Cmp(yr.hi) != 0 {
			return in.memoInt(w, sg, op.String()+in.affOf(s, x).Key()+":"+ya.Key())
		}
		k := 1000
		if yr.lo.IsInt64() && yr.lo.Int64() < 1000 {
			k = int(yr.lo.Int64())
		}
		bx := in.bitsOf(s, x)
		nb := make([]Bit, w)
		for i := range nb {
			if op == token.SHL {
				if i >= k {
					nb[i] = bx[i-k]
				} else {
					nb[i] = Bit0
				}
			} else if i+k < w {
				nb[i] = bx[i+k]
			} else if sg {
				nb[i] = bx[w-1]
			} else {
				nb[i] = Bit0
			}
		}
		r := in.mkBits(w, sg, nb)
		if r.A == nil && op == token.SHL && k < 62 {
			m := in.affOf(s, x).Mul(1 << uint(k))
			if in.fits(s, m, w, sg) {
				r.A = m
			}
		}
		return r
	}
	panic("intOp " + op.String())
}

func mulU(a, b uint64) I {
	if a == 0 || b == 0 {
		return I{}
	}
	if a > math.MaxInt64 || b > math.MaxInt64 {
		return I{math.MaxInt64, 0}
	}
	return NU(a).Mul(int64(b))
}

func (in *Interp) convInt(s *State, x *Int, w int, sg bool) *Int {
	if x.W == w && x.S == sg {
		return x
	}
	r := &Int{W: w, S: sg}
	if x.A != nil && in.fits(s, x.A, w, sg) {
		r.A = x.A
	} else if x.A == nil && w < x.W {
		if a := in.affOf(s, x); in.fits(s, a, w, sg) {
			r.A = a
			return r
		}
	}
	if x.B != nil || r.A == nil {
		bx := in.bitsOf(s, x)
		nb := make([]Bit, w)
		for i := range nb {
			switch {
			case i < x.W:
				nb[i] = bx[i]
			case x.S:
				nb[i] = bx[x.W-1]
			default:
				nb[i] = Bit0
			}
		}
		m := in.mkBits(w, sg, nb)
		if m.A != nil {
			r.A = m.A
		} else {
			r.B = m.B
		}
	}
	return r
}

// plain reports whether the bits of x are those of one symbol that can be
// told apart by equations.
func (in *Interp) plain(s *State, x *Int) bool {
	b := in.normBits(s, x.B)
	for _, y := range b {
		if y.s >= 0 {
			return in.syms[y.s].def == nil && in.sameBits(s, b, y.s, x.W) && in.symRange(s, y.s).In(typeRange(x.W, x.S))
		}
	}
	return false
}

// compare builds the condition x op y.
func (in *Interp) compare(s *State, op token.Token, x, y *Int) Bool {
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		a, b := x, y
		if b.B != nil {
			a, b = b, a
		}
		if a.B != nil {
			bb := in.bitsOf(s, b)
			allc := true
			k := make([]int, len(bb))
			for i, z := range bb {
				if z.s >= 0 {
					allc = false
					break
				}
				k[i] = z.b
			}
			if allc && in.plain(s, a) {
				return in.settle(s, Bool{K: 2, C: Cond{op: cEQ, a: in.affOf(s, x).Sub(in.affOf(s, y)), neg: neg}})
			}
			if allc {
				return in.settle(s, Bool{K: 2, C: Cond{op: cBits, b: a.B, k: k, neg: neg}})
			}
			if in.intEq(s, x, y) {
				return B2(!neg)
			}
		}
		if px, ok := in.ptrOfInt(x); ok {
			if py, ok := in.ptrOfInt(y); ok {
				return B2((ptrKey(px) == ptrKey(py)) != neg)
			}
		}
		return in.settle(s, Bool{K: 2, C: Cond{op: cEQ, a: in.affOf(s, x).Sub(in.affOf(s, y)), neg: neg}})
	}
	a, b := in.affOf(s, x), in.affOf(s, y)
	var f *Aff
	switch op {
	case token.LSS:
		f = b.Sub(a).AddC(-1)
	case token.LEQ:
		f = b.Sub(a)
	case token.GTR:
		f = a.Sub(b).AddC(-1)
	case token.GEQ:
		f = a.Sub(b)
	}
	return in.settle(s, Bool{K: 2, C: Cond{op: cGE, a: f}})
}

func not(b Bool) Bool {
	switch b.K {
	case 0:
		return True
	case 1:
		return False
	}
	b.C.neg = !b.C.neg
	return b
}

// sameCond reports whether two conditions are the same but for negation.
func (in *Interp) sameCond(s *State, a, b Cond) bool {
	if a.op != b.op {
		return false
	}
	switch a.op {
	case cSym, cNil:
		return a.id == b.id
	case cGE:
		return in.affEq(s, a.a, b.a)
	case cEQ:
		return in.affEq(s, a.a, b.a) || in.affEq(s, a.a, b.a.Neg())
	case cBits:
		x, y := in.normBits(s, a.b), in.normBits(s, b.b)
		if len(x) != len(y) || len(a.k) != len(b.k) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		for i := range a.k {
			if a.k[i] != b.k[i] {
				return false
			}
		}
		return true
	}
	return false
}

func (in *Interp) settle(s *State, b Bool) Bool {
	if b.K < 2 {
		return b
	}
	t, f := in.can(s, b)
	if t && f {
		return b
	}
	return B2(t)
}

// can reports which outcomes are possible.
func (in *Interp) can(s *State, b Bool) (t, f bool) {
	switch b.K {
	case 0:
		return false, true
	case 1:
		return true, false
	}
	t, f = in.canCond(s, b.C)
	if b.C.neg {
		t, f = f, t
	}
	return
}

func (in *Interp) canCond(s *State, c Cond) (t, f bool) {
	switch c.op {
	case cGE:
		if in.entails(s, c.a) {
			return true, false
		}
		if in.entails(s, c.a.Neg().AddC(-1)) {
			return false, true
		}
	case cEQ:
		lo, hi := in.entails(s, c.a), in.entails(s, c.a.Neg())
		if lo && hi {
			return true, false
		}
		if in.entails(s, c.a.AddC(-1)) || in.entails(s, c.a.Neg().AddC(-1)) {
			return false, true
		}
		for _, n := range s.neqs {
			if n.Eq(c.a) || n.Eq(c.a.Neg()) {
				return false, true
			}
		}
	case cSym:
		if v, ok := s.bools[c.id]; ok {
			return v, !v
		}
	case cNil:
		if v, ok := s.nils[c.id]; ok {
			return v, !v
		}
	case cBits:
		b := in.normBits(s, c.b)
		all := true
		for i := range b {
			if b[i].s >= 0 {
				all = false
			} else if b[i].b != c.k[i] {
				return false, true
			}
		}
		if all {
			return true, false
		}
		for _, n := range s.nbits {
			if in.excluded(s, n, b, c.k) {
				return false, true
			}
		}
	}
	return true, true
}

// excluded reports whether bits b being k would make the pattern n.
func (in *Interp) excluded(s *State, n nbit, b []Bit, k []int) bool {
	for i, x := range in.normBits(s, n.b) {
		if x.s < 0 {
			if x.b != n.k[i] {
				return false
			}
			continue
		}
		hit := false
		for j := range b {
			if b[j] == x && k[j] == n.k[i] {
				hit = true
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// assume refines a state; the outcome must be possible.
func (in *Interp) assume(s *State, b Bool, v bool) {
	in.assume1(s, b, v)
	// a pattern excluded before may be all that is left
	for _, n := range s.nbits {
		hit := true
		for i, x := range n.b {
			if in.normBit(s, x) != (Bit{-1, n.k[i]}) {
				hit = false
				break
			}
		}
		if hit {
			s.bot = true
			return
		}
	}
}

// assumeBytes records what the equality of two contents says about their
// lengths and, if they are short, their bytes.
func (in *Interp) assumeBytes(s *State, a, b *Bytes) {
	in.addFact(s, a.n.Sub(b.n))
	in.addFact(s, b.n.Sub(a.n))
	n := a.n
	if !n.IsConst() {
		n = b.n
	}
	if s.bot || !n.IsConst() || n.c.Cmp(N(64)) > 0 {
		return
	}
	for i := int64(0); i < n.c.Int64(); i++ {
		in.assume1(s, in.compare(s, token.EQL, in.readByte(s, a, AC(i)), in.readByte(s, b, AC(i))), true)
	}
}

func (in *Interp) assume1(s *State, b Bool, v bool) {
	if b.K < 2 {
		return
	}
	c := b.C
	if c.neg {
		v = !v
	}
	switch c.op {
	case cGE:
		if v {
			in.addFact(s, c.a)
		} else {
			in.addFact(s, c.a.Neg().AddC(-1))
		}
	case cEQ:
		if v {
			in.addFact(s, c.a)
			in.addFact(s, c.a.Neg())
		} else {
			r := in.affRange(s, c.a)
			if r.lo.Sign() == 0 || in.entails(s, c.a) {
				in.addFact(s, c.a.AddC(-1))
			} else if r.hi.Sign() == 0 || in.entails(s, c.a.Neg()) {
				in.addFact(s, c.a.Neg().AddC(-1))
			} else {
				s.neqs = append(s.neqs, c.a)
			}
		}
	case cSym:
		s.bools[c.id] = v
		if e, ok := in.boolEq[c.id]; ok && v {
			in.assumeBytes(s, e[0], e[1])
		}
	case cNil:
		s.nils[c.id] = v
	case cBits:
		b := in.normBits(s, c.b)
		if v {
			for i := range b {
				in.setBit(s, b[i], c.k[i])
			}
		} else {
			n, at := 0, 0
			for i := range b {
				if b[i].s >= 0 {
					n++
					at = i
				}
			}
			if n == 1 {
				in.setBit(s, b[at], 1-c.k[at])
			} else {
				s.nbits = append(s.nbits, nbit{b, c.k})
			}
			// values of a symbol: exclude the constant
			xi := &Int{W: len(b), B: b}
			a := in.affOf(s, xi)
			k := I{}
			for i := range c.k {
				if c.k[i] == 1 {
					k = k.Add(pow2(i))
				}
			}
			if !a.IsConst() {
				in.assume1(s, Bool{K: 2, C: Cond{op: cEQ, a: a.Sub(ACI(k))}}, false)
			}
		}
	}
}

// equal builds the condition that two values of static type t are equal.
func (in *Interp) equal(s *State, x, y Value) Bool {
	switch a := x.(type) {
	case *Int:
		if b, ok := y.(*Int); ok {
			return in.compare(s, token.EQL, a, b)
		}
	case Bool:
		b, ok := y.(Bool)
		if !ok {
			break
		}
		if a.K < 2 {
			a, b = b, a
		}
		switch b.K {
		case 1:
			return in.settle(s, a)
		case 0:
			return in.settle(s, not(a))
		}
		if a.C.op == b.C.op && a.C.op == cSym && a.C.id == b.C.id {
			return B2(a.C.neg == b.C.neg)
		}
		if in.sameCond(s, a.C, b.C) {
			return B2(a.C.neg == b.C.neg)
		}
		return in.freshBool()
	case Str:
		if b, ok := y.(Str); ok {
			switch in.cmpBytes(s, a.Bytes, b.Bytes) {
			case 1:
				return True
			case 0:
				return False
			}
			// empty string tests
			if a.n.ConstEq(0) || b.n.ConstEq(0) {
				return in.settle(s, Bool{K: 2, C: Cond{op: cEQ, a: a.n.Sub(b.n)}})
			}
			ka, kb := in.showBytes(s, a.Bytes), in.showBytes(s, b.Bytes)
			if ka > kb {
				ka, kb = kb, ka
			}
			r := in.memoBool("streq:" + ka + ":" + kb)
			in.boolEq[r.C.id] = [2]*Bytes{a.Bytes, b.Bytes}
			return in.settle(s, r)
		}
	case *Bytes:
		if b, ok := y.(*Bytes); ok {
			switch in.cmpBytes(s, a, b) {
			case 1:
				return True
			case 0:
				return False
			}
			r := in.memoBool("byteseq:" + in.showBytes(s, a) + ":" + in.showBytes(s, b))
			in.boolEq[r.C.id] = [2]*Bytes{a, b}
			return in.settle(s, r)
		}
	case Nil:
		switch b := y.(type) {
		case Nil:
			return True
		case Ptr, Func, Iface:
			return False
		case Opaque, Slice:
			return in.equal(s, b, x)
		}
	case Ptr:
		switch b := y.(type) {
		case Nil:
			return False
		case Ptr:
			return B2(ptrKey(a) == ptrKey(b))
		case Opaque:
			return in.equal(s, y, x)
		}
	case Func:
		return B2(false)
	case Slice:
		if b, ok := y.(Slice); ok && b.nilID == -1 || func() bool { _, n := y.(Nil); return n }() {
			_ = b
			switch {
			case a.nilID == 0:
				return False
			case a.nilID < 0:
				return True
			}
			return in.settle(s, Bool{K: 2, C: Cond{op: cNil, id: a.nilID}})
		}
		if a.nilID == -1 {
			return in.equal(s, y, x)
		}
	case Iface:
		switch b := y.(type) {
		case Nil:
			return False
		case Iface:
			if !types.Identical(a.t, b.t) {
				return False
			}
			return in.equal(s, a.v, b.v)
		case Opaque:
			return in.equal(s, y, x)
		}
	case Opaque:
		switch b := y.(type) {
		case Nil:
			if !a.mayNil {
				return False
			}
			return in.settle(s, Bool{K: 2, C: Cond{op: cNil, id: a.id}})
		case Opaque:
			if a.id == b.id {
				return True
			}
			k1, k2 := a.id, b.id
			if k1 > k2 {
				k1, k2 = k2, k1
			}
			gf := func(n string) bool { return strings.HasPrefix(n, "global ") || strings.HasPrefix(n, "fresh ") }
			if gf(a.name) && gf(b.name) {
				return False
			}
			return in.settle(s, in.memoBool(fmt.Sprintf("opq:%d:%d", k1, k2)))
		default:
			if strings.HasPrefix(a.name, "global ") || strings.HasPrefix(a.name, "fresh ") {
				return False
			}
			return in.settle(s, in.memoBool(fmt.Sprintf("opq:%d:%s", a.id, in.show(s, b, 4))))
		}
	case *Struct:
		if b, ok := y.(*Struct); ok {
			return in.equalAll(s, a.f, b.f)
		}
	case *Arr:
		if b, ok := y.(*Arr); ok {
			return in.equalAll(s, a.e, b.e)
		}
	case Term:
		if b, ok := y.(Term); ok && a.key == b.key {
			return True
		} else if ok {
			return in.settle(s, in.memoBool("term:"+a.key+":"+b.key))
		}
	}
	return in.freshBool()
}

func (in *Interp) equalAll(s *State, x, y []Value) Bool {
	var und []Bool
	for i := range x {
		b := in.equal(s, x[i], y[i])
		switch b.K {
		case 0:
			return False
		case 2:
			und = append(und, b)
		}
	}
	if len(und) == 0 {
		return True
	}
	if len(und) == 1 {
		return und[0]
	}
	return in.freshBool()
}

// ptrOfInt is the pointer an integer was converted from.
func (in *Interp) ptrOfInt(x *Int) (Ptr, bool) {
	if x.A != nil {
		if id, ok := x.A.Single(); ok {
			p, ok := in.ptrInts[id]
			return p, ok
		}
	}
	if len(x.B) == 64 {
		id := x.B[0].s
		for i, b := range x.B {
			if id < 0 || b != (Bit{id, i}) {
				// the top bit may be known to be zero
				if i == 63 && b == Bit0 {
					continue
				}
				return Ptr{}, false
			}
		}
		p, ok := in.ptrInts[id]
		return p, ok
	}
	return Ptr{}, false
}
