package ai

import (
	"fmt"
	"go/types"
)

func byteConst(c byte) *Int { return &Int{W: 8, A: AC(int64(c))} }

func (in *Interp) constBytes(str string) *Bytes {
	b := &Bytes{n: AC(int64(len(str)))}
	if len(str) > 80 {
		id, ok := in.constSrc[str]
		if !ok {
			id = in.newSrc("const " + str[:10])
			in.constSrc[str] = id
		}
		b.segs = []Seg{{k: sRef, n: b.n, src: id, off: AC(0)}}
		return b
	}
	for i := 0; i < len(str); i++ {
		b.segs = append(b.segs, Seg{k: sByte, n: AC(1), b: byteConst(str[i])})
	}
	return b
}

func (in *Interp) newSrc(name string) int {
	in.srcs = append(in.srcs, name)
	return len(in.srcs) - 1
}

func (in *Interp) refBytes(name string, n *Aff) *Bytes {
	return &Bytes{n: n, segs: []Seg{{k: sRef, n: n, src: in.newSrc(name), off: AC(0)}}}
}

// srcByte is byte off of a source.
func (in *Interp) srcByte(src int, off *Aff) *Int {
	key := fmt.Sprintf("src:%d:%s", src, off.Key())
	id, ok := in.memo[key]
	if !ok {
		id = in.newSym(fmt.Sprintf("%s[%s]", in.srcs[src], off.Key()), typeRange(8, false), 8, false)
		in.memo[key] = id
		in.syms[id].src, in.syms[id].off = src, off
	}
	return &Int{W: 8, A: ASym(id)}
}

func (in *Interp) affEq(s *State, a, b *Aff) bool {
	if a.Eq(b) {
		return true
	}
	d := a.Sub(b)
	if d.IsConst() {
		return d.c.Sign() == 0
	}
	return in.entails(s, d) && in.entails(s, d.Neg())
}

// split finds or makes a boundary at offset at.
func (in *Interp) split(s *State, b *Bytes, at *Aff) ([]Seg, int, bool) {
	pos := AC(0)
	for i, g := range b.segs {
		if pos.Eq(at) {
			return b.segs, i, true
		}
		end := pos.Add(g.n)
		if !end.Eq(at) {
			if in.affEq(s, pos, at) {
				return b.segs, i, true
			}
			if !in.entails(s, at.Sub(end)) {
				if g.k != sByte && in.entails(s, at.Sub(pos)) && in.entails(s, end.Sub(at)) {
					l, r := g, g
					l.n = at.Sub(pos)
					r.n = end.Sub(at)
					if g.k == sRef {
						r.off = g.off.Add(l.n)
					}
					n := make([]Seg, 0, len(b.segs)+1)
					n = append(n, b.segs[:i]...)
					n = append(n, l, r)
					n = append(n, b.segs[i+1:]...)
					return n, i + 1, true
				}
				return nil, 0, false
			}
		}
		pos = end
	}
	if in.affEq(s, pos, at) {
		return b.segs, len(b.segs), true
	}
	return nil, 0, false
}

// sub is the content of b[off:off+n].
func (in *Interp) sub(s *State, b *Bytes, off, n *Aff) *Bytes {
	if off.ConstEq(0) && in.affEq(s, n, b.n) {
		return b
	}
	if n.ConstEq(0) {
		return &Bytes{n: n}
	}
	segs, i, ok := in.split(s, b, off)
	if ok {
		t := &Bytes{segs: segs[i:], n: b.n.Sub(off)}
		segs2, j, ok2 := in.split(s, t, n)
		if ok2 {
			return &Bytes{segs: segs2[:j], n: n}
		}
	}
	in.imprecise++
	return in.refBytes("unknown", n)
}

func (in *Interp) readByte(s *State, b *Bytes, at *Aff) *Int {
	segs, i, ok := in.split(s, b, at)
	for ok && i < len(segs) {
		g := segs[i]
		if g.k == sByte {
			return g.b
		}
		if in.affEq(s, g.n, AC(0)) {
			i++
			continue
		}
		if !in.entails(s, g.n.AddC(-1)) {
			break
		}
		if g.k == sZero {
			return byteConst(0)
		}
		if str, ok := in.constText(g.src); ok {
			if o := g.off; o.IsConst() && o.c.Sign() >= 0 && o.c.Cmp(N(int64(len(str)))) < 0 {
				return byteConst(str[o.c.Int64()])
			}
		}
		return in.srcByte(g.src, g.off)
	}
	if x, ok := in.tableOf(s, b, &Int{W: IntW, S: true, A: at}).(*Int); ok {
		return x
	}
	in.imprecise++
	return &Int{W: 8, A: ASym(in.newSym("byte?", typeRange(8, false), 8, false))}
}

func (in *Interp) constText(src int) (string, bool) {
	for str, id := range in.constSrc {
		if id == src {
			return str, true
		}
	}
	return "", false
}

// overwrite replaces b[at:at+len(c)].
func (in *Interp) overwrite(s *State, b *Bytes, at *Aff, c *Bytes) *Bytes {
	if c.n.ConstEq(0) {
		return b
	}
	segs, i, ok := in.split(s, b, at)
	if ok {
		t := &Bytes{segs: segs[i:], n: b.n.Sub(at)}
		segs2, j, ok2 := in.split(s, t, c.n)
		if ok2 {
			n := make([]Seg, 0, i+len(c.segs)+len(segs2)-j)
			n = append(n, segs[:i]...)
			n = append(n, c.segs...)
			n = append(n, segs2[j:]...)
			return &Bytes{segs: n, n: b.n}
		}
	}
	in.imprecise++
	return in.refBytes("unknown", b.n)
}

func concat(a, b *Bytes) *Bytes {
	segs := make([]Seg, 0, len(a.segs)+len(b.segs))
	segs = append(segs, a.segs...)
	segs = append(segs, b.segs...)
	return &Bytes{segs: segs, n: a.n.Add(b.n)}
}

// cmpBytes compares contents: 1 equal, 0 different, -1 unknown.
func (in *Interp) cmpBytes(s *State, a, b *Bytes) int {
	if !in.affEq(s, a.n, b.n) {
		d := a.n.Sub(b.n)
		if in.entails(s, d.AddC(-1)) || in.entails(s, d.Neg().AddC(-1)) {
			return 0
		}
		return -1
	}
	x, y := append([]Seg(nil), a.segs...), append([]Seg(nil), b.segs...)
	res := 1
	for {
		for len(x) > 0 && in.affEq(s, x[0].n, AC(0)) {
			x = x[1:]
		}
		for len(y) > 0 && in.affEq(s, y[0].n, AC(0)) {
			y = y[1:]
		}
		if len(x) == 0 || len(y) == 0 {
			if len(x) == len(y) {
				return res
			}
			return -1
		}
		g, h := x[0], y[0]
		switch {
		case g.k == sRef && h.k == sRef && g.src == h.src && in.affEq(s, g.off, h.off),
			g.k == sZero && h.k == sZero:
			switch {
			case in.affEq(s, g.n, h.n):
				x, y = x[1:], y[1:]
			case in.entails(s, h.n.Sub(g.n)):
				h.n = h.n.Sub(g.n)
				if h.k == sRef {
					h.off = h.off.Add(g.n)
				}
				y[0] = h
				x = x[1:]
			case in.entails(s, g.n.Sub(h.n)):
				n := h.n
				g.n = g.n.Sub(n)
				if g.k == sRef {
					g.off = g.off.Add(n)
				}
				x[0] = g
				y = y[1:]
			default:
				return -1
			}
			continue
		case g.k == sByte || h.k == sByte:
			one := func(g Seg) (*Int, bool) {
				if g.k == sByte {
					return g.b, true
				}
				if !in.entails(s, g.n.AddC(-1)) {
					return nil, false
				}
				if g.k == sZero {
					return byteConst(0), true
				}
				return in.srcByte(g.src, g.off), true
			}
			p, ok1 := one(g)
			q, ok2 := one(h)
			if !ok1 || !ok2 {
				return -1
			}
			if !in.intEq(s, p, q) {
				bp, bq := in.bitsOf(s, p), in.bitsOf(s, q)
				diff := false
				for i := range bp {
					if bp[i].s < 0 && bq[i].s < 0 && bp[i].b != bq[i].b {
						diff = true
					}
				}
				d := in.affOf(s, p).Sub(in.affOf(s, q))
				if diff || in.entails(s, d.AddC(-1)) || in.entails(s, d.Neg().AddC(-1)) {
					return 0
				}
				res = -1
			}
			adv := func(z []Seg) []Seg {
				if z[0].k == sByte {
					return z[1:]
				}
				g := z[0]
				g.n = g.n.AddC(-1)
				if g.k == sRef {
					g.off = g.off.AddC(1)
				}
				z[0] = g
				return z
			}
			x, y = adv(x), adv(y)
			continue
		}
		return -1
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// SymArr is an array of symbolic length.
type SymArr struct {
	n     *Aff
	t     types.Type
	zero  bool
	cells []symCell
}
type symCell struct {
	i *Aff
	v Value
}

func (in *Interp) symGet(s *State, a *SymArr, i *Aff) Value {
	distinct := true
	for _, c := range a.cells {
		if in.affEq(s, c.i, i) {
			return c.v
		}
		d := c.i.Sub(i)
		if !in.entails(s, d.AddC(-1)) && !in.entails(s, d.Neg().AddC(-1)) {
			distinct = false
		}
	}
	if distinct && a.zero {
		return in.zero(a.t)
	}
	return in.havoc(s, a.t, "elem")
}
func (in *Interp) symSet(s *State, a *SymArr, i *Aff, v Value) *SymArr {
	n := &SymArr{n: a.n, t: a.t, zero: a.zero}
	for _, c := range a.cells {
		if in.affEq(s, c.i, i) {
			continue
		}
		d := c.i.Sub(i)
		if in.entails(s, d.AddC(-1)) || in.entails(s, d.Neg().AddC(-1)) {
			n.cells = append(n.cells, c)
		} else {
			n.zero = false
		}
	}
	n.cells = append(n.cells, symCell{i, v})
	return n
}
