package ai

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pairing relates the values of two abstract states at a loop head. It either
// checks that the first covers the second, or builds a state covering both.
type pairing struct {
	in    *Interp
	a     *activation
	G, S  *State
	gen   bool // build R
	R     *State
	force bool
	objs  map[int]int
	robjs map[int]int
	syms  map[int]*Aff // cover: free symbols of G in terms of S
	opq   map[int]int
	ropq  map[int]int
	bools map[int]int
	srcs  map[int]int
	nsrcs map[int]*Bytes
	terms map[string]string
	nilm  map[int]int
	pairs []ipair
	memo  map[string]Value
	done  map[int]bool
	later [][2]*Aff
	fail  string
}

type ipair struct {
	g, s, r *Aff
}

func (a *activation) newPairing(G, S *State, gen bool) *pairing {
	p := &pairing{in: a.in, a: a, G: G, S: S, gen: gen, objs: map[int]int{}, robjs: map[int]int{}, syms: map[int]*Aff{}, opq: map[int]int{}, ropq: map[int]int{},
		bools: map[int]int{}, srcs: map[int]int{}, nsrcs: map[int]*Bytes{}, terms: map[string]string{}, memo: map[string]Value{}, done: map[int]bool{}, nilm: map[int]int{}}
	if gen {
		p.R = newState()
	}
	return p
}

func (p *pairing) no(f string, a ...interface{}) bool {
	if p.fail == "" {
		p.fail = fmt.Sprintf(f, a...)
	}
	return false
}

// widen handles a back edge arrival; it reports whether the item goes on.
func (a *activation) widen(it *item, h *ssa.BasicBlock) bool {
	in := a.in
	in.S.Widen++
	ents := a.heads[h]
	for _, g := range ents {
		if a.covers(g, it, h) {
			return false
		}
	}
	delay := 2
	if in.isHarness(a.fn) {
		delay = in.HarnessDelay
	}
	if it.count[h] <= delay && len(ents) < in.MaxDelayed {
		a.heads[h] = append(ents, it.clone(it.st.clone()))
		return true
	}
	why := ""
	for k, g := range ents {
		if r, w := a.generalise(g, it, h); r != nil {
			if in.Trace {
				fmt.Printf("generalise %s block %d (entry %d of %d)\n", a.fn, h.Index, k, len(ents))
			}
			a.heads[h][k] = r.clone(r.st.clone())
			r.count, r.und = cp(it.count), cp(it.und)
			*it = *r
			return true
		} else {
			why = w
		}
	}
	if len(ents) > in.MaxEntries {
		in.giveUp("loop of %s does not converge: %d states (%s)", a.fn, len(ents), why)
	}
	a.heads[h] = append(ents, it.clone(it.st.clone()))
	return true
}

func (in *Interp) isHarness(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "zz") || strings.Contains(fnPkg(fn), "/internal/zz") || fn.Parent() != nil && in.isHarness(fn.Parent())
}

func (p *pairing) roots(g, s *item, h *ssa.BasicBlock) ([]Value, bool) {
	var regs []Value
	for _, r := range p.a.liveAt(h) {
		gv, sv := g.env[r], s.env[r]
		if gv == nil || sv == nil {
			if gv == nil && sv == nil {
				regs = append(regs, nil)
				continue
			}
			return nil, p.no("register %d", r)
		}
		v, ok := p.val(gv, sv)
		if !ok {
			return nil, p.no("register %d", r)
		}
		regs = append(regs, v)
	}
	if len(g.defers) != len(s.defers) {
		return nil, p.no("defers")
	}
	var dv []Value
	for i := range g.defers {
		if g.defers[i].c != s.defers[i].c {
			return nil, p.no("defers")
		}
		vs := append([]Value{g.defers[i].fv}, g.defers[i].args...)
		ws := append([]Value{s.defers[i].fv}, s.defers[i].args...)
		for j := range vs {
			if vs[j] == nil && ws[j] == nil {
				dv = append(dv, nil)
				continue
			}
			v, ok := p.val(vs[j], ws[j])
			if !ok {
				return nil, p.no("defer")
			}
			dv = append(dv, v)
		}
	}
	glob := map[int]bool{}
	for g, id := range p.in.globals {
		glob[id] = true
		// a variable only one of the states has seen
		if _, ok := p.G.heap[id]; !ok {
			p.in.globalObj(p.G, g)
		}
		if _, ok := p.S.heap[id]; !ok {
			p.in.globalObj(p.S, g)
		}
	}
	for _, id := range sortedKeys(p.G.heap) {
		if id <= p.a.entryObj || glob[id] {
			if _, ok := p.S.heap[id]; !ok {
				continue
			}
			if !p.obj(id, id) {
				return nil, p.no("object %d", id)
			}
		}
	}
	if len(p.G.spawns) != len(p.S.spawns) {
		return nil, p.no("spawns")
	}
	for i := range p.G.spawns {
		x, y := p.G.spawns[i], p.S.spawns[i]
		if len(x.args) != len(y.args) {
			return nil, p.no("spawns")
		}
		f, ok := p.val(x.fn, y.fn)
		if !ok {
			return nil, p.no("spawn")
		}
		n := spawn{fn: f, pos: x.pos}
		for j := range x.args {
			v, ok := p.val(x.args[j], y.args[j])
			if !ok {
				return nil, p.no("spawn")
			}
			n.args = append(n.args, v)
		}
		if p.gen {
			p.R.spawns = append(p.R.spawns, n)
		}
	}
	if len(p.G.waits) != len(p.S.waits) {
		return nil, p.no("waits")
	}
	for i := range p.G.waits {
		x, y := p.G.waits[i], p.S.waits[i]
		if x.send != y.send {
			return nil, p.no("waits")
		}
		c, ok := p.val(x.ch, y.ch)
		if !ok {
			return nil, p.no("waits")
		}
		if p.gen {
			p.R.waits = append(p.R.waits, wop{c, x.send, x.pos})
		}
	}
	for _, l := range p.later {
		if !p.affCover(l[0], l[1], true) {
			return nil, p.no("integer")
		}
	}
	if !p.sameKeys(p.G.locks, p.S.locks) {
		return nil, p.no("locks")
	}
	go1, so1 := map[string]int{}, map[string]int{}
	for k := range p.G.once {
		go1[k] = 1
	}
	for k := range p.S.once {
		so1[k] = 1
	}
	if !p.sameKeys(go1, so1) {
		return nil, p.no("once")
	}
	if fmt.Sprint(p.G.notes) != fmt.Sprint(p.S.notes) || p.G.panicking != p.S.panicking || p.G.recovered != p.S.recovered {
		return nil, p.no("notes")
	}
	return append(regs, dv...), true
}

// sameKeys compares maps keyed by object paths.
func (p *pairing) sameKeys(x, y map[string]int) bool {
	n := 0
	for k, v := range x {
		var id int
		fmt.Sscanf(k, "%d", &id)
		rest := strings.TrimPrefix(k, fmt.Sprint(id))
		m, ok := p.objs[id]
		if !ok {
			if id > p.a.entryObj {
				n++ // unreachable
				continue
			}
			m = id
		}
		if y[fmt.Sprint(m)+rest] != v {
			return false
		}
	}
	for k, v := range y {
		var id int
		fmt.Sscanf(k, "%d", &id)
		rest := strings.TrimPrefix(k, fmt.Sprint(id))
		m, ok := p.robjs[id]
		if !ok {
			if id > p.a.entryObj {
				continue
			}
			m = id
		}
		if x[fmt.Sprint(m)+rest] != v {
			return false
		}
	}
	return true
}

func (p *pairing) obj(g, s int) bool {
	if m, ok := p.objs[g]; ok {
		return m == s || p.no("aliasing")
	}
	if m, ok := p.robjs[s]; ok && m != g {
		return p.no("aliasing")
	}
	if g != s && (g <= p.a.entryObj || s <= p.a.entryObj) {
		if g < 0 && s < 0 { // unknown pointers
			if !p.opqPair(-g, -s) {
				return false
			}
		} else {
			return p.no("different objects")
		}
	}
	p.objs[g], p.robjs[s] = s, g
	gv, ok1 := p.G.heap[g]
	sv, ok2 := p.S.heap[s]
	if !ok1 || !ok2 {
		return ok1 == ok2 || g < 0 || p.no("missing object")
	}
	v, ok := p.val(gv, sv)
	if !ok {
		return false
	}
	if p.gen {
		p.R.heap[g] = v
	}
	return true
}

func (p *pairing) opqPair(g, s int) bool {
	if m, ok := p.opq[g]; ok {
		return m == s || p.no("opaque identity")
	}
	if m, ok := p.ropq[s]; ok && m != g {
		return p.no("opaque identity")
	}
	if g != s && (g <= p.a.entryOpq || s <= p.a.entryOpq) {
		return p.no("opaque")
	}
	p.opq[g], p.ropq[s] = s, g
	return true
}

func (p *pairing) same(g, s Value) bool {
	k1, k2 := newKeyer(p.in, p.G), newKeyer(p.in, p.S)
	k1.objs, k2.objs = nil, nil
	return plainKey(p.in, g) == plainKey(p.in, s)
}

func plainKey(in *Interp, v Value) string {
	k := newKeyer(in, &State{heap: map[int]Value{}})
	k.val(v)
	return k.String()
}

// known reports whether all symbols of a form exist outside the loop.
func (p *pairing) old(a *Aff) bool {
	for _, t := range a.t {
		if t.s >= p.a.entrySym {
			return false
		}
	}
	return true
}

func (p *pairing) affCover(g, s *Aff, final bool) bool {
	in := p.in
	var unb []aterm
	r := &Aff{c: g.c}
	for _, t := range g.t {
		if b, ok := p.syms[t.s]; ok {
			r = r.AddK(b, t.k)
		} else if t.s >= p.a.entrySym && in.syms[t.s].free {
			unb = append(unb, t)
		} else {
			r = r.AddK(ASym(t.s), t.k)
		}
	}
	switch {
	case len(unb) == 0:
		return in.affEq(p.S, r, s) || p.no("integer %s vs %s", in.affStr(g), in.affStr(s))
	case len(unb) == 1 && (unb[0].k == 1 || unb[0].k == -1):
		p.syms[unb[0].s] = s.Sub(r).Mul(unb[0].k)
		return true
	case len(unb) == 1:
		if d := s.Sub(r).divExact(unb[0].k); d != nil {
			p.syms[unb[0].s] = d
			return true
		}
	}
	if final {
		return p.no("integer form")
	}
	p.later = append(p.later, [2]*Aff{g, s})
	return true
}

// affGen gives a form covering g in G and s in S.
func (p *pairing) affGen(g, s *Aff, w int, sg bool) *Aff {
	in := p.in
	if g.Eq(s) {
		return g
	}
	if g.IsConst() && in.affEq(p.S, g, s) {
		return g
	}
	for _, q := range p.pairs {
		if q.g.Eq(g) && q.s.Eq(s) {
			return q.r
		}
	}
	for _, q := range p.pairs {
		d := g.Sub(q.g)
		if d.Eq(s.Sub(q.s)) {
			r := q.r.Add(d)
			p.pairs = append(p.pairs, ipair{g, s, r})
			return r
		}
		for _, k := range []int64{-1, 2, 3, 4, 5, 8, 9} {
			d := g.AddK(q.g, -k)
			if d.Eq(s.AddK(q.s, -k)) {
				r := q.r.Mul(k).Add(d)
				p.pairs = append(p.pairs, ipair{g, s, r})
				return r
			}
		}
	}
	// steps of more than one
	if d := s.Sub(g); d.IsConst() && d.c.IsInt64() && (d.c.Int64() > 1 || d.c.Int64() < -1) && d.c.Int64() > -1<<31 && d.c.Int64() < 1<<31 {
		k := d.c.Int64()
		if k < 0 {
			k = -k
		}
		c0 := ACI(g.c.Sub(g.c.DivFloor(k).Mul(k)))
		if g1, s1 := g.Sub(c0).divExact(k), s.Sub(c0).divExact(k); g1 != nil && s1 != nil {
			r := p.affGen(g1, s1, IntW, true).Mul(k).Add(c0)
			p.pairs = append(p.pairs, ipair{g, s, r})
			return r
		}
	}
	rg, rs := in.affRange(p.G, g), in.affRange(p.S, s)
	tr := typeRange(w, sg)
	id := in.newSym("w", tr, w, sg)
	sy := in.syms[id]
	sy.free, sy.widen = true, true
	rng := rg.Join(rs)
	if gid, ok := g.Single(); ok && in.syms[gid].widen {
		// the bounds still move: widen them
		if rs.lo.Cmp(rg.lo) < 0 {
			rng.lo = tr.lo
			if rs.lo.Sign() >= 0 {
				rng.lo = N(0)
			}
		}
		if rs.hi.Cmp(rg.hi) > 0 {
			rng.hi = tr.hi
			for _, th := range []I{pow2(31).Sub(N(1)), pow2(40), pow2(62)} {
				if rs.hi.Cmp(th) < 0 && th.Cmp(tr.hi) < 0 {
					rng.hi = th
					break
				}
			}
		}
	}
	p.R.setRng(id, rng)
	r := ASym(id)
	p.pairs = append(p.pairs, ipair{g, s, r})
	return r
}

func (p *pairing) ints(g, s *Int) (Value, bool) {
	in := p.in
	if g.W != s.W || g.S != s.S {
		return nil, p.no("width")
	}
	if g.A == nil && s.A == nil && bitsKey(g.B) == bitsKey(s.B) {
		return g, true
	}
	if !p.gen {
		if g.A == nil {
			// bits of known symbols only
			gb, sb := in.bitsOf(p.G, g), in.bitsOf(p.S, s)
			same := true
			for i := range gb {
				b := gb[i]
				if b.s >= 0 {
					if x, ok := p.syms[b.s]; ok {
						if id, ok := x.Single(); ok {
							b.s = id
						} else {
							same = false
						}
					}
				}
				if in.normBit(p.S, b) != sb[i] {
					same = false
				}
			}
			if same {
				return nil, true
			}
			return nil, p.no("bits")
		}
		return nil, p.affCover(g.A, in.affOf(p.S, s), false)
	}
	ga, sa := in.affOf(p.G, g), in.affOf(p.S, s)
	if g.A == nil {
		gid, ok := ga.Single()
		if ok && in.syms[gid].def != nil && !ga.Eq(sa) {
			// abstract it
		}
	}
	return &Int{W: g.W, S: g.S, A: p.affGen(ga, sa, g.W, g.S)}, true
}

func (p *pairing) aff(g, s *Aff) (*Aff, bool) {
	if p.gen {
		return p.affGen(g, s, IntW, true), true
	}
	return nil, p.affCover(g, s, false)
}

func (p *pairing) path(g, s []PE) ([]PE, bool) {
	if len(g) != len(s) {
		return nil, p.no("path")
	}
	var r []PE
	for i := range g {
		if (g[i].a == nil) != (s[i].a == nil) {
			return nil, p.no("path")
		}
		if g[i].a == nil {
			if g[i].i != s[i].i {
				return nil, p.no("path")
			}
			r = append(r, g[i])
			continue
		}
		a, ok := p.aff(g[i].a, s[i].a)
		if !ok {
			return nil, false
		}
		if p.gen {
			r = append(r, elemPE(a))
		}
	}
	return r, true
}

func (p *pairing) bytes(g, s *Bytes) (*Bytes, bool) {
	in := p.in
	if p.gen {
		if plainKey(in, g) == plainKey(in, s) {
			return g, true
		}
		k := "bytes:" + plainKey(in, g) + "|" + plainKey(in, s)
		if v, ok := p.memo[k]; ok {
			return v.(*Bytes), true
		}
		n := p.affGen(g.n, s.n, IntW, true)
		// same segments up to integers
		if len(g.segs) == len(s.segs) {
			r := &Bytes{n: n}
			for i := range g.segs {
				x, y := g.segs[i], s.segs[i]
				if x.k != y.k || x.k == sRef && x.src != y.src {
					r = nil
					break
				}
				switch x.k {
				case sByte:
					v, ok := p.ints(x.b, y.b)
					if !ok {
						return nil, false
					}
					r.segs = append(r.segs, Seg{k: sByte, n: AC(1), b: v.(*Int)})
				case sZero:
					r.segs = append(r.segs, Seg{k: sZero, n: p.affGen(x.n, y.n, IntW, true)})
				case sRef:
					r.segs = append(r.segs, Seg{k: sRef, n: p.affGen(x.n, y.n, IntW, true), src: x.src, off: p.affGen(x.off, y.off, IntW, true)})
				}
			}
			if r != nil {
				p.memo[k] = r
				return r, true
			}
		}
		r := in.refBytes("any", n)
		in.srcAny[r.segs[0].src] = true
		p.memo[k] = r
		return r, true
	}
	// cover: unknown content covers any
	if len(g.segs) == 1 && g.segs[0].k == sRef && in.srcAny[g.segs[0].src] && g.segs[0].off.ConstEq(0) {
		src := g.segs[0].src
		if b, ok := p.nsrcs[src]; ok {
			if in.cmpBytes(p.S, b, s) != 1 {
				return nil, p.no("bytes")
			}
		} else {
			p.nsrcs[src] = s
		}
		return nil, p.affCover(g.n, s.n, false)
	}
	if len(g.segs) != len(s.segs) {
		return nil, p.no("bytes")
	}
	if !p.affCover(g.n, s.n, false) {
		return nil, false
	}
	for i := range g.segs {
		x, y := g.segs[i], s.segs[i]
		if x.k != y.k {
			return nil, p.no("bytes")
		}
		switch x.k {
		case sByte:
			if _, ok := p.ints(x.b, y.b); !ok {
				return nil, false
			}
		case sZero:
			if !p.affCover(x.n, y.n, false) {
				return nil, false
			}
		case sRef:
			if m, ok := p.srcs[x.src]; ok && m != y.src || !ok && x.src != y.src && x.src < p.a.entrySrc {
				return nil, p.no("bytes source")
			}
			p.srcs[x.src] = y.src
			if !p.affCover(x.n, y.n, false) || !p.affCover(x.off, y.off, false) {
				return nil, false
			}
		}
	}
	return nil, true
}

func (p *pairing) vals(g, s []Value) ([]Value, bool) {
	if len(g) != len(s) {
		return nil, p.no("count")
	}
	r := make([]Value, len(g))
	for i := range g {
		if g[i] == nil && s[i] == nil {
			continue
		}
		v, ok := p.val(g[i], s[i])
		if !ok {
			return nil, false
		}
		r[i] = v
	}
	return r, true
}

func (p *pairing) val(g, s Value) (Value, bool) {
	in := p.in
	switch x := g.(type) {
	case nil:
		return nil, s == nil || p.no("nothing")
	case *Int:
		y, ok := s.(*Int)
		if !ok {
			return nil, p.no("kind")
		}
		return p.ints(x, y)
	case Bool:
		y, ok := s.(Bool)
		if !ok {
			return nil, p.no("kind")
		}
		if x.K < 2 {
			if y.K == x.K {
				return x, true
			}
			if y.K == 2 {
				y = in.settle(p.S, y)
				if y.K == x.K {
					return x, true
				}
			}
			if p.gen && p.force {
				return in.freshBool(), true
			}
			return nil, p.no("boolean")
		}
		if plainKey(in, x) == plainKey(in, y) {
			return x, true
		}
		if x.C.op == cSym && p.a.localBool(x.C.id) {
			if p.gen {
				return in.freshBool(), true
			}
			if y.K == 2 && y.C.op == cSym && y.C.neg == x.C.neg {
				if m, ok := p.bools[x.C.id]; !ok || m == y.C.id {
					p.bools[x.C.id] = y.C.id
					return nil, true
				}
			}
			return nil, p.no("condition")
		}
		if p.gen {
			return in.freshBool(), true
		}
		return nil, p.no("condition")
	case Term:
		y, ok := s.(Term)
		if !ok {
			return nil, p.no("kind")
		}
		if x.key == y.key {
			return x, true
		}
		if p.gen {
			in.nopq++
			return Term{fmt.Sprintf("any%d", in.nopq)}, true
		}
		if strings.HasPrefix(x.key, "any") {
			if m, ok := p.terms[x.key]; !ok || m == y.key {
				p.terms[x.key] = y.key
				return nil, true
			}
		}
		return nil, p.no("term")
	case Str:
		y, ok := s.(Str)
		if !ok {
			return nil, p.no("kind")
		}
		b, ok := p.bytes(x.Bytes, y.Bytes)
		return Str{b}, ok
	case *Bytes:
		y, ok := s.(*Bytes)
		if !ok {
			return nil, p.no("kind")
		}
		return p.bytes(x, y)
	case *Struct:
		y, ok := s.(*Struct)
		if !ok {
			return nil, p.no("kind")
		}
		f, ok := p.vals(x.f, y.f)
		return &Struct{f: f}, ok
	case *Arr:
		switch y := s.(type) {
		case *Arr:
			if len(x.e) != len(y.e) {
				if p.gen && x.t != nil {
					return &SymArr{n: p.affGen(AC(int64(len(x.e))), AC(int64(len(y.e))), IntW, true), t: x.t}, true
				}
				return nil, p.no("array length")
			}
			e, ok := p.vals(x.e, y.e)
			return &Arr{e: e, t: x.t}, ok
		case *SymArr:
			if p.gen {
				return &SymArr{n: p.affGen(AC(int64(len(x.e))), y.n, IntW, true), t: y.t}, true
			}
		}
		return nil, p.no("array")
	case *SymArr:
		switch y := s.(type) {
		case *Arr:
			if p.gen {
				return &SymArr{n: p.affGen(x.n, AC(int64(len(y.e))), IntW, true), t: x.t}, true
			}
			if len(x.cells) == 0 && !x.zero {
				return nil, p.affCover(x.n, AC(int64(len(y.e))), false)
			}
		case *SymArr:
			if p.gen {
				if plainKey(in, x) == plainKey(in, y) {
					return x, true
				}
				return &SymArr{n: p.affGen(x.n, y.n, IntW, true), t: x.t}, true
			}
			if len(x.cells) == 0 && !x.zero {
				return nil, p.affCover(x.n, y.n, false)
			}
			if x.zero == y.zero && len(x.cells) == len(y.cells) {
				if !p.affCover(x.n, y.n, false) {
					return nil, false
				}
				for i := range x.cells {
					if !p.affCover(x.cells[i].i, y.cells[i].i, false) {
						return nil, false
					}
					if _, ok := p.val(x.cells[i].v, y.cells[i].v); !ok {
						return nil, false
					}
				}
				return nil, true
			}
		}
		return nil, p.no("array")
	case Ptr:
		y, ok := s.(Ptr)
		if !ok {
			return nil, p.no("nil-ness")
		}
		if !p.obj(x.o, y.o) {
			return nil, false
		}
		path, ok := p.path(x.path, y.path)
		return Ptr{o: x.o, path: path, as: x.as}, ok
	case Nil:
		_, ok := s.(Nil)
		return x, ok || p.no("nil-ness")
	case Slice:
		y, ok := s.(Slice)
		if !ok {
			return nil, p.no("kind")
		}
		r := Slice{nilID: x.nilID}
		if x.nilID != y.nilID {
			if x.nilID <= 0 || y.nilID <= 0 {
				return nil, p.no("nil slice")
			}
			if !p.opqPair(x.nilID, y.nilID) {
				return nil, false
			}
		}
		if x.nilID < 0 {
			return x, true
		}
		if !p.obj(x.base.o, y.base.o) {
			return nil, false
		}
		path, ok := p.path(x.base.path, y.base.path)
		if !ok {
			return nil, false
		}
		r.base = Ptr{o: x.base.o, path: path}
		if r.off, ok = p.aff(x.off, y.off); !ok {
			return nil, false
		}
		if r.len, ok = p.aff(x.len, y.len); !ok {
			return nil, false
		}
		if r.cap, ok = p.aff(x.cap, y.cap); !ok {
			return nil, false
		}
		return r, true
	case Iface:
		y, ok := s.(Iface)
		if !ok || !types.Identical(x.t, y.t) {
			return nil, p.no("dynamic type")
		}
		v, ok := p.val(x.v, y.v)
		return Iface{t: x.t, v: v}, ok
	case Opaque:
		y, ok := s.(Opaque)
		if !ok {
			return nil, p.no("kind")
		}
		if strings.HasPrefix(x.name, "global ") && x.id != y.id {
			return nil, p.no("global")
		}
		return x, p.opqPair(x.id, y.id)
	case Func:
		y, ok := s.(Func)
		if !ok || x.fn != y.fn || x.native != y.native {
			return nil, p.no("function")
		}
		if x.native == "invoke" {
			return x, true
		}
		b, ok := p.vals(x.binds, y.binds)
		return Func{fn: x.fn, native: x.native, binds: b}, ok
	case *MapV:
		y, ok := s.(*MapV)
		if !ok {
			return nil, p.no("kind")
		}
		if len(x.keys) == len(y.keys) && x.open == y.open {
			save := p.fail
			k, ok1 := p.vals(x.keys, y.keys)
			v, ok2 := p.vals(x.vals, y.vals)
			if ok1 && ok2 {
				return &MapV{keys: k, vals: v, open: x.open}, true
			}
			if !p.gen {
				return nil, false
			}
			p.fail = save
		}
		if p.gen {
			return &MapV{open: true}, true
		}
		if x.open && len(x.keys) == 0 {
			return nil, true
		}
		return nil, p.no("map")
	case *ChanV:
		y, ok := s.(*ChanV)
		if !ok || x.closed != y.closed {
			return nil, p.no("channel")
		}
		c, ok := p.aff(x.cap, y.cap)
		if !ok {
			return nil, false
		}
		b, ok := p.vals(x.buf, y.buf)
		return &ChanV{buf: b, cap: c, closed: x.closed}, ok
	case Tuple:
		y, ok := s.(Tuple)
		if !ok {
			return nil, p.no("kind")
		}
		v, ok := p.vals(x, y)
		return Tuple(v), ok
	case Uninit:
		return x, true
	case *iter:
		y, ok := s.(*iter)
		if !ok || x.i != y.i {
			return nil, p.no("iterator")
		}
		if x.o > 0 && !p.obj(x.o, y.o) {
			return nil, false
		}
		return x, true
	}
	return nil, p.no("kind %T", g)
}

// covers reports whether every execution s describes is described by g.
func (a *activation) covers(g, s *item, h *ssa.BasicBlock) bool {
	in := a.in
	in.tick()
	p := a.newPairing(g.st, s.st, false)
	if _, ok := p.roots(g, s, h); !ok {
		return false
	}
	sub := func(f *Aff) (*Aff, bool) {
		r := &Aff{c: f.c}
		for _, t := range f.t {
			if b, ok := p.syms[t.s]; ok {
				r = r.AddK(b, t.k)
			} else if t.s >= a.entrySym && in.syms[t.s].free {
				return nil, false // not in the compared values
			} else {
				r = r.AddK(ASym(t.s), t.k)
			}
		}
		return r, true
	}
	for id, v := range g.st.rng {
		f, ok := sub(ASym(id))
		if !ok {
			continue
		}
		r := in.affRange(s.st, f)
		if !r.In(v) {
			if !in.entails(s.st, f.Sub(ACI(v.lo))) || !in.entails(s.st, ACI(v.hi).Sub(f)) {
				if id >= a.entrySym && !a.mentioned(id, g, h) {
					continue
				}
				return false
			}
		}
	}
	for _, f := range g.st.facts {
		x, ok := sub(f)
		if !ok {
			continue
		}
		if !in.entails(s.st, x) {
			return false
		}
	}
	for _, f := range g.st.neqs {
		x, ok := sub(f)
		if !ok {
			continue
		}
		if !in.impliesNeq(s.st, x) {
			return false
		}
	}
	for _, n := range g.st.nbits {
		m := nbit{b: append([]Bit(nil), n.b...), k: n.k}
		ok := true
		for i, b := range m.b {
			if x, has := p.syms[b.s]; has && b.s >= 0 {
				id, single := x.Single()
				if !single {
					return false
				}
				m.b[i].s = id
			} else if b.s >= a.entrySym && in.syms[b.s].free {
				ok = false // not in the compared values
			}
		}
		if ok && !in.lacks(s.st, m) {
			return false
		}
	}
	for b, v := range g.st.bitv {
		if m, ok := p.syms[b.s]; ok {
			id, ok := m.Single()
			if !ok {
				return false
			}
			b.s = id
		} else if b.s >= a.entrySym && in.syms[b.s].free {
			continue
		}
		if in.normBit(s.st, b) != (Bit{-1, v}) {
			return false
		}
	}
	for id, v := range g.st.bools {
		if m, ok := p.bools[id]; ok {
			id = m
		} else if a.localBool(id) {
			continue
		}
		if w, ok := s.st.bools[id]; !ok || w != v {
			return false
		}
	}
	for id, v := range g.st.nils {
		if m, ok := p.opq[id]; ok {
			id = m
		} else if id > a.entryOpq {
			continue
		}
		if w, ok := s.st.nils[id]; !ok || w != v {
			return false
		}
	}
	for k := range g.st.eqs {
		var id int
		if n, _ := fmt.Sscanf(k, "dyn:%d=", &id); n == 1 {
			rest := k[strings.Index(k, "="):]
			if m, ok := p.opq[id]; ok {
				k = fmt.Sprintf("dyn:%d%s", m, rest)
			} else if id > a.entryOpq {
				continue
			}
		}
		if !s.st.eqs[k] {
			return false
		}
	}
	return true
}

// mentioned is whether a symbol that is not free may matter: it is a function
// of others, so its range restricts them.
func (a *activation) mentioned(id int, g *item, h *ssa.BasicBlock) bool {
	return true
}

// generalise builds an item covering both.
func (a *activation) generalise(g, s *item, h *ssa.BasicBlock) (*item, string) {
	in := a.in
	p := a.newPairing(g.st, s.st, true)
	regs, ok := p.roots(g, s, h)
	if !ok {
		return nil, p.fail
	}
	R := p.R
	r := s.clone(R)
	for i := range r.env {
		r.env[i] = nil
	}
	live := a.liveAt(h)
	for i, x := range live {
		r.env[x] = regs[i]
	}
	k := len(live)
	for i := range r.defers {
		d := r.defers[i]
		d.fv = regs[k]
		k++
		d.args = append([]Value(nil), regs[k:k+len(d.args)]...)
		k += len(d.args)
		r.defers = append(append(append([]deferred(nil), r.defers[:i]...), d), r.defers[i+1:]...)
	}
	// constraints
	for id, v := range g.st.rng {
		if in.syms[id].free || id < a.entrySym {
			if _, done := R.rng[id]; !done {
				R.setRng(id, v.Join(in.symRange(s.st, id)))
			}
		} else if w, ok := s.st.rng[id]; ok {
			R.setRng(id, v.Join(w))
		}
	}
	for b, v := range g.st.bitv {
		if w, ok := s.st.bitv[b]; ok && v == w {
			R.bitv[b] = v
		}
	}
	for _, n := range g.st.nbits {
		if in.lacks(s.st, n) {
			R.nbits = append(R.nbits, n)
		}
	}
	R.bools = interB(g.st.bools, s.st.bools)
	for id, v := range g.st.nils {
		m := id
		if x, ok := p.opq[id]; ok {
			m = x
		}
		if w, ok := s.st.nils[m]; ok && w == v {
			R.nils[id] = v
		}
	}
	for k := range g.st.eqs {
		k2 := k
		var id int
		if n, _ := fmt.Sscanf(k, "dyn:%d=", &id); n == 1 {
			if m, ok := p.opq[id]; ok {
				k2 = fmt.Sprintf("dyn:%d%s", m, k[strings.Index(k, "="):])
			}
		}
		if s.st.eqs[k2] {
			R.eqs[k] = true
		}
	}
	R.locks, R.once = cp(g.st.locks), cp(g.st.once)
	R.unlocks = g.st.unlocks
	R.notes, R.panicking, R.recovered = g.st.notes, g.st.panicking, g.st.recovered
	R.trace = s.st.trace
	// relations
	for _, f := range g.st.facts {
		if in.hasFact(s.st, f) {
			R.facts = append(R.facts, f)
		}
	}
	for _, f := range s.st.facts {
		if !in.hasFactIn(R.facts, f) && in.hasFact(g.st, f) {
			R.facts = append(R.facts, f)
		}
	}
	for _, n := range g.st.neqs {
		if in.impliesNeq(s.st, n) {
			R.neqs = append(R.neqs, n)
		}
	}
	type cand struct{ g, s, r *Aff }
	var bounds []cand
	seen := map[string]bool{}
	addB := func(x *Aff) {
		if !seen[x.Key()] && len(bounds) < 60 {
			seen[x.Key()] = true
			bounds = append(bounds, cand{x, x, x})
		}
	}
	for _, f := range append(append([]*Aff(nil), g.st.facts...), s.st.facts...) {
		for _, t := range f.t {
			if in.symShared(g.st, s.st, t.s) {
				addB(ASym(t.s))
			}
		}
	}
	// facts with the abstracted values replaced
	for _, q := range p.pairs {
		if len(q.r.t) != 1 || q.r.c.Sign() != 0 {
			continue
		}
		id, ok := q.r.Single()
		if !ok || !in.syms[id].widen {
			continue
		}
		try := func(x *Aff, gx, sx *Aff) {
			// x is over r
			if in.entails(g.st, gx) && in.entails(s.st, sx) && !in.entails(R, x) {
				R.facts = append(R.facts, x)
			}
		}
		for _, b := range bounds {
			for _, c := range []int64{0, -1} {
				try(b.r.Sub(q.r).AddC(c), b.g.Sub(q.g).AddC(c), b.s.Sub(q.s).AddC(c))
				try(q.r.Sub(b.r).AddC(c), q.g.Sub(b.g).AddC(c), q.s.Sub(b.s).AddC(c))
			}
		}
		for _, f := range g.st.facts {
			// replace g by r in f when g is a symbol
			if gid, ok := q.g.Single(); ok {
				for _, t := range f.t {
					if t.s == gid {
						rest := f.AddK(ASym(gid), -t.k)
						if p.sharedAff(rest) {
							try(rest.AddK(q.r, t.k), f, rest.AddK(q.s, t.k))
						}
					}
				}
			}
		}
		bounds = append(bounds, cand{q.g, q.s, q.r})
	}
	return r, ""
}

func (p *pairing) sharedAff(a *Aff) bool { return true }

func (in *Interp) symShared(g, s *State, id int) bool { return true }

// liveAt lists the registers that matter at a loop head, or at the return of
// the function.
func (a *activation) liveAt(h *ssa.BasicBlock) []int {
	if h == nil {
		return []int{0}
	}
	return a.f.live[h.Index]
}

// reduceOuts drops outcomes others cover and generalises when too many stay.
func (in *Interp) reduceOuts(outs []Out, a *activation) []Out {
	max := in.MaxOuts
	if strings.HasPrefix(a.fn.Name(), "zzJoin") {
		max = 1
	} else if in.isHarness(a.fn) {
		return outs
	}
	if len(outs) <= max {
		return outs
	}
	var res []Out
	item1 := func(o Out) *item { return &item{st: o.st, env: []Value{o.ret}} }
	pass := func(l []Out, gen bool) []Out {
		var res []Out
	next:
		for _, o := range l {
			if o.pan == nil && !o.blocked {
				for i, r := range res {
					if r.pan != nil || r.blocked {
						continue
					}
					if a.covers(item1(r), item1(o), nil) {
						continue next
					}
					if gen {
						x, why := a.generalise(item1(r), item1(o), nil)
						if in.Trace {
							fmt.Printf("join outcomes of %s: %s\n", a.fn, why)
						}
						if x != nil {
							in.S.Merges++
							res[i] = Out{st: x.st, ret: x.env[0]}
							continue next
						}
					}
				}
			}
			res = append(res, o)
		}
		return res
	}
	res = pass(outs, false)
	if len(res) > max {
		res = pass(res, true)
	}
	return res
}
