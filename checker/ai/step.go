package ai

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type iter struct {
	o int // map object, or 0 for a string
	i int
	n []Value
}

func one(st *State, v Value) []alt { return []alt{{st: st, v: v}} }

// branch forks on a condition.
func (in *Interp) branch(st *State, c Bool, yes, no func(*State) []alt) []alt {
	t, f := in.can(st, c)
	if t && !f {
		return yes(st)
	}
	if f && !t {
		return no(st)
	}
	o := st.clone()
	in.assume(st, c, true)
	in.assume(o, c, false)
	in.S.States++
	var r []alt
	if !st.bot {
		r = append(r, yes(st)...)
	}
	if !o.bot {
		r = append(r, no(o)...)
	}
	return r
}

// need makes an obligation of a condition: where it may fail, a panic.
func (in *Interp) need(st *State, c Bool, what string, ok func(*State) []alt) []alt {
	in.S.Sites[in.cur]++
	t, f := in.can(st, c)
	if t && !f {
		return ok(st)
	}
	return in.branch(st, c, ok, func(s *State) []alt {
		return []alt{{st: s, pan: in.panicAt(what)}}
	})
}

func ge(a *Aff) Bool { return Bool{K: 2, C: Cond{op: cGE, a: a}} }
func eq0(a *Aff) Bool {
	return Bool{K: 2, C: Cond{op: cEQ, a: a}}
}

func (in *Interp) mustAff(st *State, v Value) *Aff {
	i, ok := v.(*Int)
	if !ok {
		in.giveUp("not an integer: %s", in.Show(st, v))
	}
	return in.affOf(st, i)
}

// deref splits a value used as a pointer into a Ptr or a panic.
func (in *Interp) deref(st *State, v Value, pt types.Type, ok func(*State, Ptr) []alt) []alt {
	switch v := v.(type) {
	case Ptr:
		return ok(st, v)
	case Nil:
		in.S.Sites[in.cur]++
		return []alt{{st: st, pan: in.panicAt("nil pointer dereference")}}
	case Opaque:
		// an unknown pointer: give it an object
		isNil := Bool{K: 0}
		if v.mayNil {
			isNil = Bool{K: 2, C: Cond{op: cNil, id: v.id}}
		}
		return in.need(st, not(isNil), "nil pointer dereference of "+v.name, func(s *State) []alt {
			return ok(s, in.opaqueObj(s, v, pt))
		})
	}
	in.giveUp("pointer %s", in.Show(st, v))
	return nil
}

// opaqueObj gives the object an unknown pointer points to.
func (in *Interp) opaqueObj(st *State, v Opaque, pt types.Type) Ptr {
	id := -v.id
	if _, ok := st.heap[id]; !ok {
		if pt == nil {
			pt = v.t
		}
		p, ok := pt.Underlying().(*types.Pointer)
		if !ok {
			in.giveUp("opaque pointer of type %v", pt)
		}
		st.set(id, in.havoc(st, p.Elem(), v.name))
	}
	return Ptr{o: id}
}

func (in *Interp) getPath(st *State, v Value, path []PE) Value {
	for k, e := range path {
		switch x := v.(type) {
		case *Struct:
			v = x.f[e.i]
		case *Arr:
			i := e.i
			if e.a != nil {
				if !e.a.IsConst() {
					r := in.affRange(st, e.a)
					if r.lo.Cmp(r.hi) == 0 {
						i = int(r.lo.Int64())
					} else {
						in.giveUp("symbolic index into an array")
					}
				} else {
					i = int(e.a.c.Int64())
				}
			}
			if i < 0 || i >= len(x.e) {
				in.giveUp("index %d of %d", i, len(x.e))
			}
			v = x.e[i]
		case *Bytes:
			if e.a == nil {
				return in.readByte(st, x, AC(int64(e.i)))
			}
			if k != len(path)-1 {
				in.giveUp("path into a byte")
			}
			return in.readByte(st, x, e.a)
		case *SymArr:
			a := e.a
			if a == nil {
				a = AC(int64(e.i))
			}
			v = in.symGet(st, x, a)
		default:
			in.giveUp("path %d into %s", e.i, in.Show(st, v))
		}
	}
	return v
}

func (in *Interp) setPath(st *State, v Value, path []PE, w Value) Value {
	if len(path) == 0 {
		return w
	}
	e := path[0]
	switch x := v.(type) {
	case *Struct:
		n := &Struct{f: append([]Value(nil), x.f...)}
		n.f[e.i] = in.setPath(st, x.f[e.i], path[1:], w)
		return n
	case *Arr:
		i := e.i
		if e.a != nil {
			r := in.affRange(st, e.a)
			if r.lo.Cmp(r.hi) != 0 {
				in.giveUp("symbolic index into an array")
			}
			i = int(r.lo.Int64())
		}
		n := &Arr{e: append([]Value(nil), x.e...), t: x.t}
		n.e[i] = in.setPath(st, x.e[i], path[1:], w)
		return n
	case *Bytes:
		a := e.a
		if a == nil {
			a = AC(int64(e.i))
		}
		b, ok := w.(*Int)
		if !ok {
			in.giveUp("store of a non-byte")
		}
		return in.overwrite(st, x, a, &Bytes{n: AC(1), segs: []Seg{{k: sByte, n: AC(1), b: b}}})
	case *SymArr:
		a := e.a
		if a == nil {
			a = AC(int64(e.i))
		}
		if len(path) > 1 {
			w = in.setPath(st, in.symGet(st, x, a), path[1:], w)
		}
		return in.symSet(st, x, a, w)
	}
	in.giveUp("store path into %s", in.Show(st, v))
	return nil
}

func (in *Interp) load(st *State, p Ptr) Value {
	v, ok := st.heap[p.o]
	if !ok {
		in.giveUp("no object %d", p.o)
	}
	v = in.getPath(st, v, p.path)
	if v == nil {
		in.giveUp("load of nothing through %s", ptrKey(p))
	}
	if p.as != nil && p.fld > 0 {
		return in.headerField(st, v, p.fld-1)
	}
	if p.as != nil {
		v = in.reinterpret(st, v, p.as)
	}
	return v
}

// dataPtr is the address of the bytes of a string or slice, as an integer.
type dataPtr struct{ v Value }

// headerField reads a field of a reflect.StringHeader or SliceHeader laid
// over a string or slice.
func (in *Interp) headerField(st *State, v Value, f int) Value {
	switch x := v.(type) {
	case Str:
		switch f {
		case 0:
			return dataPtr{x}
		case 1:
			return mkInt(tInt, x.n)
		}
	case Slice:
		switch f {
		case 0:
			return dataPtr{x}
		case 1:
			return mkInt(tInt, x.len)
		case 2:
			return mkInt(tInt, x.cap)
		}
	case *Struct:
		return x.f[f]
	}
	in.giveUp("field of a reinterpreted pointer to %s", in.Show(st, v))
	return nil
}

func (in *Interp) store(st *State, p Ptr, v Value) {
	w, ok := st.heap[p.o]
	if !ok {
		in.giveUp("no object %d", p.o)
	}
	if p.as != nil {
		in.giveUp("store through a reinterpreted pointer")
	}
	st.set(p.o, in.setPath(st, w, p.path, v))
}

// reinterpret views a value read through a converted pointer.
func (in *Interp) reinterpret(st *State, v Value, t types.Type) Value {
	switch x := v.(type) {
	case *Struct:
		if len(x.f) < 2 {
			return v
		}
		n, ok := x.f[1].(*Int)
		d, ok2 := x.f[0].(dataPtr)
		if !ok || !ok2 {
			if z, ok := x.f[0].(*Int); ok && z.A != nil && z.A.ConstEq(0) {
				return in.zero(t)
			}
			return v
		}
		ln := in.affOf(st, n)
		_, toSlice := t.Underlying().(*types.Slice)
		switch y := d.v.(type) {
		case Str:
			b := in.sub(st, y.Bytes, AC(0), ln)
			if !in.affEq(st, ln, y.n) && !in.entails(st, y.n.Sub(ln)) {
				in.report("a string or slice header claims more bytes than it has", in.cur, in.where(), st)
			}
			if toSlice {
				return in.newBytes(st, b)
			}
			return Str{b}
		case Slice:
			if !in.entails(st, y.cap.Sub(ln)) {
				in.report("a string or slice header claims more bytes than it has", in.cur, in.where(), st)
			}
			if toSlice {
				c := ln
				if len(x.f) > 2 {
					c = in.affOf(st, x.f[2].(*Int))
				}
				return Slice{base: y.base, off: y.off, len: ln, cap: c}
			}
			if y.nilID < 0 {
				return Str{&Bytes{n: AC(0)}}
			}
			y.len = ln
			return Str{in.sliceBytes(st, y)}
		}
		return v
	case Str:
		if sl, ok := t.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			o := in.alloc(st, x.Bytes)
			return Slice{base: Ptr{o: o}, off: AC(0), len: x.n, cap: x.n}
		}
		return x
	case Slice:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return Str{in.sliceBytes(st, x)}
		}
		return x
	}
	return v
}

// sliceBytes is the content of a byte slice.
func (in *Interp) sliceBytes(st *State, x Slice) *Bytes {
	if x.nilID < 0 || x.len.ConstEq(0) {
		return &Bytes{n: AC(0)}
	}
	c := in.getPath(st, st.heap[x.base.o], x.base.path)
	b, ok := c.(*Bytes)
	if !ok {
		in.giveUp("not bytes: %s", in.Show(st, c))
	}
	return in.sub(st, b, x.off, x.len)
}

func (in *Interp) setSliceBytes(st *State, x Slice, at *Aff, c *Bytes) {
	v := in.getPath(st, st.heap[x.base.o], x.base.path)
	b, ok := v.(*Bytes)
	if !ok {
		in.giveUp("not bytes: %s", in.Show(st, v))
	}
	n := in.overwrite(st, b, x.off.Add(at), c)
	st.set(x.base.o, in.setPath(st, st.heap[x.base.o], x.base.path, n))
}

func (in *Interp) newBytes(st *State, b *Bytes) Slice {
	o := in.alloc(st, b)
	return Slice{base: Ptr{o: o}, off: AC(0), len: b.n, cap: b.n}
}

func elemPE(a *Aff) PE {
	if a.IsConst() && a.c.IsInt64() {
		return PE{i: int(a.c.Int64()), a: a}
	}
	return PE{a: a}
}

func addPath(p Ptr, e PE) Ptr {
	n := make([]PE, len(p.path)+1)
	copy(n, p.path)
	n[len(p.path)] = e
	return Ptr{o: p.o, path: n}
}

// concreteIndex forks over the values an index may have when the indexed
// object is a concrete array.
func (in *Interp) concreteIndex(st *State, cont Value, a *Aff, k func(*State, *Aff) []alt) []alt {
	arr, ok := cont.(*Arr)
	if !ok || a.IsConst() {
		return k(st, a)
	}
	r := in.affRange(st, a)
	if r.lo.Cmp(r.hi) == 0 {
		return k(st, ACI(r.lo))
	}
	var out []alt
	lo, hi := r.lo, r.hi
	if hi.Cmp(N(int64(len(arr.e)-1))) > 0 {
		hi = N(int64(len(arr.e) - 1))
	}
	if lo.Sign() < 0 {
		lo = N(0)
	}
	for i := lo; i.Cmp(hi) <= 0; i = i.Add(N(1)) {
		c := eq0(a.Sub(ACI(i)))
		if t, _ := in.can(st, c); !t {
			continue
		}
		o := st.clone()
		in.assume(o, c, true)
		if o.bot {
			continue
		}
		out = append(out, k(o, ACI(i))...)
		if len(out) > 300 {
			in.giveUp("symbolic index with too many values")
		}
	}
	return out
}

func (a *activation) step(it *item, ins ssa.Instruction) []alt {
	in := a.in
	st := it.st
	switch i := ins.(type) {
	case *ssa.Alloc:
		o := in.alloc(st, in.zero(i.Type().Underlying().(*types.Pointer).Elem()))
		return one(st, Ptr{o: o})
	case *ssa.BinOp:
		return in.binop(st, i.Op, a.get(it, i.X), a.get(it, i.Y), i.X.Type(), i.Type())
	case *ssa.UnOp:
		return a.unop(it, i)
	case *ssa.Store:
		v := a.get(it, i.Val)
		return in.deref(st, a.get(it, i.Addr), i.Addr.Type(), func(s *State, p Ptr) []alt {
			in.store(s, p, v)
			return one(s, nil)
		})
	case *ssa.FieldAddr:
		return in.deref(st, a.get(it, i.X), i.X.Type(), func(s *State, p Ptr) []alt {
			if p.as != nil {
				p.fld = i.Field + 1
				return one(s, p)
			}
			return one(s, addPath(p, PE{i: i.Field}))
		})
	case *ssa.Field:
		x, ok := a.get(it, i.X).(*Struct)
		if !ok {
			in.giveUp("field of %s", in.Show(st, a.get(it, i.X)))
		}
		return one(st, x.f[i.Field])
	case *ssa.IndexAddr:
		x, ix := a.get(it, i.X), a.get(it, i.Index)
		idx := in.mustAff(st, ix)
		switch sl := x.(type) {
		case Slice:
			return in.need(st, ge(idx), "index out of range (negative)", func(s *State) []alt {
				return in.need(s, ge(sl.len.Sub(idx).AddC(-1)), "index out of range: "+in.affStr(idx)+" of "+in.affStr(sl.len), func(s *State) []alt {
					if sl.nilID < 0 {
						s.bot = true
						return one(s, nil)
					}
					cont := in.getPath(s, s.heap[sl.base.o], sl.base.path)
					return in.concreteIndex(s, cont, sl.off.Add(idx), func(s *State, x *Aff) []alt {
						return one(s, addPath(sl.base, elemPE(x)))
					})
				})
			})
		}
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return in.deref(st, x, i.X.Type(), func(s *State, p Ptr) []alt {
			return in.need(s, ge(idx), "index out of range (negative)", func(s *State) []alt {
				return in.need(s, ge(AC(at.Len()-1).Sub(idx)), "index out of range: "+in.affStr(idx), func(s *State) []alt {
					cont := in.getPath(s, s.heap[p.o], p.path)
					if arr, ok := cont.(*Arr); ok && !idx.IsConst() && a.onlyLoaded(i) {
						if r := in.affRange(s, idx); r.lo.Cmp(r.hi) != 0 {
							if _, isInt := arr.e[0].(*Int); isInt {
								return one(s, tableRef{arr: arr, i: ix.(*Int)})
							}
						}
					}
					return in.concreteIndex(s, cont, idx, func(s *State, x *Aff) []alt {
						return one(s, addPath(p, elemPE(x)))
					})
				})
			})
		})
	case *ssa.Index:
		x, idx := a.get(it, i.X), in.mustAff(st, a.get(it, i.Index))
		switch x := x.(type) {
		case Str:
			return in.need(st, ge(idx), "index out of range (negative)", func(s *State) []alt {
				return in.need(s, ge(x.n.Sub(idx).AddC(-1)), "index out of range: "+in.affStr(idx)+" of "+in.affStr(x.n), func(s *State) []alt {
					if !idx.IsConst() {
						if v := in.tableOf(s, x.Bytes, a.get(it, i.Index).(*Int)); v != nil {
							return one(s, v)
						}
					}
					return one(s, in.readByte(s, x.Bytes, idx))
				})
			})
		case *Arr:
			return in.need(st, ge(idx), "index out of range (negative)", func(s *State) []alt {
				return in.need(s, ge(AC(int64(len(x.e)-1)).Sub(idx)), "index out of range", func(s *State) []alt {
					return in.concreteIndex(s, x, idx, func(s *State, k *Aff) []alt {
						return one(s, x.e[k.c.Int64()])
					})
				})
			})
		case *Bytes:
			return in.need(st, ge(idx), "index out of range (negative)", func(s *State) []alt {
				return in.need(s, ge(x.n.Sub(idx).AddC(-1)), "index out of range", func(s *State) []alt {
					return one(s, in.readByte(s, x, idx))
				})
			})
		}
		in.giveUp("index of %s", in.Show(st, x))
	case *ssa.Lookup:
		x := a.get(it, i.X)
		if s, ok := x.(Str); ok {
			idx := in.mustAff(st, a.get(it, i.Index))
			return in.need(st, ge(idx), "index out of range (negative)", func(t *State) []alt {
				return in.need(t, ge(s.n.Sub(idx).AddC(-1)), "index out of range", func(t *State) []alt {
					return one(t, in.readByte(t, s.Bytes, idx))
				})
			})
		}
		mt := i.X.Type().Underlying().(*types.Map)
		return in.mapLookup(st, x, a.get(it, i.Index), mt, func(s *State, v Value, found bool) []alt {
			if !found {
				v = in.zero(mt.Elem())
			}
			if i.CommaOk {
				return one(s, Tuple{v, B2(found)})
			}
			return one(s, v)
		})
	case *ssa.MapUpdate:
		m, k, v := a.get(it, i.Map), a.get(it, i.Key), a.get(it, i.Value)
		mt := i.Map.Type().Underlying().(*types.Map)
		switch m := m.(type) {
		case Nil:
			in.S.Sites[in.cur]++
			return []alt{{st: st, pan: in.panicAt("assignment to entry in nil map")}}
		case Opaque:
			return in.need(st, not(Bool{K: 2, C: Cond{op: cNil, id: m.id}}), "assignment to entry in nil map", func(s *State) []alt {
				return one(s, nil)
			})
		}
		return in.mapSet(st, m.(Ptr), k, v, mt)
	case *ssa.MakeMap:
		if i.Reserve != nil {
			in.allocSize(st, in.mustAff(st, a.get(it, i.Reserve)), nil)
		}
		return one(st, Ptr{o: in.alloc(st, &MapV{})})
	case *ssa.MakeChan:
		n := in.mustAff(st, a.get(it, i.Size))
		return in.need(st, ge(n), "makechan: size out of range", func(s *State) []alt {
			return one(s, Ptr{o: in.alloc(s, &ChanV{cap: n})})
		})
	case *ssa.MakeSlice:
		return in.makeSlice(st, i.Type().Underlying().(*types.Slice).Elem(), in.mustAff(st, a.get(it, i.Len)), in.mustAff(st, a.get(it, i.Cap)))
	case *ssa.MakeInterface:
		return one(st, Iface{t: i.X.Type(), v: a.get(it, i.X)})
	case *ssa.ChangeInterface:
		return one(st, a.get(it, i.X))
	case *ssa.ChangeType:
		return one(st, a.get(it, i.X))
	case *ssa.MakeClosure:
		f := Func{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, a.get(it, b))
		}
		return one(st, f)
	case *ssa.Convert:
		return in.convert(st, a.get(it, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		return in.convert(st, a.get(it, i.X), i.X.Type(), i.Type())
	case *ssa.SliceToArrayPointer:
		sl := a.get(it, i.X).(Slice)
		at := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return in.need(st, ge(sl.len.AddC(-at.Len())), "slice to array conversion", func(s *State) []alt {
			if !sl.off.ConstEq(0) {
				in.giveUp("slice to array pointer at an offset")
			}
			return one(s, sl.base)
		})
	case *ssa.Slice:
		return a.slice(it, i)
	case *ssa.Extract:
		t, ok := a.get(it, i.Tuple).(Tuple)
		if !ok {
			in.giveUp("extract of %s", in.Show(st, a.get(it, i.Tuple)))
		}
		return one(st, t[i.Index])
	case *ssa.TypeAssert:
		return in.typeAssert(st, a.get(it, i.X), i)
	case *ssa.Call:
		fv, args := a.callArgs(it, &i.Call)
		return a.call(st, &i.Call, fv, args, i.Pos())
	case *ssa.Range:
		x := a.get(it, i.X)
		switch x := x.(type) {
		case Ptr:
			return one(st, &iter{o: x.o})
		case Nil:
			return one(st, &iter{o: 0})
		case Str:
			return one(st, &iter{o: -1 << 30, n: []Value{x}})
		}
		in.giveUp("range over %s", in.Show(st, x))
	case *ssa.Next:
		return a.next(it, i)
	case *ssa.Send:
		return in.chanSend(st, a.get(it, i.Chan), a.get(it, i.X))
	case *ssa.Select:
		return a.selectStmt(it, i)
	}
	in.giveUp("instruction %T", ins)
	return nil
}

// onlyLoaded reports whether an address is only read.
func (a *activation) onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			if _, ok := r.(*ssa.DebugRef); !ok {
				return false
			}
		}
	}
	return true
}

// tableRef is the address of a table element at an unknown index.
type tableRef struct {
	arr *Arr
	i   *Int
}

// table is the finite function an integer symbol stands for.
type table struct {
	in   *Int // argument
	vals []int64
	lo   int64
}

const maxTable = 256

// lookupTable builds vals[x-lo] for x in the range of the argument.
func (in *Interp) mkTable(st *State, arg *Int, f func(int64) (int64, bool), w int, sg bool) *Int {
	a := in.affOf(st, arg)
	// compose with the table the argument is
	if id, ok := a.Single(); ok {
		if t := in.tables[id]; t != nil {
			g := f
			f2 := func(x int64) (int64, bool) {
				k := x - t.lo
				if k < 0 || k >= int64(len(t.vals)) {
					return 0, false
				}
				return g(t.vals[k])
			}
			return in.mkTable(st, t.in, f2, w, sg)
		}
	}
	r := in.affRange(st, a)
	if !r.lo.IsInt64() || !r.hi.IsInt64() || r.hi.Sub(r.lo).Cmp(N(maxTable)) >= 0 {
		return nil
	}
	lo, hi := r.lo.Int64(), r.hi.Int64()
	var vals []int64
	ident, cst := true, true
	mn, mx := int64(0), int64(0)
	for x := lo; x <= hi; x++ {
		v, ok := f(x)
		if !ok {
			return nil
		}
		if len(vals) == 0 || v < mn {
			mn = v
		}
		if len(vals) == 0 || v > mx {
			mx = v
		}
		vals = append(vals, v)
		if v != x {
			ident = false
		}
		if v != vals[0] {
			cst = false
		}
	}
	if ident {
		return in.convInt(st, arg, w, sg)
	}
	if cst {
		return &Int{W: w, S: sg, A: AC(vals[0])}
	}
	v := in.memoInt(w, sg, fmt.Sprintf("table:%s:%d:%v", a.Key(), lo, vals))
	id, _ := v.A.Single()
	in.tables[id] = &table{in: arg, vals: vals, lo: lo}
	in.narrow(st, id, Iv{N(mn), N(mx)})
	return v
}

func (in *Interp) tableOf(st *State, b *Bytes, arg *Int) Value {
	var vals []int64
	for _, g := range b.segs {
		if g.k != sByte || g.b.A == nil || !g.b.A.IsConst() {
			return nil
		}
		vals = append(vals, g.b.A.c.Int64())
	}
	if v := in.mkTable(st, arg, func(x int64) (int64, bool) {
		if x < 0 || x >= int64(len(vals)) {
			return 0, false
		}
		return vals[x], true
	}, 8, false); v != nil {
		return v
	}
	return nil
}

func (a *activation) unop(it *item, i *ssa.UnOp) []alt {
	in, st := a.in, it.st
	x := a.get(it, i.X)
	switch i.Op {
	case token.MUL:
		if t, ok := x.(tableRef); ok {
			w, sg, _ := basicInfo(i.Type())
			v := in.mkTable(st, t.i, func(x int64) (int64, bool) {
				if x < 0 || x >= int64(len(t.arr.e)) {
					return 0, false
				}
				e, ok := t.arr.e[x].(*Int)
				if !ok || e.A == nil || !e.A.IsConst() {
					return 0, false
				}
				return e.A.c.Int64(), true
			}, w, sg)
			if v == nil {
				return one(st, in.freshInt(i.Type(), "table"))
			}
			return one(st, v)
		}
		return in.deref(st, x, i.X.Type(), func(s *State, p Ptr) []alt {
			return one(s, in.load(s, p))
		})
	case token.NOT:
		return one(st, not(x.(Bool)))
	case token.SUB:
		if v, ok := x.(*Int); ok {
			return one(st, in.intOp(st, token.SUB, &Int{W: v.W, S: v.S, A: AC(0)}, v))
		}
		in.nopq++
		return one(st, Term{"neg:" + in.Show(st, x)})
	case token.XOR:
		v := x.(*Int)
		return one(st, in.intOp(st, token.XOR, v, &Int{W: v.W, S: v.S, A: ACI(wrap(N(-1), v.W, v.S))}))
	case token.ARROW:
		return in.chanRecv(st, x, i.X.Type().Underlying().(*types.Chan).Elem(), func(s *State, v Value, ok Bool) []alt {
			if i.CommaOk {
				return one(s, Tuple{v, ok})
			}
			return one(s, v)
		}, true)
	}
	in.giveUp("operator %s", i.Op)
	return nil
}

func (in *Interp) binop(st *State, op token.Token, x, y Value, t, rt types.Type) []alt {
	switch op {
	case token.EQL:
		return one(st, in.equalT(st, x, y, t))
	case token.NEQ:
		return one(st, not(in.equalT(st, x, y, t)))
	}
	switch a := x.(type) {
	case *Int:
		b := y.(*Int)
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one(st, in.compare(st, op, a, b))
		case token.QUO, token.REM:
			return in.need(st, not(eq0(in.affOf(st, b))), "integer divide by zero", func(s *State) []alt {
				return one(s, in.intOp(s, op, a, b))
			})
		case token.SHL, token.SHR:
			if b.S {
				return in.need(st, ge(in.affOf(st, b)), "negative shift amount", func(s *State) []alt {
					return one(s, in.intOp(s, op, a, b))
				})
			}
		}
		return one(st, in.intOp(st, op, a, b))
	case Str:
		b := y.(Str)
		if op == token.ADD {
			return one(st, Str{concat(a.Bytes, b.Bytes)})
		}
		return one(st, in.memoBool(op.String()+in.showBytes(st, a.Bytes)+":"+in.showBytes(st, b.Bytes)))
	case Bool:
		b := y.(Bool)
		if b.K < 2 {
			a, b = b, a
		}
		switch op {
		case token.AND, token.LAND:
			if a.K == 0 {
				return one(st, False)
			}
			if a.K == 1 {
				return one(st, b)
			}
		case token.OR, token.LOR:
			if a.K == 1 {
				return one(st, True)
			}
			if a.K == 0 {
				return one(st, b)
			}
		}
		return one(st, in.freshBool())
	case Term:
		key := op.String() + ":" + a.key + ":" + in.Show(st, y)
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one(st, in.memoBool(key))
		}
		return one(st, Term{key})
	}
	in.giveUp("operator %s on %s", op, in.Show(st, x))
	return nil
}

// equalT compares values; comparing interfaces holding incomparable types
// panics at run time and is reported through Comparable by the caller.
func (in *Interp) equalT(st *State, x, y Value, t types.Type) Bool {
	return in.settle(st, in.equal(st, x, y))
}

func (in *Interp) makeSlice(st *State, et types.Type, n, c *Aff) []alt {
	return in.need(st, ge(n), "makeslice: len out of range", func(s *State) []alt {
		return in.need(s, ge(c.Sub(n)), "makeslice: cap out of range", func(s *State) []alt {
			return in.need(s, ge(ACI(maxMake).Sub(c)), "makeslice: unbounded length "+in.affStr(c), func(s *State) []alt {
				in.allocSize(s, c, et)
				var v Value
				switch {
				case isByte(et):
					v = &Bytes{n: c, segs: []Seg{{k: sZero, n: c}}}
				case c.IsConst() && c.c.Cmp(N(64)) <= 0:
					x := &Arr{e: make([]Value, c.c.Int64()), t: et}
					for i := range x.e {
						x.e[i] = in.zero(et)
					}
					v = x
				default:
					v = &SymArr{n: c, t: et, zero: true}
				}
				return one(s, Slice{base: Ptr{o: in.alloc(s, v)}, off: AC(0), len: n, cap: c})
			})
		})
	})
}

func (a *activation) slice(it *item, i *ssa.Slice) []alt {
	in, st := a.in, it.st
	x := a.get(it, i.X)
	arg := func(v ssa.Value) *Aff {
		if v == nil {
			return nil
		}
		return in.mustAff(st, a.get(it, v))
	}
	lo, hi, max := arg(i.Low), arg(i.High), arg(i.Max)
	if lo == nil {
		lo = AC(0)
	}
	chk := func(s *State, n, c *Aff, k func(*State, *Aff, *Aff, *Aff) []alt) []alt {
		h, m := hi, max
		if h == nil {
			h = n
		}
		if m == nil {
			m = c
		}
		return in.need(s, ge(lo), "slice bounds out of range (negative low)", func(s *State) []alt {
			return in.need(s, ge(h.Sub(lo)), "slice bounds out of range: "+in.affStr(lo)+" > "+in.affStr(h), func(s *State) []alt {
				return in.need(s, ge(m.Sub(h)), "slice bounds out of range: "+in.affStr(h)+" > "+in.affStr(m), func(s *State) []alt {
					return in.need(s, ge(c.Sub(m)), "slice bounds out of range (max)", func(s *State) []alt {
						return k(s, lo, h, m)
					})
				})
			})
		})
	}
	switch x := x.(type) {
	case Str:
		return chk(st, x.n, x.n, func(s *State, l, h, m *Aff) []alt {
			return one(s, Str{in.sub(s, x.Bytes, l, h.Sub(l))})
		})
	case Slice:
		return chk(st, x.len, x.cap, func(s *State, l, h, m *Aff) []alt {
			if x.nilID < 0 {
				return one(s, x)
			}
			return one(s, Slice{nilID: x.nilID, base: x.base, off: x.off.Add(l), len: h.Sub(l), cap: m.Sub(l)})
		})
	}
	at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	n := AC(at.Len())
	return in.deref(st, x, i.X.Type(), func(s *State, p Ptr) []alt {
		return chk(s, n, n, func(s *State, l, h, m *Aff) []alt {
			return one(s, Slice{base: p, off: l, len: h.Sub(l), cap: m.Sub(l)})
		})
	})
}

func (in *Interp) convert(st *State, v Value, from, to types.Type) []alt {
	if w, sg, ok := basicInfo(to); ok {
		switch x := v.(type) {
		case dataPtr:
			return one(st, x)
		case *Int:
			if k := to.Underlying().(*types.Basic).Kind(); k == types.Int && x.W == IntW && IntW == 32 && x.A == nil && in.fitsBounds(st, x, w, sg) {
				// a number its bits could not tell to be positive
				return one(st, &Int{W: w, S: sg, A: in.affOf(st, x)})
			}
			return one(st, in.convInt(st, x, w, sg))
		case Term:
			return one(st, in.memoInt(w, sg, "conv:"+x.key))
		case Ptr: // uintptr
			v := in.memoInt(w, sg, "ptr:"+ptrKey(x))
			if id, ok := v.A.Single(); ok {
				in.ptrInts[id] = x
				in.narrow(st, id, Iv{pow2(IntW / 2), pow2(IntW - 1).Sub(N(1))})
			}
			return one(st, v)
		}
		return one(st, in.freshInt(to, "conv"))
	}
	switch u := to.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return one(st, x)
			case Slice:
				if isByte(from.Underlying().(*types.Slice).Elem()) {
					return one(st, Str{in.sliceBytes(st, x)})
				}
			}
			return one(st, in.havoc(st, to, "string"))
		case u.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case Term:
				fb, ok := from.Underlying().(*types.Basic)
				if ok && fb.Kind() == u.Kind() {
					return one(st, x)
				}
				// float32 -> float64 -> float32 is the identity
				if u.Kind() == types.Float32 && len(x.key) > 4 && x.key[:4] == "f64:" {
					return one(st, Term{x.key[4:]})
				}
				if u.Kind() == types.Float64 {
					return one(st, Term{"f64:" + x.key})
				}
				return one(st, Term{"f32:" + x.key})
			case *Int:
				return one(st, Term{"flt:" + u.Name() + ":" + in.Show(st, x)})
			}
		case u.Kind() == types.UnsafePointer:
			if x, ok := v.(*Int); ok {
				if p, ok := in.ptrOfInt(x); ok {
					return one(st, p)
				}
				in.nopq++
				return one(st, Opaque{id: in.nopq, name: "pointer", t: to, mayNil: true})
			}
			return one(st, v)
		}
	case *types.Slice:
		if s, ok := v.(Str); ok && isByte(u.Elem()) {
			return one(st, in.newBytes(st, s.Bytes))
		}
		if s, ok := v.(Slice); ok {
			return one(st, s)
		}
		return one(st, in.havoc(st, to, "conv"))
	case *types.Pointer:
		if p, ok := v.(Ptr); ok {
			if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer && !in.isPtrInt(p, u.Elem()) {
				p.as = u.Elem()
			}
			return one(st, p)
		}
		if _, ok := v.(Nil); ok {
			return one(st, v)
		}
	}
	return one(st, v)
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (in *Interp) typeAssert(st *State, x Value, i *ssa.TypeAssert) []alt {
	t := i.AssertedType
	ret := func(s *State, v Value, ok bool) []alt {
		if i.CommaOk {
			if !ok {
				v = in.zero(t)
			}
			return one(s, Tuple{v, B2(ok)})
		}
		if !ok {
			return []alt{{st: s, pan: in.panicAt(fmt.Sprintf("interface conversion: %s is not %v", in.Show(s, x), t))}}
		}
		return one(s, v)
	}
	if !i.CommaOk {
		in.S.Sites[in.cur]++
	}
	iface, isI := t.Underlying().(*types.Interface)
	switch x := x.(type) {
	case Nil:
		return ret(st, nil, false)
	case Iface:
		if isI {
			if in.implements(x.t, iface) {
				return ret(st, x, true)
			}
			return ret(st, nil, false)
		}
		if types.Identical(x.t, t) {
			return ret(st, x.v, true)
		}
		return ret(st, nil, false)
	case Opaque:
		nilC := Bool{K: 0}
		if x.mayNil {
			nilC = in.settle(st, Bool{K: 2, C: Cond{op: cNil, id: x.id}})
		}
		return in.branch(st, nilC, func(s *State) []alt { return ret(s, nil, false) }, func(s *State) []alt {
			if isI && in.implements(x.t, iface) {
				return ret(s, x, true)
			}
			c := in.settle(s, in.memoBool(fmt.Sprintf("is:%d:%s", x.id, t)))
			return in.branch(s, c, func(s *State) []alt {
				// exclusive with other concrete types
				if isI {
					return ret(s, x, true)
				}
				key := fmt.Sprintf("as:%d:%s", x.id, t)
				k2 := fmt.Sprintf("dyn:%d", x.id)
				if in.dynSet(s, k2, t.String()) {
					s.bot = true
					return one(s, nil)
				}
				v, ok := in.opqVal[key]
				if !ok {
					v = in.havoc(s, t, x.name)
					in.opqVal[key] = v
				} else if sl, ok := v.(Slice); ok {
					if _, ok := s.heap[sl.base.o]; !ok {
						in.reheap(s, sl, t)
					}
				}
				return ret(s, v, true)
			}, func(s *State) []alt { return ret(s, nil, false) })
		})
	}
	in.giveUp("type assertion on %s", in.Show(st, x))
	return nil
}

// dynSet records the dynamic type of an opaque value; it reports a clash.
func (in *Interp) dynSet(s *State, k, t string) bool {
	for e := range s.eqs {
		if len(e) > len(k) && e[:len(k)+1] == k+"=" {
			return e != k+"="+t
		}
	}
	s.eqs[k+"="+t] = true
	return false
}

func (in *Interp) reheap(s *State, sl Slice, t types.Type) {
	u := t.Underlying().(*types.Slice)
	if isByte(u.Elem()) {
		s.set(sl.base.o, in.refBytes("opaque", sl.len))
	} else {
		s.set(sl.base.o, &SymArr{n: sl.len, t: u.Elem()})
	}
}

// maps

func (in *Interp) mapOf(st *State, m Value) (*MapV, int) {
	p, ok := m.(Ptr)
	if !ok {
		in.giveUp("map %s", in.Show(st, m))
	}
	v, ok := st.heap[p.o].(*MapV)
	if !ok {
		in.giveUp("map object %s", in.Show(st, st.heap[p.o]))
	}
	return v, p.o
}

func (in *Interp) mapLookup(st *State, m, k Value, mt *types.Map, cont func(*State, Value, bool) []alt) []alt {
	switch x := m.(type) {
	case Nil:
		return cont(st, nil, false)
	case Opaque:
		return in.branch(st, in.freshBool(), func(s *State) []alt {
			return cont(s, in.havoc(s, mt.Elem(), x.name+"[]"), true)
		}, func(s *State) []alt { return cont(s, nil, false) })
	}
	if u, ok := k.(Iface); ok && !types.Comparable(u.t) {
		return []alt{{st: st, pan: in.panicAt("hash of unhashable type")}}
	}
	mv, o := in.mapOf(st, m)
	var rec func(s *State, i int) []alt
	rec = func(s *State, i int) []alt {
		if i == len(mv.keys) {
			if !mv.open {
				return cont(s, nil, false)
			}
			return in.branch(s, in.freshBool(), func(s *State) []alt {
				v := in.havoc(s, mt.Elem(), "map element")
				cur := s.heap[o].(*MapV)
				s.set(o, &MapV{open: true, keys: append(cur.keys[:len(cur.keys):len(cur.keys)], k), vals: append(cur.vals[:len(cur.vals):len(cur.vals)], v)})
				return cont(s, v, true)
			}, func(s *State) []alt {
				return cont(s, nil, false)
			})
		}
		return in.branch(s, in.settle(s, in.equal(s, mv.keys[i], k)), func(s *State) []alt {
			return cont(s, mv.vals[i], true)
		}, func(s *State) []alt { return rec(s, i+1) })
	}
	return rec(st, 0)
}

func (in *Interp) mapSet(st *State, m Ptr, k, v Value, mt *types.Map) []alt {
	if u, ok := k.(Iface); ok && !types.Comparable(u.t) {
		return []alt{{st: st, pan: in.panicAt("hash of unhashable type")}}
	}
	mv, o := in.mapOf(st, m)
	var rec func(s *State, i int) []alt
	rec = func(s *State, i int) []alt {
		if i == len(mv.keys) {
			s.set(o, &MapV{open: mv.open, keys: append(mv.keys[:i:i], k), vals: append(mv.vals[:i:i], v)})
			return one(s, nil)
		}
		return in.branch(s, in.settle(s, in.equal(s, mv.keys[i], k)), func(s *State) []alt {
			n := &MapV{open: mv.open, keys: mv.keys, vals: append([]Value(nil), mv.vals...)}
			n.vals[i] = v
			s.set(o, n)
			return one(s, nil)
		}, func(s *State) []alt { return rec(s, i+1) })
	}
	return rec(st, 0)
}

func (in *Interp) mapDelete(st *State, m, k Value) []alt {
	if _, ok := m.(Nil); ok {
		return one(st, nil)
	}
	if _, ok := m.(Opaque); ok {
		return one(st, nil)
	}
	mv, o := in.mapOf(st, m)
	var rec func(s *State, i int) []alt
	rec = func(s *State, i int) []alt {
		if i == len(mv.keys) {
			return one(s, nil)
		}
		return in.branch(s, in.settle(s, in.equal(s, mv.keys[i], k)), func(s *State) []alt {
			n := &MapV{open: mv.open}
			for j := range mv.keys {
				if j != i {
					n.keys = append(n.keys, mv.keys[j])
					n.vals = append(n.vals, mv.vals[j])
				}
			}
			s.set(o, n)
			return one(s, nil)
		}, func(s *State) []alt { return rec(s, i+1) })
	}
	return rec(st, 0)
}

func (a *activation) next(it *item, i *ssa.Next) []alt {
	in, st := a.in, it.st
	x := a.get(it, i.Iter).(*iter)
	tt := i.Type().(*types.Tuple)
	none := func(s *State) []alt {
		return one(s, Tuple{False, in.zeroOr(tt.At(1).Type()), in.zeroOr(tt.At(2).Type())})
	}
	if i.IsString {
		// code points are not tracked
		k := in.freshInt(tInt, "i")
		r := in.freshInt(types.Typ[types.Int32], "rune")
		id, _ := k.A.Single()
		st.setRng(id, Iv{N(0), MaxLen})
		return one(st, Tuple{in.freshBool(), k, r})
	}
	if x.o == 0 {
		return none(st)
	}
	mv := st.heap[x.o].(*MapV)
	if x.i >= len(mv.keys) {
		if !mv.open {
			return none(st)
		}
		return in.branch(st, in.freshBool(), func(s *State) []alt {
			mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			return one(s, Tuple{True, in.havoc(s, mt.Key(), "key"), in.havoc(s, mt.Elem(), "element")})
		}, none)
	}
	// the iterator is a register value: replace it
	r := a.f.num[i.Iter]
	it.env[r] = &iter{o: x.o, i: x.i + 1}
	return one(st, Tuple{True, mv.keys[x.i], mv.vals[x.i]})
}

func (in *Interp) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Uninit{}
	}
	return in.zero(t)
}

// channels

func (in *Interp) chanOf(st *State, c Value) (*ChanV, int, bool) {
	p, ok := c.(Ptr)
	if !ok {
		return nil, 0, false
	}
	v, ok := in.getPath(st, st.heap[p.o], p.path).(*ChanV)
	return v, p.o, ok
}

func (in *Interp) chanSend(st *State, c, v Value) []alt {
	return in.chanSend2(st, c, v, false)
}

// chanSend2 sends; when probing, a full channel yields no alternative.
func (in *Interp) chanSend2(st *State, c, v Value, probe bool) []alt {
	switch x := c.(type) {
	case Nil:
		if probe {
			return nil
		}
		return in.wait(st, func(s *State) []alt { return in.chanSend2(s, c, v, probe) }, wop{c, true, in.cur})
	case Opaque:
		_ = x
		return one(st, nil)
	}
	ch, o, ok := in.chanOf(st, c)
	if !ok {
		in.giveUp("send on %s", in.Show(st, c))
	}
	in.S.Sites[in.cur]++
	if ch.closed {
		return []alt{{st: st, pan: in.panicAt("send on closed channel")}}
	}
	room := ge(ch.cap.AddC(-1 - int64(len(ch.buf))))
	push := func(s *State) []alt {
		s.set(o, &ChanV{cap: ch.cap, buf: append(ch.buf[:len(ch.buf):len(ch.buf)], v)})
		return one(s, nil)
	}
	return in.branch(st, room, push, func(s *State) []alt {
		if probe {
			return nil
		}
		return in.wait(s, func(s *State) []alt { return in.chanSend2(s, c, v, probe) }, wop{c, true, in.cur})
	})
}

func (in *Interp) chanRecv(st *State, c Value, et types.Type, k func(*State, Value, Bool) []alt, block bool) []alt {
	switch x := c.(type) {
	case Nil:
		if block {
			return in.wait(st, func(s *State) []alt { return in.chanRecv(s, c, et, k, true) }, wop{c, false, in.cur})
		}
		return nil
	case Opaque:
		return in.branch(st, in.freshBool(), func(s *State) []alt {
			return k(s, in.havoc(s, et, x.name), True)
		}, func(s *State) []alt { return k(s, in.zero(et), False) })
	}
	ch, o, ok := in.chanOf(st, c)
	if !ok {
		in.giveUp("receive from %s", in.Show(st, c))
	}
	if len(ch.buf) > 0 {
		st.set(o, &ChanV{cap: ch.cap, closed: ch.closed, buf: ch.buf[1:]})
		return k(st, ch.buf[0], True)
	}
	if ch.closed {
		return k(st, in.zero(et), False)
	}
	if block {
		return in.wait(st, func(s *State) []alt { return in.chanRecv(s, c, et, k, true) }, wop{c, false, in.cur})
	}
	return nil
}

// wait lets the goroutines started so far run, in any order, until the
// operation retried can go on; a goroutine that waits itself stays parked.
func (in *Interp) wait(st *State, retry func(*State) []alt, on ...wop) []alt {
	if len(st.spawns) == 0 {
		st.waits = append(st.waits[:len(st.waits):len(st.waits)], on...)
		return []alt{{st: st, blocked: true}}
	}
	return in.runAny(st, retry)
}

// runAny runs any one of the goroutines started so far and goes on.
func (in *Interp) runAny(st *State, k func(*State) []alt) []alt {
	var out []alt
	n := len(st.spawns)
	for i := 0; i < n; i++ {
		s := st
		if i+1 < n {
			s = st.clone()
		}
		sp := s.spawns[i]
		s.spawns = append(append([]spawn(nil), s.spawns[:i]...), s.spawns[i+1:]...)
		for _, x := range in.runSpawn(s, sp) {
			if x.pan != nil {
				out = append(out, x)
				continue
			}
			out = append(out, k(x.st)...)
		}
	}
	return out
}

func (a *activation) selectStmt(it *item, i *ssa.Select) []alt {
	in := a.in
	tt := i.Type().(*types.Tuple)
	var out []alt
	recvIdx := 0
	ready := false // surely ready
	for k, s := range i.States {
		st := it.st.clone()
		ch := a.get(it, s.Chan)
		base := make(Tuple, tt.Len())
		base[0] = &Int{W: IntW, S: true, A: AC(int64(k))}
		base[1] = False
		for j := 2; j < tt.Len(); j++ {
			base[j] = in.zero(tt.At(j).Type())
		}
		if s.Dir == types.SendOnly {
			al := in.chanSend2(st, ch, a.get(it, s.Send), true)
			for _, x := range al {
				if x.pan == nil {
					x.v = base
				}
				out = append(out, x)
			}
			if _, opq := ch.(Opaque); !opq && len(al) > 0 {
				ready = true
			}
			continue
		}
		slot := 2 + recvIdx
		recvIdx++
		al := in.chanRecv(st, ch, tt.At(slot).Type(), func(s *State, v Value, ok Bool) []alt {
			b := append(Tuple(nil), base...)
			b[1] = ok
			b[slot] = v
			return one(s, b)
		}, false)
		if _, opq := ch.(Opaque); !opq && len(al) > 0 {
			ready = true
		}
		out = append(out, al...)
	}
	if !ready {
		if !i.Blocking {
			base := make(Tuple, tt.Len())
			base[0] = &Int{W: IntW, S: true, A: AC(-1)}
			base[1] = False
			for j := 2; j < tt.Len(); j++ {
				base[j] = in.zero(tt.At(j).Type())
			}
			out = append(out, alt{st: it.st, v: base})
		} else if len(out) == 0 {
			out = in.wait(it.st, func(s *State) []alt {
				c := *it
				c.st = s
				return a.selectStmt(&c, i)
			}, a.waitsOn(it, i)...)
		}
	}
	return out
}

// waitsOn gives the operations of a select statement.
func (a *activation) waitsOn(it *item, i *ssa.Select) []wop {
	var r []wop
	for _, s := range i.States {
		r = append(r, wop{a.get(it, s.Chan), s.Dir == types.SendOnly, i.Pos()})
	}
	return r
}

// stuck reports whether none of the operations waited for can go on.
func (in *Interp) stuck(st *State) bool {
	for _, w := range st.waits {
		if _, ok := w.ch.(Nil); ok {
			continue
		}
		ch, _, ok := in.chanOf(st, w.ch)
		if !ok || ch.closed {
			return false
		}
		if w.send {
			if b := in.settle(st, ge(ch.cap.AddC(-1-int64(len(ch.buf))))); b.K != 0 {
				return false
			}
		} else if len(ch.buf) > 0 {
			return false
		}
	}
	return true
}

// isPtrInt reports whether p went through an integer and comes back as what
// it was.
func (in *Interp) isPtrInt(p Ptr, t types.Type) bool {
	for _, q := range in.ptrInts {
		if ptrKey(q) == ptrKey(p) {
			return true
		}
	}
	return false
}
