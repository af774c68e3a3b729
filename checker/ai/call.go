package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *activation) callArgs(it *item, c *ssa.CallCommon) (Value, []Value) {
	fv := a.get(it, c.Value)
	args := make([]Value, len(c.Args))
	for i, x := range c.Args {
		args[i] = a.get(it, x)
	}
	return fv, args
}

func (a *activation) call(st *State, c *ssa.CallCommon, fv Value, args []Value, pos token.Pos) []alt {
	in := a.in
	in.S.Calls++
	if c.IsInvoke() {
		return in.invoke(st, fv, c.Method, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, b, c, args)
	}
	return in.callValue(st, fv, args, c.Signature(), pos)
}

func (in *Interp) invoke(st *State, recv Value, m *types.Func, args []Value, pos token.Pos) []alt {
	switch x := recv.(type) {
	case Nil:
		in.S.Sites[in.cur]++
		return []alt{{st: st, pan: in.panicAt("method call on nil interface: " + m.Name())}}
	case Iface:
		fn := in.Prog.LookupMethod(x.t, m.Pkg(), m.Name())
		if fn == nil {
			in.giveUp("no method %s of %v", m.Name(), x.t)
		}
		return in.callFn(st, fn, append([]Value{x.v}, args...), nil, pos)
	case Opaque:
		isNil := Bool{K: 0}
		if x.mayNil {
			isNil = Bool{K: 2, C: Cond{op: cNil, id: x.id}}
		}
		return in.need(st, not(isNil), "method call on a nil interface: "+x.name+"."+m.Name(), func(s *State) []alt {
			return in.opaqueCall(s, fmt.Sprintf("%s.%s", x.name, m.Name()), m.Type().(*types.Signature), m.Name(), &x, args)
		})
	}
	in.giveUp("method %s of %s", m.Name(), in.Show(st, recv))
	return nil
}

func (in *Interp) callValue(st *State, fv Value, args []Value, sig *types.Signature, pos token.Pos) []alt {
	switch f := fv.(type) {
	case Func:
		if f.native != "" {
			if f.native == "invoke" {
				return in.invoke(st, args[0], f.binds[1].(*types.Func), args[1:], pos)
			}
			in.giveUp("function value %s", f.native)
		}
		return in.callFn(st, f.fn, args, f.binds, pos)
	case Nil:
		in.S.Sites[in.cur]++
		return []alt{{st: st, pan: in.panicAt("call of a nil function")}}
	case Opaque:
		isNil := Bool{K: 0}
		if f.mayNil {
			isNil = Bool{K: 2, C: Cond{op: cNil, id: f.id}}
		}
		return in.need(st, not(isNil), "call of a nil function: "+f.name, func(s *State) []alt {
			return in.opaqueCall(s, f.name+"()", sig, "", nil, args)
		})
	}
	in.giveUp("call of %s", in.Show(st, fv))
	return nil
}

// getters of interfaces with no side effects: equal calls give equal results.
var pureMethods = map[string]bool{"Error": true, "Data": true, "Metadata": true, "String": true, "Err": true, "Done": true}

func (in *Interp) opaqueCall(st *State, name string, sig *types.Signature, method string, recv *Opaque, args []Value) []alt {
	in.S.Opaque[name]++
	var v Value
	rt := sig.Results()
	mk := func(n string) Value {
		switch rt.Len() {
		case 0:
			return nil
		case 1:
			return in.havoc(st, rt.At(0).Type(), n)
		}
		return in.havoc(st, rt, n)
	}
	if recv != nil && pureMethods[method] && len(args) == 0 {
		key := fmt.Sprintf("pure:%d:%s", recv.id, method)
		if w, ok := in.opqVal[key]; ok {
			if sl, ok := w.(Slice); ok {
				if _, ok := st.heap[sl.base.o]; !ok {
					st.set(sl.base.o, in.opqBytes(key, sl))
				}
			}
			return one(st, w)
		}
		v = mk(name)
		in.opqVal[key] = v
		if sl, ok := v.(Slice); ok {
			in.opqVal[key+":bytes"] = st.heap[sl.base.o]
		}
		return one(st, v)
	}
	return one(st, mk(name))
}
func (in *Interp) opqBytes(key string, sl Slice) Value { return in.opqVal[key+":bytes"] }

func (in *Interp) callFn(st *State, fn *ssa.Function, args, binds []Value, pos token.Pos) []alt {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	save := in.cur
	if pos.IsValid() {
		in.cur = pos
	}
	m := in.models[name]
	if i := strings.LastIndex(name, "/"); m == nil && i >= 0 && !strings.Contains(name, "(") && !strings.HasPrefix(name, in.RepoPath) {
		m = in.models[name[i+1:]]
	}
	if m != nil {
		fn, name = m, m.String()
	}
	if n, ok := natives[name]; ok {
		r := n(in, st, &ncall{fn: fn, args: args, pos: pos})
		in.cur = save
		return r
	}
	if strings.Contains(name, zzPath+".") {
		if r, ok := in.zz(st, fn, name, args); ok {
			in.cur = save
			return r
		}
	}
	if !in.interprets(fn) {
		return in.external(st, fn, args)
	}
	var r []alt
	for _, o := range in.exec(st, fn, args, binds, pos) {
		r = append(r, alt{st: o.st, v: o.ret, pan: o.pan, blocked: o.blocked})
	}
	in.cur = save
	return r
}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

// interprets tells the functions whose source is analysed.
func (in *Interp) interprets(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	p := fnPkg(fn)
	if p == "" || strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") {
		return true // of methods
	}
	if strings.HasPrefix(p, in.RepoPath) {
		return true
	}
	switch p {
	case "encoding/binary":
		return !strings.Contains(fn.Name(), "Size") && fn.Name() != "Read" && fn.Name() != "Write"
	case "internal/stringslite", "strings":
		switch fn.Name() {
		case "HasPrefix", "HasSuffix", "TrimPrefix", "TrimSuffix", "CutPrefix", "CutSuffix":
			return true
		}
		return false
	case "bytes":
		switch fn.Name() {
		case "HasPrefix", "HasSuffix", "TrimPrefix", "TrimSuffix", "CutPrefix", "CutSuffix", "Equal":
			return fn.Signature.Recv() == nil
		}
		return strings.HasPrefix(fn.String(), "(*bytes.Buffer)") || fn.Name() == "NewBuffer" || fn.Name() == "NewReader" || strings.HasPrefix(fn.String(), "(*bytes.Reader)")
	case "context":
		switch fn.Name() {
		case "Background", "TODO", "value":
			return true
		case "Value", "Done", "Err", "Deadline":
			return fn.Signature.Recv() != nil
		}
		return false
	case "errors":
		return fn.Name() == "New" || strings.HasPrefix(fn.String(), "(*errors.errorString)")
	case "io":
		return fn.Name() == "ReadFull" || fn.Name() == "ReadAtLeast"
	case "encoding/hex":
		return fn.Name() == "Encode" || fn.Name() == "EncodedLen" || fn.Name() == "DecodedLen"
	case "github.com/tetratelabs/wabin/leb128":
		return strings.HasPrefix(fn.Name(), "Decode")
	case "slices":
		return fn.Name() == "Grow"
	}
	return false
}

// external models a function whose source is not analysed: unknown results.
func (in *Interp) external(st *State, fn *ssa.Function, args []Value) []alt {
	in.S.Opaque[fn.String()]++
	rt := fn.Signature.Results()
	switch rt.Len() {
	case 0:
		return one(st, nil)
	case 1:
		return one(st, in.havoc(st, rt.At(0).Type(), fn.Name()))
	}
	return one(st, in.havoc(st, rt, fn.Name()))
}

func (in *Interp) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value) []alt {
	switch b.Name() {
	case "len", "cap":
		var a *Aff
		switch x := args[0].(type) {
		case Str:
			a = x.n
		case Slice:
			a = x.len
			if b.Name() == "cap" {
				a = x.cap
			}
		case Nil:
			a = AC(0)
		case Opaque:
			v := in.memoInt(IntW, true, fmt.Sprintf("len:%d", x.id))
			id, _ := v.A.Single()
			in.narrow(st, id, Iv{N(0), MaxLen})
			a = v.A
		case Ptr:
			switch y := in.getPath(st, st.heap[x.o], x.path).(type) {
			case *MapV:
				if y.open {
					a = in.freshLen("map")
					in.addFact(st, a.AddC(-int64(len(y.keys))))
				} else {
					a = AC(int64(len(y.keys)))
				}
			case *ChanV:
				a = AC(int64(len(y.buf)))
				if b.Name() == "cap" {
					a = y.cap
				}
			case *Bytes:
				a = y.n
			case *Arr:
				a = AC(int64(len(y.e)))
			case *SymArr:
				a = y.n
			}
		case *Bytes:
			a = x.n
		case *Arr:
			a = AC(int64(len(x.e)))
		}
		if a == nil {
			in.giveUp("len of %s", in.Show(st, args[0]))
		}
		return one(st, mkInt(tInt, a))
	case "append":
		return in.appendB(st, args, c.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		return in.copyB(st, args)
	case "delete":
		return in.mapDelete(st, args[0], args[1])
	case "close":
		in.S.Sites[in.cur]++
		switch args[0].(type) {
		case Nil:
			return []alt{{st: st, pan: in.panicAt("close of nil channel")}}
		case Opaque:
			return one(st, nil)
		}
		ch, o, _ := in.chanOf(st, args[0])
		if ch.closed {
			return []alt{{st: st, pan: in.panicAt("close of closed channel")}}
		}
		st.set(o, &ChanV{cap: ch.cap, buf: ch.buf, closed: true})
		return one(st, nil)
	case "recover":
		if st.panicking > 0 {
			st.recovered = st.panicking
			in.nopq++
			return one(st, Opaque{id: in.nopq, name: "recovered", t: types.NewInterfaceType(nil, nil)})
		}
		return one(st, Nil{})
	case "print", "println":
		return one(st, nil)
	case "min", "max":
		r := []alt{{st: st, v: args[0]}}
		for _, y := range args[1:] {
			var n []alt
			for _, x := range r {
				xi, ok1 := x.v.(*Int)
				yi, ok2 := y.(*Int)
				if !ok1 || !ok2 {
					n = append(n, alt{st: x.st, v: in.havoc(x.st, c.Args[0].Type(), b.Name())})
					continue
				}
				cnd := in.compare(x.st, token.LEQ, xi, yi)
				if b.Name() == "max" {
					cnd = in.compare(x.st, token.GEQ, xi, yi)
				}
				n = append(n, in.branch(x.st, cnd, func(s *State) []alt { return one(s, xi) }, func(s *State) []alt { return one(s, yi) })...)
			}
			r = n
		}
		return r
	case "ssa:wrapnilchk":
		switch x := args[0].(type) {
		case Nil:
			return []alt{{st: st, pan: in.panicAt("nil pointer dereference")}}
		case Opaque:
			if x.mayNil {
				return in.need(st, not(Bool{K: 2, C: Cond{op: cNil, id: x.id}}), "nil pointer dereference of "+x.name, func(s *State) []alt { return one(s, x) })
			}
		}
		return one(st, args[0])
	case "String": // unsafe.String
		p, ok := args[0].(Ptr)
		n := in.mustAff(st, args[1])
		if n.ConstEq(0) {
			return one(st, Str{&Bytes{n: AC(0)}})
		}
		if ok && len(p.path) > 0 {
			e := p.path[len(p.path)-1]
			at := e.a
			if at == nil {
				at = AC(int64(e.i))
			}
			if b, ok := in.getPath(st, st.heap[p.o], p.path[:len(p.path)-1]).(*Bytes); ok {
				return one(st, Str{in.sub(st, b, at, n)})
			}
		}
		return one(st, Str{in.refBytes("unsafe.String", n)})
	case "SliceData":
		sl, ok := args[0].(Slice)
		if ok && sl.nilID >= 0 {
			return one(st, addPath(sl.base, elemPE(sl.off)))
		}
		return one(st, Nil{})
	case "StringData":
		s, ok := args[0].(Str)
		if ok {
			o := in.alloc(st, s.Bytes)
			return one(st, Ptr{o: o, path: []PE{elemPE(AC(0))}})
		}
	case "Slice": // unsafe.Slice
		p, ok := args[0].(Ptr)
		n := in.mustAff(st, args[1])
		if ok && len(p.path) > 0 {
			e := p.path[len(p.path)-1]
			at := e.a
			if at == nil {
				at = AC(int64(e.i))
			}
			return one(st, Slice{base: Ptr{o: p.o, path: p.path[:len(p.path)-1]}, off: at, len: n, cap: n})
		}
		if _, ok := args[0].(Nil); ok {
			return one(st, in.zero(c.Signature().Results().At(0).Type()))
		}
		if d, ok := args[0].(dataPtr); ok {
			if sl, ok := d.v.(Slice); ok {
				if !in.entails(st, sl.cap.Sub(n)) {
					in.report("a slice claims more bytes than there are", in.cur, in.where(), st)
				}
				sl.len, sl.cap = n, n
				return one(st, sl)
			}
		}
	case "clear":
		switch x := args[0].(type) {
		case Nil:
			return one(st, nil)
		case Ptr:
			if _, ok := st.heap[x.o].(*MapV); ok {
				st.set(x.o, &MapV{})
				return one(st, nil)
			}
		case Slice:
			v := in.getPath(st, st.heap[x.base.o], x.base.path)
			if _, ok := v.(*Bytes); ok {
				in.setSliceBytes(st, x, AC(0), &Bytes{n: x.len, segs: []Seg{{k: sZero, n: x.len}}})
				return one(st, nil)
			}
		}
	}
	in.giveUp("builtin %s", b.Name())
	return nil
}

func (in *Interp) contentOf(st *State, v Value, et types.Type) (*Bytes, []Value, *Aff, bool) {
	switch x := v.(type) {
	case Str:
		return x.Bytes, nil, x.n, true
	case Slice:
		if x.nilID < 0 || x.len.ConstEq(0) {
			if isByte(et) {
				return &Bytes{n: AC(0)}, nil, AC(0), true
			}
			return nil, nil, AC(0), true
		}
		switch c := in.getPath(st, st.heap[x.base.o], x.base.path).(type) {
		case *Bytes:
			return in.sub(st, c, x.off, x.len), nil, x.len, true
		case *Arr:
			if x.off.IsConst() && x.len.IsConst() {
				o, n := x.off.c.Int64(), x.len.c.Int64()
				return nil, c.e[o : o+n], x.len, true
			}
		case *SymArr:
			if x.len.IsConst() && x.len.c.Cmp(N(64)) <= 0 {
				var e []Value
				for i := int64(0); i < x.len.c.Int64(); i++ {
					e = append(e, in.symGet(st, c, x.off.AddC(i)))
				}
				return nil, e, x.len, true
			}
		}
		return nil, nil, x.len, false
	case Nil:
		return nil, nil, AC(0), true
	}
	in.giveUp("content of %s", in.Show(st, v))
	return nil, nil, nil, false
}

func (in *Interp) appendB(st *State, args []Value, et types.Type) []alt {
	sl, ok := args[0].(Slice)
	if !ok {
		in.giveUp("append to %s", in.Show(st, args[0]))
	}
	if len(args) < 2 {
		return one(st, sl)
	}
	add, elems, n, exact := in.contentOf(st, args[1], et)
	if n.ConstEq(0) {
		return one(st, sl)
	}
	nl := sl.len.Add(n)
	grow := func(s *State) []alt {
		in.allocSize(s, nl, et)
		cp := in.freshInt(tInt, "cap").A
		id, _ := cp.Single()
		s.setRng(id, Iv{N(0), maxMake})
		in.addFact(s, cp.Sub(nl))
		if isByte(et) {
			old := in.sliceBytes(s, sl)
			c := concat(old, add)
			rest := cp.Sub(nl)
			c = concat(c, &Bytes{n: rest, segs: []Seg{{k: sZero, n: rest}}})
			return one(s, Slice{base: Ptr{o: in.alloc(s, c)}, off: AC(0), len: nl, cap: cp})
		}
		_, old, _, ex2 := in.contentOf(s, sl, et)
		if exact && ex2 {
			e := append(append([]Value(nil), old...), elems...)
			// capacity is not used beyond the length: model an exact one
			return one(s, Slice{base: Ptr{o: in.alloc(s, &Arr{e: e, t: et})}, off: AC(0), len: nl, cap: nl})
		}
		var v Value = &SymArr{n: nl, t: et}
		if ex2 {
			sa := &SymArr{n: nl, t: et}
			for i, x := range old {
				sa.cells = append(sa.cells, symCell{AC(int64(i)), x})
			}
			v = sa
		} else if exact {
			if src, ok := in.getPath(s, s.heap[sl.base.o], sl.base.path).(*SymArr); ok {
				sa := &SymArr{n: nl, t: et}
				for _, c := range src.cells {
					sa.cells = append(sa.cells, symCell{c.i.Sub(sl.off), c.v})
				}
				for i, x := range elems {
					sa.cells = append(sa.cells, symCell{sl.len.AddC(int64(i)), x})
				}
				v = sa
			}
		}
		return one(s, Slice{base: Ptr{o: in.alloc(s, v)}, off: AC(0), len: nl, cap: nl})
	}
	if sl.nilID != 0 {
		if sl.nilID < 0 {
			return grow(st)
		}
	}
	return in.branch(st, ge(sl.cap.Sub(nl)), func(s *State) []alt {
		if isByte(et) {
			in.setSliceBytes(s, sl, sl.len, add)
		} else {
			cont := in.getPath(s, s.heap[sl.base.o], sl.base.path)
			for i, x := range elems {
				at := sl.off.Add(sl.len).AddC(int64(i))
				cont = in.setPath(s, cont, []PE{elemPE(at)}, x)
			}
			if !exact {
				sa, ok := cont.(*SymArr)
				if !ok {
					in.giveUp("append of an unknown number of elements in place")
				}
				cont = &SymArr{n: sa.n, t: sa.t}
			}
			s.set(sl.base.o, in.setPath(s, s.heap[sl.base.o], sl.base.path, cont))
		}
		return one(s, Slice{base: sl.base, off: sl.off, len: nl, cap: sl.cap})
	}, grow)
}

func (in *Interp) copyB(st *State, args []Value) []alt {
	dst, ok := args[0].(Slice)
	if !ok {
		in.giveUp("copy to %s", in.Show(st, args[0]))
	}
	var sl *Aff
	switch s := args[1].(type) {
	case Str:
		sl = s.n
	case Slice:
		sl = s.len
	}
	do := func(s *State, n *Aff) []alt {
		if n.ConstEq(0) || dst.nilID < 0 {
			return one(s, mkInt(tInt, n))
		}
		switch src := args[1].(type) {
		case Str:
			in.setSliceBytes(s, dst, AC(0), in.sub(s, src.Bytes, AC(0), n))
		case Slice:
			if src.nilID < 0 {
				break
			}
			cont := in.getPath(s, s.heap[dst.base.o], dst.base.path)
			if _, ok := cont.(*Bytes); ok {
				src.len = n
				in.setSliceBytes(s, dst, AC(0), in.sliceBytes(s, src))
				break
			}
			if !n.IsConst() {
				sa, ok := cont.(*SymArr)
				if !ok {
					in.giveUp("copy of an unknown number of elements")
				}
				s.set(dst.base.o, in.setPath(s, s.heap[dst.base.o], dst.base.path, &SymArr{n: sa.n, t: sa.t}))
				break
			}
			src.len = n
			_, e, _, _ := in.contentOf(s, src, types.Typ[types.Int])
			e = append([]Value(nil), e...)
			for i, x := range e {
				cont = in.setPath(s, cont, []PE{elemPE(dst.off.AddC(int64(i)))}, x)
			}
			s.set(dst.base.o, in.setPath(s, s.heap[dst.base.o], dst.base.path, cont))
		}
		return one(s, mkInt(tInt, n))
	}
	return in.branch(st, ge(dst.len.Sub(sl)), func(s *State) []alt { return do(s, sl) }, func(s *State) []alt { return do(s, dst.len) })
}

func (in *Interp) allocSize(s *State, n *Aff, et types.Type) {
	if in.allocBound == nil {
		return
	}
	in.S.Sites[in.cur]++
	if !in.entails(s, in.allocBound.Sub(n)) {
		in.report("allocation of "+in.affStr(n)+" elements is not bounded by the input", in.cur, in.where(), s)
	}
}

// Spawned goroutines run when the scenario says so.
func (in *Interp) runSpawn(st *State, sp spawn) []alt {
	switch f := sp.fn.(type) {
	case Func:
		if f.native == "invoke" {
			return in.invoke(st, sp.args[0], f.binds[1].(*types.Func), sp.args[1:], token.NoPos)
		}
		if f.fn != nil {
			return in.callFn(st, f.fn, sp.args, f.binds, token.NoPos)
		}
	case Opaque:
		return one(st, nil)
	}
	in.giveUp("goroutine %s", in.Show(st, sp.fn))
	return nil
}

func (in *Interp) globalObj(st *State, g *ssa.Global) int {
	id, ok := in.globals[g]
	if !ok {
		in.nobj++
		id = in.nobj
		in.globals[g] = id
	}
	if _, ok := st.heap[id]; !ok {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		p := ""
		if g.Pkg != nil {
			p = g.Pkg.Pkg.Path()
		}
		if strings.HasPrefix(p, in.RepoPath) {
			st.set(id, in.zero(t)) // before its initialiser runs
		} else {
			st.set(id, in.stdGlobal(st, g, t))
		}
	}
	return id
}

func (in *Interp) stdGlobal(st *State, g *ssa.Global, t types.Type) Value {
	if types.IsInterface(t) {
		key := "stdglobal:" + g.String()
		if v, ok := in.opqVal[key]; ok {
			return v
		}
		in.nopq++
		v := Opaque{id: in.nopq, name: "global " + g.String(), t: t}
		in.opqVal[key] = v
		return v
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return in.zero(t)
	}
	if b, ok := literalBytes(g); ok {
		return in.newBytes(st, in.constBytes(b))
	}
	key := "stdglobal:" + g.String()
	if v, ok := in.opqVal[key]; ok {
		return v
	}
	v := in.havoc(st, t, "global "+g.String())
	if _, ok := v.(Slice); !ok {
		in.opqVal[key] = v
	}
	return v
}

// literalBytes is the value of a variable that is set once, to a literal of
// constant bytes.
func literalBytes(g *ssa.Global) (string, bool) {
	sl, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
	if !ok || g.Pkg == nil {
		return "", false
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return "", false
	}
	ini := g.Pkg.Func("init")
	if ini == nil {
		return "", false
	}
	for _, b := range ini.Blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(g) {
				continue
			}
			x, ok := s.Val.(*ssa.Slice)
			if !ok {
				return "", false
			}
			a, ok := x.X.(*ssa.Alloc)
			if !ok {
				return "", false
			}
			arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok || arr.Len() > 1<<12 {
				return "", false
			}
			out := make([]byte, arr.Len())
			for _, r := range *a.Referrers() {
				e, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				k, ok := e.Index.(*ssa.Const)
				if !ok {
					return "", false
				}
				for _, w := range *e.Referrers() {
					st, ok := w.(*ssa.Store)
					if !ok {
						return "", false
					}
					v, ok := st.Val.(*ssa.Const)
					if !ok {
						return "", false
					}
					out[k.Int64()] = byte(v.Uint64())
				}
			}
			return string(out), true
		}
	}
	return "", false
}
