package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// traceN lists the undecided branches of the code under analysis that lead to
// a state.
type traceN struct {
	pos  token.Pos
	prev *traceN
}

func (in *Interp) inRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkg(fn), in.RepoPath) && !in.isHarness(fn)
}

func (in *Interp) traceOf(s *State) []string {
	var r []string
	if s == nil {
		return nil
	}
	for t := s.trace; t != nil && len(r) < 12; t = t.prev {
		r = append(r, in.posStr(t.pos))
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (in *Interp) report(what string, pos token.Pos, path []string, s *State) {
	for _, v := range in.Viols {
		if v.What == what && v.Pos == pos {
			return
		}
	}
	in.Viols = append(in.Viols, Viol{Scenario: in.Scenario, What: what, Pos: pos, Path: path, State: strings.Join(in.traceOf(s), " -> ")})
	// more reports only add to it
	if t := time.Now().Add(15 * time.Second); t.Before(in.deadline) {
		in.deadline = t
	}
}

func (in *Interp) constStr(v Value) string {
	s, ok := v.(Str)
	if !ok {
		return "?"
	}
	var b strings.Builder
	for _, g := range s.segs {
		if g.k == sByte && g.b.A != nil && g.b.A.IsConst() {
			b.WriteByte(byte(g.b.A.c.Int64()))
		} else if g.k == sRef {
			for k, id := range in.constSrc {
				if id == g.src {
					b.WriteString(k)
				}
			}
		}
	}
	return b.String()
}

// zz runs the primitives scenarios are written with.
func (in *Interp) zz(st *State, fn *ssa.Function, name string, args []Value) ([]alt, bool) {
	n := name[strings.LastIndex(name, ".")+1:]
	if i := strings.Index(n, "["); i >= 0 {
		n = n[:i]
	}
	switch n {
	case "Any":
		t := fn.Signature.Results().At(0).Type()
		return one(st, in.havoc(st, t, in.constStr(args[0]))), true
	case "NonNil":
		t := fn.Signature.Results().At(0).Type()
		v := in.havoc(st, t, in.constStr(args[0]))
		switch x := v.(type) {
		case Opaque:
			x.mayNil = false
			v = x
		case Slice:
			x.nilID = 0
			v = x
		}
		return one(st, v), true
	case "Bool":
		return one(st, in.freshBool()), true
	case "Int":
		v := in.freshInt(tInt, "n")
		lo, hi := in.mustAff(st, args[0]), in.mustAff(st, args[1])
		in.addFact(st, v.A.Sub(lo))
		in.addFact(st, hi.Sub(v.A))
		return one(st, v), true
	case "Choice":
		k := in.mustAff(st, args[0])
		var out []alt
		for i := int64(0); i < k.c.Int64(); i++ {
			s := st
			if i+1 < k.c.Int64() {
				s = st.clone()
			}
			out = append(out, alt{st: s, v: mkInt(tInt, AC(i))})
		}
		return out, true
	case "Bytes":
		nm := in.constStr(args[0])
		l := in.freshLen(nm)
		o := in.alloc(st, in.refBytes(nm, l))
		return one(st, Slice{base: Ptr{o: o}, off: AC(0), len: l, cap: l}), true
	case "BytesN":
		nm := in.constStr(args[0])
		l := in.mustAff(st, args[1])
		o := in.alloc(st, in.refBytes(nm, l))
		return one(st, Slice{base: Ptr{o: o}, off: AC(0), len: l, cap: l}), true
	case "Str":
		nm := in.constStr(args[0])
		return one(st, Str{in.refBytes(nm, in.freshLen(nm))}), true
	case "Assume":
		b := in.settle(st, args[0].(Bool))
		if b.K == 0 {
			st.bot = true
		} else {
			in.assume(st, b, true)
		}
		return one(st, nil), true
	case "Assert":
		msg := in.constStr(args[1])
		in.S.Asserts[msg]++
		b := in.settle(st, args[0].(Bool))
		if b.K != 1 {
			if os.Getenv("ZZDEBUG") != "" {
				fmt.Println("ASSERT", msg, in.Show(st, b), in.traceOf(st))
				for _, f := range st.facts {
					fmt.Println("   fact", in.affStr(f), ">= 0")
				}
				if b.K == 2 && b.C.a != nil {
					fmt.Println("   cond", b.C.op, in.affStr(b.C.a), in.affRange(st, b.C.a), b.C.neg)
				}
			}
			in.report(msg, in.cur, in.where(), st)
			in.assume(st, b, true)
			if b.K == 0 {
				st.bot = true
			}
		}
		return one(st, nil), true
	case "Fail":
		msg := in.constStr(args[0])
		in.S.Asserts[msg]++
		in.report(msg, in.cur, in.where(), st)
		st.bot = true
		return one(st, nil), true
	case "Same":
		b := in.deep(st, args[0], args[1], map[[2]int]bool{})
		if b.K != 1 && os.Getenv("ZZDEBUG") != "" {
			fmt.Println("SAME", in.showDeep(st, args[0]), "\n  vs", in.showDeep(st, args[1]))
		}
		return one(st, b), true
	case "Reach":
		in.reached[in.constStr(args[0])] = true
		return one(st, nil), true
	case "RunSpawned":
		var rec func(st *State) []alt
		rec = func(st *State) []alt {
			if len(st.spawns) == 0 {
				return one(st, nil)
			}
			sp := st.spawns[0]
			st.spawns = append([]spawn(nil), st.spawns[1:]...)
			var out []alt
			for _, x := range in.runSpawn(st, sp) {
				if x.pan != nil {
					out = append(out, x)
					continue
				}
				// a goroutine that waits forever is parked
				out = append(out, rec(x.st)...)
			}
			return out
		}
		return rec(st), true
	case "RunAny":
		var rec func(st *State) []alt
		rec = func(st *State) []alt {
			if len(st.spawns) == 0 {
				return one(st, nil)
			}
			return in.runAny(st, rec)
		}
		return rec(st), true
	case "DropSpawned":
		st.spawns = nil
		return one(st, nil), true
	case "Spawned":
		return one(st, mkInt(tInt, AC(int64(len(st.spawns))))), true
	case "Held":
		return one(st, B2(len(st.locks) > 0)), true
	case "Unlocks":
		in.countUnlocks = true
		return one(st, mkInt(tInt, AC(int64(st.unlocks)))), true
	case "AllocBound":
		a := in.mustAff(st, args[0])
		in.allocBound = a
		if a.IsConst() && a.c.Sign() < 0 {
			in.allocBound = nil
		}
		return one(st, nil), true
	case "Blocks":
		// runs f: reports whether it waits forever
		var out []alt
		for _, x := range in.callValue(st, args[0], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), in.cur) {
			if x.pan != nil {
				out = append(out, x)
				continue
			}
			out = append(out, alt{st: x.st, v: B2(x.blocked)})
		}
		return out, true
	case "Panics":
		var out []alt
		for _, x := range in.callValue(st, args[0], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), in.cur) {
			if x.blocked {
				out = append(out, x)
				continue
			}
			out = append(out, alt{st: x.st, v: B2(x.pan != nil)})
		}
		return out, true
	case "Show":
		fmt.Println("SHOW", in.constStr(args[0]), in.showDeep(st, args[1]))
		return one(st, nil), true
	case "SameBacking":
		x, ok1 := args[0].(Slice)
		y, ok2 := args[1].(Slice)
		if !ok1 || !ok2 || x.nilID < 0 || y.nilID < 0 {
			return one(st, False), true
		}
		return one(st, B2(x.base.o == y.base.o)), true
	}
	return nil, false
}

// deep is structural equality.
func (in *Interp) deep(s *State, x, y Value, seen map[[2]int]bool) Bool {
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return in.settle(s, in.equal(s, x, y))
		}
		if !types.Identical(a.t, b.t) {
			return False
		}
		return in.deep(s, a.v, b.v, seen)
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return in.settle(s, in.equal(s, x, y))
		}
		if ptrKey(a) == ptrKey(b) {
			return True
		}
		if seen[[2]int{a.o, b.o}] {
			return True
		}
		seen[[2]int{a.o, b.o}] = true
		return in.deep(s, in.load(s, a), in.load(s, b), seen)
	case Slice:
		b, ok := y.(Slice)
		if !ok {
			return in.settle(s, in.equal(s, x, y))
		}
		isNil := func(v Slice) Bool {
			switch {
			case v.nilID == 0:
				return False
			case v.nilID < 0:
				return True
			}
			return in.settle(s, Bool{K: 2, C: Cond{op: cNil, id: v.nilID}})
		}
		na, nb := isNil(a), isNil(b)
		if na.K < 2 && nb.K < 2 {
			if na.K != nb.K {
				return False
			}
			if na.K == 1 {
				return True
			}
		} else if a.nilID != b.nilID {
			return in.freshBool()
		}
		var ca, cb Value
		ca = in.getPath(s, s.heap[a.base.o], a.base.path)
		cb = in.getPath(s, s.heap[b.base.o], b.base.path)
		if _, ok := ca.(*Bytes); ok {
			return in.deep(s, in.sliceBytes(s, a), in.sliceBytes(s, b), seen)
		}
		if !in.affEq(s, a.len, b.len) {
			return in.settle(s, eq0(a.len.Sub(b.len)))
		}
		_, ea, _, ok1 := in.contentOf(s, a, tInt)
		_, eb, _, ok2 := in.contentOf(s, b, tInt)
		_ = cb
		if !ok1 || !ok2 {
			if a.base.o == b.base.o && in.affEq(s, a.off, b.off) {
				return True
			}
			return in.freshBool()
		}
		return in.deepAll(s, ea, eb, seen)
	case *Struct:
		b, ok := y.(*Struct)
		if !ok {
			return False
		}
		return in.deepAll(s, a.f, b.f, seen)
	case *Arr:
		b, ok := y.(*Arr)
		if !ok {
			return in.freshBool()
		}
		return in.deepAll(s, a.e, b.e, seen)
	case *MapV:
		b, ok := y.(*MapV)
		if !ok || a.open || b.open {
			return in.freshBool()
		}
		if len(a.keys) != len(b.keys) {
			return False
		}
		for i, k := range a.keys {
			hit := False
			for j, l := range b.keys {
				if e := in.deep(s, k, l, seen); e.K == 1 {
					hit = in.deep(s, a.vals[i], b.vals[j], seen)
				}
			}
			if hit.K != 1 {
				return hit
			}
		}
		return True
	}
	return in.settle(s, in.equal(s, x, y))
}

func (in *Interp) deepAll(s *State, x, y []Value, seen map[[2]int]bool) Bool {
	if len(x) != len(y) {
		return False
	}
	res := True
	for i := range x {
		b := in.deep(s, x[i], y[i], seen)
		switch b.K {
		case 0:
			return False
		case 2:
			if res.K == 1 {
				res = b
			} else {
				res = in.freshBool()
			}
		}
	}
	return res
}

func (in *Interp) showDeep(s *State, v Value) string {
	var b strings.Builder
	b.WriteString(in.show(s, v, 4))
	switch x := v.(type) {
	case Iface:
		return in.showDeep(s, x.v)
	case Ptr:
		if w, ok := s.heap[x.o]; ok {
			b.WriteString(" -> " + in.show(s, w, 4))
		}
	case Slice:
		if x.nilID >= 0 {
			b.WriteString(" = " + in.show(s, s.heap[x.base.o], 4))
		}
	}
	return b.String()
}

// Result is the outcome of one scenario.
type Result struct {
	Wall    time.Duration
	Name    string
	Doc     string
	Viols   []Viol
	S       Stats
	Outs    int
	Syms    int
	Imprec  int
	Steps   int
	Undec   string
	RepoFns []string
	Reports []string
}

// Run analyses one scenario function.
// Precision says when outcomes of a call are generalised and when loops are.
type Precision struct{ MaxDelayed, MaxOuts int }

// Precisions are tried in turn until one decides that a scenario holds: each
// is sound on its own.
var Precisions = []Precision{{12, 16}, {24, 64}, {12, 400}}

// Decide runs a scenario with growing precision until it is shown to hold. It
// reports what the first analysis that came to an end found.
func Decide(prog *ssa.Program, fn *ssa.Function, steps int, trace bool, limit func() time.Time) (best Result) {
	t := time.Now()
	var first time.Duration
	ps := Precisions
	if os.Getenv("ZZPREC") != "" {
		ps = ps[2:]
	}
	for i, p := range ps {
		max := time.Duration(100*(i+1)) * time.Second
		if i > 0 && (best.Undec == "" || len(best.Reports) > 0) {
			// what an analysis reported that came to an end seldom goes away
			if m := 60*time.Second + 15*first; m < max {
				max = m
			}
		}
		end := time.Now().Add(max)
		if until := limit(); until.Before(end) {
			end = until
		}
		if i > 0 && time.Until(end) < time.Second {
			break
		}
		r := Run(prog, fn, steps, trace, p, end)
		if i == 0 {
			first = time.Since(t)
		}
		ok := r.Undec == "" && len(r.Reports) == 0
		if i == 0 || ok || best.Undec != "" && r.Undec == "" {
			best = r
		}
		if ok {
			break
		}
	}
	best.Wall = time.Since(t)
	return
}

func Run(prog *ssa.Program, fn *ssa.Function, steps int, trace bool, prec Precision, deadline time.Time) (res Result) {
	in := NewInterp(prog)
	in.MaxDelayed, in.MaxOuts = prec.MaxDelayed, prec.MaxOuts
	in.deadline = deadline
	in.Trace = trace
	in.Scenario = fn.Name()
	in.budget = steps
	res.Name = fn.Name()
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Undecided)
			if !ok {
				if os.Getenv("ZZDEBUG") != "" {
					panic(r)
				}
				u = Undecided{fmt.Sprintf("internal: %v at %s in %s", r, in.posStr(in.cur), strings.Join(in.where(), " > "))}
			}
			res.Undec = u.Why
		}
		res.Viols = in.Viols
		res.S = in.S
		res.Syms = len(in.syms)
		res.Imprec = in.imprecise
		res.Steps = steps - in.budget
		for f := range in.S.Funcs {
			if in.inRepo(f) && (f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "instance of")) && f.Name() != "init" {
				res.RepoFns = append(res.RepoFns, f.String())
			}
		}
		sort.Strings(res.RepoFns)
		for _, v := range res.Viols {
			res.Reports = append(res.Reports, in.format(v))
		}
	}()
	st := newState()
	if fn.Pkg != nil {
		for _, p := range in.Prog.AllPackages() {
			if strings.HasPrefix(p.Pkg.Path(), in.RepoPath) {
				in.findContracts(p)
			}
		}
		in.findModels()
		in.repoGlobals(st, fn.Pkg.Pkg, map[string]bool{})
		if ini := fn.Pkg.Func("init"); ini != nil {
			outs := in.exec(st, ini, nil, nil, token.NoPos)
			if len(outs) != 1 || outs[0].pan != nil {
				in.giveUp("package initialisation has %d outcomes", len(outs))
			}
			st = outs[0].st
		}
	}
	outs := in.exec(st, fn, nil, nil, token.NoPos)
	res.Outs = len(outs)
	for _, o := range outs {
		if o.pan != nil {
			in.Viols = append(in.Viols, Viol{Scenario: fn.Name(), What: "may panic: " + o.pan.what, Pos: o.pan.pos, Path: o.pan.path, State: strings.Join(in.traceOf(o.st), " -> ")})
		}
	}
	for _, o := range outs {
		if o.blocked && !o.st.bot && len(o.st.waits) > 0 && in.stuck(o.st) {
			w := o.st.waits[len(o.st.waits)-1]
			in.Viols = append(in.Viols, Viol{Scenario: fn.Name(), What: "waits forever", Pos: w.pos, State: strings.Join(in.traceOf(o.st), " -> ")})
			break
		}
	}
	// every marker must be reached: nothing is vacuous
	for _, m := range reachMarks(fn) {
		if !in.reached[m] {
			in.Viols = append(in.Viols, Viol{Scenario: fn.Name(), What: "no execution reaches: " + m, Pos: fn.Pos(), Path: nil})
		}
	}
	return
}

// reachMarks are the markers of a scenario and of the harness functions it calls.
func reachMarks(fn *ssa.Function) []string {
	var r []string
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				g := c.Call.StaticCallee()
				if g.String() == zzPath+".Reach" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						r = append(r, strings.Trim(k.Value.ExactString(), `"`))
					}
				} else if (&Interp{}).isHarness(g) {
					visit(g)
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	visit(fn)
	return r
}

func (in *Interp) format(v Viol) string {
	var b strings.Builder
	// the innermost function of the code under analysis
	fmt.Fprintf(&b, "%s: %s [scenario %s]", in.posStr(v.Pos), v.What, v.Scenario)
	if len(v.Path) > 0 {
		fmt.Fprintf(&b, "\n    call path: %s", strings.Join(v.Path, "\n      > "))
	}
	if v.State != "" {
		fmt.Fprintf(&b, "\n    branches taken: %s", v.State)
	}
	return b.String()
}

// findContracts finds the summaries recursive methods are given: a function
// zzContract_<property>_<type>_<method> stands for the nested activations of a method.
func (in *Interp) findContracts(p *ssa.Package) {
	for n, m := range p.Members {
		c, ok := m.(*ssa.Function)
		prop := strings.Split(in.Scenario, "_")[1]
		// zzInstead_<property>_<function> takes the place of a function,
		// zzInstead_<property>_<type>_<method> of a method
		if ok && strings.HasPrefix(n, "zzInstead_"+prop+"_") {
			x := strings.Split(strings.TrimPrefix(n, "zzInstead_"+prop+"_"), "_")
			f := p.Func(x[0])
			if len(x) == 2 {
				f = nil
				if t := p.Type(x[0]); t != nil {
					f = in.Prog.LookupMethod(types.NewPointer(t.Type()), p.Pkg, x[1])
				}
			}
			if f == nil {
				in.giveUp("no function for %s", n)
			}
			in.instead[f] = c
			continue
		}
		pre := "zzContract_" + prop + "_"
		if !ok || !strings.HasPrefix(n, pre) {
			continue
		}
		x := strings.Split("_"+strings.TrimPrefix(n, pre), "_")
		t := p.Type(x[1])
		if t == nil || len(x) != 3 {
			in.giveUp("no method for %s", n)
		}
		f := in.Prog.LookupMethod(types.NewPointer(t.Type()), p.Pkg, x[2])
		if f == nil {
			in.giveUp("no method for %s", n)
		}
		in.contracts[f] = c
	}
}

// repoGlobals brings the variables of the packages under analysis into being,
// before anything the analysis may forget.
func (in *Interp) repoGlobals(st *State, pkg *types.Package, seen map[string]bool) {
	if seen[pkg.Path()] || !strings.HasPrefix(pkg.Path(), in.RepoPath) {
		return
	}
	seen[pkg.Path()] = true
	for _, i := range pkg.Imports() {
		in.repoGlobals(st, i, seen)
	}
	p := in.Prog.Package(pkg)
	if p == nil {
		return
	}
	var names []string
	for n, m := range p.Members {
		if _, ok := m.(*ssa.Global); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		in.globalObj(st, p.Members[n].(*ssa.Global))
	}
}

// findModels finds the models of library functions: in a package zzstd, a
// function Pkg_Func or Pkg_Type_Method.
func (in *Interp) findModels() {
	in.models = map[string]*ssa.Function{}
	for _, p := range in.Prog.AllPackages() {
		if p.Pkg.Path() != in.RepoPath+"/internal/zzstd" {
			continue
		}
		for n, m := range p.Members {
			f, ok := m.(*ssa.Function)
			x := strings.Split(n, "_")
			switch {
			case !ok || len(x) < 2:
			case len(x) == 2:
				in.models[strings.ToLower(x[0])+"."+x[1]] = f
			default:
				in.models["(*"+strings.ToLower(x[0])+"."+x[1]+")."+x[2]] = f
				in.models["("+strings.ToLower(x[0])+"."+x[1]+")."+x[2]] = f
			}
		}
	}
}
