package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Lock discipline. Locks are identified by access paths: the root (a
// parameter, captured variable, local, or package variable) and the fields
// from there. Every function gets the locks held at each instruction, on all
// paths (must) and on some path (may), with the effects of the functions it
// calls and of its deferred calls, and the locks all of its callers hold.

// path is an access path; root "" means it is not known.
type path struct {
	root string
	sel  string
}

func (p path) String() string { return p.root + p.sel }

func (p path) ok() bool { return p.root != "" }

// lockSet maps the path of a lock to how it is held: 1 shared, 2 exclusive.
type lockSet map[path]int

func (a lockSet) clone() lockSet {
	r := lockSet{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

func (a lockSet) equal(b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

type lockState struct {
	must, may lockSet
	defers    map[*ssa.Defer]bool
	site      map[path]ssa.Instruction // where a lock that is held was taken
}

func (s *lockState) clone() *lockState {
	d := map[*ssa.Defer]bool{}
	for k := range s.defers {
		d[k] = true
	}
	t := map[path]ssa.Instruction{}
	for k, v := range s.site {
		t[k] = v
	}
	return &lockState{s.must.clone(), s.may.clone(), d, t}
}

// join merges t into s and reports whether s changed.
func (s *lockState) join(t *lockState) bool {
	ch := false
	for k, v := range s.must {
		w := t.must[k]
		if w < v {
			ch = true
			if w == 0 {
				delete(s.must, k)
			} else {
				s.must[k] = w
			}
		}
	}
	for k, v := range t.may {
		if s.may[k] < v {
			s.may[k] = v
			ch = true
		}
	}
	for k, v := range s.site {
		if t.site[k] != v {
			delete(s.site, k)
			ch = true
		}
	}
	for d := range t.defers {
		if !s.defers[d] {
			s.defers[d] = true
			ch = true
		}
	}
	return ch
}

// summary is the effect of a function in terms of its parameters ("p0"),
// captured variables ("f0") and package variables.
type lockSummary struct {
	acquires map[path]int         // held at every return and not before
	releases map[path]bool        // released though not taken inside
	takes    map[path]token.Pos   // taken at some point, here or further down
	classes  map[string]token.Pos // the same by class
}

type access struct {
	fn    *ssa.Function
	pos   token.Pos
	write bool
	held  lockSet
	base  path
	fresh bool

	sites  map[path]ssa.Instruction
	instr  ssa.Instruction
	setter bool // sets a constant or what the function was given
}

type lockAnalysis struct {
	c      *Ctx
	fns    []*ssa.Function
	class  map[path]map[*ssa.Function]string
	sum    map[*ssa.Function]*lockSummary
	entry  map[*ssa.Function]lockSet // nil: not known yet
	called map[*ssa.Function]bool    // has static callers only
	acc    map[string][]access
	order  map[string]map[string]string
	viol   map[string]bool
	ops    int

	paramHeld map[*ssa.Function]map[int]lockSet // held where a parameter is called
	callers   map[*ssa.Function]map[*ssa.Function]bool
	once      map[*ssa.Function]bool
	value     map[*ssa.Function]bool // returned by a function
}

// lockOp is what a call does to a lock, with the path and class of the lock.
func lockOp(c *ssa.CallCommon) (kind string, p path, class string) {
	f := c.StaticCallee()
	var binds []path
	if g, b := funcOf(c.Value); g != nil && !c.IsInvoke() {
		f, binds = g, b
	}
	if f == nil {
		return
	}
	o, ok := f.Object().(*types.Func)
	if !ok || o.Pkg() == nil || o.Pkg().Path() != "sync" {
		return
	}
	r := o.Type().(*types.Signature).Recv()
	if r == nil {
		return
	}
	if t := r.Type().String(); t != "*sync.Mutex" && t != "*sync.RWMutex" {
		return
	}
	switch o.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock":
	default:
		return
	}
	if len(c.Args) > 0 {
		return o.Name(), pathOf(c.Args[0], 0), classOf(c.Args[0])
	}
	if len(binds) == 1 {
		if m, ok := c.Value.(*ssa.MakeClosure); ok {
			class = classOf(m.Bindings[0])
		}
		return o.Name(), binds[0], class
	}
	return
}

// pathOf gives the access path of a value or address.
func pathOf(v ssa.Value, depth int) path {
	if depth > 20 {
		return path{}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return path{root: fmt.Sprintf("p%d", i)}
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return path{root: fmt.Sprintf("f%d", i)}
			}
		}
	case *ssa.Global:
		return path{root: x.String()}
	case *ssa.Alloc:
		// A variable set once is what it is set to.
		if s := soleStore(x); s != nil {
			p := pathOf(s.Val, depth+1)
			if p.ok() {
				return path{p.root, p.sel + "&"}
			}
		}
		return path{root: fmt.Sprintf("a%d@%s", x.Pos(), x.Name())}
	case *ssa.FieldAddr:
		p := pathOf(x.X, depth+1)
		if p.ok() {
			return path{p.root, p.sel + "." + fieldName(x.X.Type(), x.Field)}
		}
	case *ssa.Field:
		p := pathOf(x.X, depth+1)
		if p.ok() {
			return path{p.root, p.sel + "." + fieldName(x.X.Type(), x.Field)}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := pathOf(x.X, depth+1)
			if p.ok() {
				if strings.HasSuffix(p.sel, "&") {
					return path{p.root, p.sel[:len(p.sel)-1]}
				}
				return path{p.root, p.sel + "*"}
			}
		}
	case *ssa.IndexAddr:
		p := pathOf(x.X, depth+1)
		if p.ok() {
			return path{p.root, p.sel + "[]"}
		}
	case *ssa.ChangeType:
		return pathOf(x.X, depth+1)
	case *ssa.Slice:
		return pathOf(x.X, depth+1)
	case *ssa.Phi:
		var r path
		for i, e := range x.Edges {
			p := pathOf(e, depth+5)
			if i > 0 && p != r {
				return path{}
			}
			r = p
		}
		return r
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return pathOf(x.Call.Args[0], depth+1)
		}
		return path{root: fmt.Sprintf("c%d@%s", x.Pos(), x.Name())}
	}
	return path{}
}

func soleStore(a *ssa.Alloc) *ssa.Store {
	var s *ssa.Store
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				if s != nil {
					return nil
				}
				s = x
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if captureWrites(x, a) {
				return nil
			}
		default:
			return nil
		}
	}
	return s
}

func captureWrites(m *ssa.MakeClosure, a ssa.Value) bool {
	f := m.Fn.(*ssa.Function)
	for i, b := range m.Bindings {
		if b != a {
			continue
		}
		for _, r := range *f.FreeVars[i].Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				if captureWrites(x, f.FreeVars[i]) {
					return true
				}
			default:
				return true
			}
		}
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldName(t types.Type, i int) string {
	if s := structOf(t); s != nil {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		o := n.Origin().Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

// classOf names the lock for all objects of its type.
func classOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		// An embedded lock belongs to what embeds it.
		if n := typeName(x.X.Type()); n != "" {
			if y, ok := x.X.(*ssa.FieldAddr); ok {
				return classOf(y)
			}
			return n + "." + fieldName(x.X.Type(), x.Field)
		}
	case *ssa.UnOp:
		return classOf(x.X)
	case *ssa.Global:
		return x.String()
	}
	return ""
}

func (a *lockAnalysis) inRepo(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.TypeArgs()) > 0 || f.Synthetic != "" && !strings.Contains(f.Synthetic, "init") {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
		if len(f.TypeArgs()) > 0 {
			return false
		}
	}
	if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/nanobus/iota/go") {
		return false
	}
	return !strings.HasPrefix(filepath.Base(a.c.Prog.Fset.Position(f.Pos()).Filename), "zz")
}

// unbound is a call with a call of a method value made one of the method.
func (a *lockAnalysis) unbound(c *ssa.CallCommon) *ssa.CallCommon {
	m, ok := c.Value.(*ssa.MakeClosure)
	if !ok || c.IsInvoke() || len(m.Bindings) != 1 {
		return c
	}
	g := m.Fn.(*ssa.Function)
	o, ok := g.Object().(*types.Func)
	if !ok || !strings.Contains(g.Synthetic, "bound method") {
		return c
	}
	f := a.c.Prog.FuncValue(o.Origin())
	if f == nil || !a.inRepo(f) {
		return c
	}
	return &ssa.CallCommon{Value: f, Args: append([]ssa.Value{m.Bindings[0]}, c.Args...)}
}

// callee is the function a call is known to go to, with what it captured.
func (a *lockAnalysis) callee(c *ssa.CallCommon) (*ssa.Function, []path) {
	if c.IsInvoke() {
		return nil, nil
	}
	if f, binds := funcOf(c.Value); f != nil {
		return f, binds
	}
	f := c.StaticCallee()
	if f != nil && f.Origin() != nil {
		f = f.Origin()
	}
	return f, nil
}

func rename(p path, c *ssa.CallCommon, binds []path) path {
	var i int
	if n, _ := fmt.Sscanf(p.root, "p%d", &i); n == 1 && p.root == fmt.Sprintf("p%d", i) {
		if i >= len(c.Args) {
			return path{}
		}
		q := pathOf(c.Args[i], 0)
		if !q.ok() {
			return path{}
		}
		return path{q.root, q.sel + p.sel}
	}
	if n, _ := fmt.Sscanf(p.root, "f%d", &i); n == 1 && p.root == fmt.Sprintf("f%d", i) {
		if i >= len(binds) {
			return path{}
		}
		q := binds[i]
		if !q.ok() {
			return path{}
		}
		if strings.HasSuffix(q.sel, "&") && strings.HasPrefix(p.sel, "*") {
			return path{q.root, q.sel[:len(q.sel)-1] + p.sel[1:]}
		}
		return path{q.root, q.sel + p.sel}
	}
	if strings.HasPrefix(p.root, "a") || strings.HasPrefix(p.root, "c") {
		if strings.Contains(p.root, "@") {
			return path{}
		}
	}
	return p
}

// renameBinds is rename for a closure that is not called here.
func renameBinds(p path, binds []path) path {
	var i int
	if n, _ := fmt.Sscanf(p.root, "p%d", &i); n == 1 && p.root == fmt.Sprintf("p%d", i) {
		return path{}
	}
	return rename(p, &ssa.CallCommon{}, binds)
}

// passed visits the functions a call passes on that are called before it
// returns, with the locks the callee holds when it calls them, in terms of
// the caller.
func (a *lockAnalysis) passed(f *ssa.Function, c *ssa.CallCommon, visit func(g *ssa.Function, binds []path, held lockSet)) {
	callee, cb := a.callee(c)
	if callee == nil {
		return
	}
	for i, v := range c.Args {
		g, binds := funcOf(v)
		if g == nil || a.sum[g] == nil || !a.callsParam(callee, i) {
			continue
		}
		held := lockSet{}
		for k, m := range a.paramHeld[callee][i] {
			if strings.HasPrefix(k.root, heldPrefix) {
				held[k] = m
			} else if q := rename(k, c, cb); q.ok() {
				held[q] = m
			}
		}
		visit(g, binds, held)
	}
}

// funcOf is the function a value is.
func funcOf(v ssa.Value) (*ssa.Function, []path) {
	switch x := v.(type) {
	case *ssa.Function:
		if x.Origin() != nil {
			x = x.Origin()
		}
		return x, nil
	case *ssa.MakeClosure:
		var binds []path
		for _, b := range x.Bindings {
			binds = append(binds, pathOf(b, 0))
		}
		return x.Fn.(*ssa.Function), binds
	case *ssa.ChangeType:
		return funcOf(x.X)
	case *ssa.Call:
		// What a function returns, if it always returns the same.
		g := x.Call.StaticCallee()
		if g == nil || x.Call.IsInvoke() {
			return nil, nil
		}
		if _, ok := x.Type().Underlying().(*types.Signature); !ok {
			return nil, nil
		}
		if g.Origin() != nil {
			g = g.Origin()
		}
		var r *ssa.Function
		var binds []path
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			m, ok := ret.Results[0].(*ssa.MakeClosure)
			if !ok || r != nil && r != m.Fn {
				return nil, nil
			}
			r = m.Fn.(*ssa.Function)
			binds = nil
			for _, v := range m.Bindings {
				binds = append(binds, rename(pathOf(v, 0), &x.Call, nil))
			}
		}
		return r, binds
	}
	return nil, nil
}

// callsParam reports that a function does nothing with a parameter but call
// it, before it returns.
func (a *lockAnalysis) callsParam(f *ssa.Function, i int) bool {
	if !a.inRepo(f) {
		o := f.Object()
		if o == nil || o.Pkg() == nil {
			return false
		}
		switch o.Pkg().Path() {
		case "sort", "slices", "maps", "strings", "bytes":
			return true
		case "sync":
			return o.Name() == "Do"
		}
		return false
	}
	if i >= len(f.Params) {
		return false
	}
	if _, ok := f.Params[i].Type().Underlying().(*types.Signature); !ok {
		return false
	}
	n := 0
	for _, r := range *f.Params[i].Referrers() {
		switch x := r.(type) {
		case *ssa.Call, *ssa.Defer:
			c := x.(ssa.CallInstruction).Common()
			if c.Value != f.Params[i] {
				return false
			}
			for _, v := range c.Args {
				if v == f.Params[i] {
					return false
				}
			}
			n++
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return n > 0
}

// unrename turns what a caller holds into what the callee finds held.
// Every lock is passed on by class too ("held.<class>"), for callees that do
// not have the object.
func (a *lockAnalysis) unrename(f *ssa.Function, held lockSet, c *ssa.CallCommon, binds []path) lockSet {
	r := lockSet{}
	for k, m := range held {
		if cl := a.classAt(f, k); cl != "" {
			r[byClass(cl)] = m
		}
	}
	put := func(q path, root string) {
		if !q.ok() {
			return
		}
		for k, m := range held {
			if k.root != q.root {
				continue
			}
			if strings.HasPrefix(k.sel, q.sel) {
				r[path{root, k.sel[len(q.sel):]}] = m
			} else if s := strings.TrimSuffix(q.sel, "&"); s != q.sel && strings.HasPrefix(k.sel, s) {
				r[path{root, "*" + k.sel[len(s):]}] = m
			}
		}
	}
	for i, v := range c.Args {
		put(pathOf(v, 0), fmt.Sprintf("p%d", i))
	}
	for i, v := range binds {
		put(v, fmt.Sprintf("f%d", i))
	}
	for k, m := range held {
		if strings.Contains(k.root, ".") {
			r[k] = m
		}
	}
	return r
}

func (a *lockAnalysis) note(pos token.Pos, f *ssa.Function, format string, args ...any) {
	p := a.c.Prog.Fset.Position(pos)
	a.viol[fmt.Sprintf("%s:%d: %s: %s", p.Filename, p.Line, f.String(), fmt.Sprintf(format, args...))] = true
}

// apply performs a call on the state. report is set in the last round.
func (a *lockAnalysis) apply(f *ssa.Function, c *ssa.CallCommon, pos token.Pos, s *lockState, sum *lockSummary, report bool) {
	c = a.unbound(c)
	if kind, p, cl := lockOp(c); kind != "" {
		if cl == "" {
			cl = a.classAt(f, p)
		}
		if report {
			a.ops++
		}
		if !p.ok() {
			return
		}
		switch kind {
		case "Lock", "RLock":
			m := 2
			if kind == "RLock" {
				m = 1
			}
			if report && s.may[p] > 0 && (m == 2 || s.may[p] == 2) {
				a.note(pos, f, "locks %s, which it already holds", cl)
			}
			if report {
				a.edges(f, s, cl, pos)
			}
			s.must[p], s.may[p] = m, m
			sum.takes[p] = pos
			if cl != "" {
				sum.classes[cl] = pos
			}
		default:
			if s.may[p] == 0 {
				if len(a.entry[f]) == 0 && report && !a.called[f] && !a.value[f] {
					a.note(pos, f, "unlocks %s, which it does not hold", cl)
				}
				sum.releases[p] = true
			}
			if a.entry[f][p] > 0 {
				sum.releases[p] = true
			}
			a.drop(f, s, p)
		}
		return
	}
	a.passed(f, c, func(g *ssa.Function, binds []path, held lockSet) {
		for k, tp := range a.sum[g].takes {
			q := renameBinds(k, binds)
			if !q.ok() {
				continue
			}
			if report && (s.may[q] > 0 || held[q] > 0) {
				p := a.c.Prog.Fset.Position(tp)
				a.note(pos, f, "passes %s, which locks %s at %s:%d, to where it is held", g.Name(), q, filepath.Base(p.Filename), p.Line)
			}
			sum.takes[q] = tp
		}
		for cl := range a.sum[g].classes {
			if report {
				a.edges(f, s, cl, pos)
			}
			sum.classes[cl] = pos
		}
	})
	g, binds := a.callee(c)
	if g == nil || a.sum[g] == nil {
		return
	}
	gs := a.sum[g]
	for k, tp := range gs.takes {
		q := rename(k, c, binds)
		if !q.ok() {
			continue
		}
		if report && s.may[q] > 0 {
			p := a.c.Prog.Fset.Position(tp)
			a.note(pos, f, "calls %s, which locks %s at %s:%d, while holding it", g.Name(), q, filepath.Base(p.Filename), p.Line)
		}
		sum.takes[q] = tp
	}
	for cl := range gs.classes {
		if report {
			a.edges(f, s, cl, pos)
		}
		sum.classes[cl] = pos
	}
	for k := range gs.releases {
		if q := rename(k, c, binds); q.ok() {
			if s.may[q] == 0 || a.entry[f][q] > 0 {
				sum.releases[q] = true
			}
			a.drop(f, s, q)
		}
	}
	for k, m := range gs.acquires {
		if q := rename(k, c, binds); q.ok() {
			s.must[q], s.may[q] = m, m
		}
	}
}

func (a *lockAnalysis) edges(f *ssa.Function, s *lockState, to string, pos token.Pos) {
	for p := range s.may {
		from := a.classAt(f, p)
		if from == "" || from == to {
			continue
		}
		if a.order[from] == nil {
			a.order[from] = map[string]string{}
		}
		q := a.c.Prog.Fset.Position(pos)
		a.order[from][to] = fmt.Sprintf("%s:%d", q.Filename, q.Line)
	}
}

func (a *lockAnalysis) classAt(f *ssa.Function, p path) string {
	if cl, ok := strings.CutPrefix(p.root, heldPrefix); ok {
		return cl
	}
	return a.class[p][f]
}

const heldPrefix = "held."

// byClass stands for some lock of a class.
func byClass(cl string) path { return path{root: heldPrefix + cl} }

// drop takes a lock out of a state.
func (a *lockAnalysis) drop(f *ssa.Function, s *lockState, p path) {
	delete(s.must, p)
	delete(s.may, p)
	if cl := a.classAt(f, p); cl != "" {
		delete(s.must, byClass(cl))
		delete(s.may, byClass(cl))
	}
}

// flow runs the dataflow of one function.
func (a *lockAnalysis) flow(f *ssa.Function, report bool) *lockSummary {
	sum := &lockSummary{map[path]int{}, map[path]bool{}, map[path]token.Pos{}, map[string]token.Pos{}}
	in := map[*ssa.BasicBlock]*lockState{}
	e := a.entry[f]
	if e == nil {
		e = lockSet{}
	}
	in[f.Blocks[0]] = &lockState{e.clone(), e.clone(), map[*ssa.Defer]bool{}, map[path]ssa.Instruction{}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var exits []*lockState
	var exitPos []token.Pos
	for round := 0; round < 2; round++ {
		last := round == 1
		if last {
			// Once more over everything that is reachable, with the states found.
			work = work[:0]
			for _, b := range f.Blocks {
				if in[b] != nil {
					work = append(work, b)
				}
			}
		}
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			s := in[b].clone()
			for _, i := range b.Instrs {
				if last && report {
					a.accesses(f, i, s)
				}
				switch x := i.(type) {
				case *ssa.Call:
					before := len(s.must)
					a.apply(f, &x.Call, x.Pos(), s, sum, last && report)
					if len(s.must) > before {
						for p := range s.must {
							if s.site[p] == nil && e[p] == 0 {
								s.site[p] = x
							}
						}
					}
					for p := range s.site {
						if s.must[p] == 0 {
							delete(s.site, p)
						}
					}
				case *ssa.Defer:
					s.defers[x] = true
				case *ssa.RunDefers:
					var ds []*ssa.Defer
					for d := range s.defers {
						ds = append(ds, d)
					}
					sort.Slice(ds, func(i, j int) bool { return ds[i].Pos() > ds[j].Pos() })
					for _, d := range ds {
						a.apply(f, &d.Call, d.Pos(), s, sum, last && report)
					}
				case *ssa.Return:
					if last {
						exits = append(exits, s)
						exitPos = append(exitPos, x.Pos())
					}
				}
			}
			if last {
				continue
			}
			for _, t := range b.Succs {
				if in[t] == nil {
					in[t] = s.clone()
					work = append(work, t)
				} else if in[t].join(s) {
					work = append(work, t)
				}
			}
		}
	}
	for i, s := range exits {
		for p, m := range s.must {
			if e[p] > 0 && !sum.releases[p] {
				continue
			}
			if i == 0 {
				sum.acquires[p] = m
			}
		}
		for p := range sum.acquires {
			if s.must[p] == 0 {
				delete(sum.acquires, p)
			}
		}
	}
	if report {
		for i, s := range exits {
			for p := range s.may {
				if e[p] == 0 && (sum.acquires[p] == 0 || !a.called[f]) {
					a.note(exitPos[i], f, "returns holding %s", a.classAt(f, p))
				}
			}
		}
	}
	for p := range sum.acquires {
		if !strings.HasPrefix(p.root, "p") && !strings.HasPrefix(p.root, "f") && !strings.Contains(p.root, ".") {
			delete(sum.acquires, p)
		}
	}
	return sum
}

// accesses records reads and writes of fields and package variables and of
// the maps and slices in them.
func (a *lockAnalysis) accesses(f *ssa.Function, i ssa.Instruction, s *lockState) {
	suffix := ""
	rec := func(addr ssa.Value, write bool) {
		for {
			if x, ok := addr.(*ssa.IndexAddr); ok {
				if u, ok := x.X.(*ssa.UnOp); ok {
					addr = u.X
					continue
				}
				addr = x.X
				continue
			}
			break
		}
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			n := typeName(x.X.Type())
			if n == "" {
				return
			}
			base := pathOf(x.X, 0)
			n += "." + fieldName(x.X.Type(), x.Field) + suffix
			a.acc[n] = append(a.acc[n], access{f, i.Pos(), write, s.must.clone(), base, fresh(x.X), sitesOf(s), i, setter(i)})
		case *ssa.Global:
			if x.Pkg != nil && strings.HasPrefix(x.Pkg.Pkg.Path(), "github.com/nanobus/iota/go") {
				a.acc[x.String()] = append(a.acc[x.String()], access{f, i.Pos(), write, s.must.clone(), path{root: x.String()}, f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"), sitesOf(s), i, setter(i)})
			}
		}
	}
	loaded := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					return x.X
				}
				return nil
			case *ssa.Slice:
				if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
					return x.X // of an array
				}
				v = x.X
			case *ssa.Phi:
				return nil
			default:
				return nil
			}
		}
	}
	suffix = ""
	put := func(ch ssa.Value) {
		if l := loaded(ch); l != nil {
			suffix = " (put)"
			rec(l, true)
			suffix = ""
		}
	}
	switch x := i.(type) {
	case *ssa.Send:
		put(x.Chan)
	case *ssa.Select:
		for _, st := range x.States {
			if st.Dir == types.SendOnly {
				put(st.Chan)
			}
		}
	case *ssa.Store:
		rec(x.Addr, true)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			rec(x.X, false)
		}
	case *ssa.MapUpdate:
		if l := loaded(x.Map); l != nil {
			rec(l, true)
		}
	case *ssa.Lookup:
		if l := loaded(x.X); l != nil {
			rec(l, false)
		}
	case *ssa.Range:
		if l := loaded(x.X); l != nil {
			rec(l, false)
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "close":
				put(c.Args[0])
			case "delete", "clear":
				if l := loaded(c.Args[0]); l != nil {
					rec(l, true)
				}
			case "copy":
				if l := loaded(c.Args[0]); l != nil {
					rec(l, true)
				}
				if l := loaded(c.Args[1]); l != nil {
					rec(l, false)
				}
			}
			return
		}
		// Slices of arrays in a field or variable passed on: read and written.
		for _, v := range c.Args {
			if sl, ok := v.(*ssa.Slice); ok {
				if _, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
					rec(sl.X, true)
				} else if l := loaded(sl); l != nil {
					rec(l, true)
				}
			}
		}
		// Values of types that one goroutine may use at a time: used.
		for _, v := range c.Args {
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
			}
			if unshared(v.Type()) {
				if l := loaded(v); l != nil {
					rec(l, true)
				}
			}
		}
		// Methods of a value held in a field: what it is used for is unknown.
		if g := c.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(c.Args) > 0 && !a.inRepo(g) {
			if k, _, _ := lockOp(c); k == "" {
				if l := loaded(c.Args[0]); l != nil {
					rec(l, false)
				}
			}
		}
	}
}

func sitesOf(s *lockState) map[path]ssa.Instruction {
	r := map[path]ssa.Instruction{}
	for k, v := range s.site {
		r[k] = v
	}
	return r
}

func setter(i ssa.Instruction) bool {
	st, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	var from func(v ssa.Value) bool
	depth := 0
	from = func(v ssa.Value) bool {
		if depth++; depth > 50 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter:
			return true
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.Global); ok && x.X != st.Addr {
				return true
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				s := soleStore(al)
				return s != nil && from(s.Val)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !from(e) {
					return false
				}
			}
			return true
		case *ssa.ChangeType:
			return from(x.X)
		case *ssa.ChangeInterface:
			return from(x.X)
		case *ssa.MakeInterface:
			return from(x.X)
		}
		return false
	}
	return from(st.Val)
}

// unshared reports that the methods of a type must not be called by several
// goroutines at a time.
func unshared(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	switch typeName(p) {
	case "bufio.Writer", "bufio.Reader", "bufio.ReadWriter", "bufio.Scanner", "bytes.Buffer", "strings.Builder", "math/rand.Rand",
		"encoding/json.Encoder", "encoding/json.Decoder":
		return true
	}
	return false
}

// fresh reports that an object was made in this function, so that no other
// goroutine has it.
func fresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		if s := soleStore(x); s != nil {
			return false
		}
		return true
	case *ssa.FieldAddr:
		return fresh(x.X)
	case *ssa.IndexAddr:
		return fresh(x.X)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if s := soleStore(al); s != nil {
				return fresh(s.Val)
			}
		}
	}
	return false
}

// Locks is the rule set of the lock discipline.
func locks(c *Ctx) *lockAnalysis {
	if c.locks != nil {
		return c.locks
	}
	a := &lockAnalysis{c: c, class: map[path]map[*ssa.Function]string{}, sum: map[*ssa.Function]*lockSummary{}, entry: map[*ssa.Function]lockSet{},
		called: map[*ssa.Function]bool{}, acc: map[string][]access{}, order: map[string]map[string]string{}, viol: map[string]bool{},
		paramHeld: map[*ssa.Function]map[int]lockSet{}, callers: map[*ssa.Function]map[*ssa.Function]bool{}}
	c.locks = a
	for f := range ssautil.AllFunctions(c.Prog) {
		if a.inRepo(f) {
			a.fns = append(a.fns, f)
		}
	}
	// Generic functions and methods nothing instantiates are not in there.
	seen := map[*ssa.Function]bool{}
	for _, f := range a.fns {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || !a.inRepo(f) {
			return
		}
		seen[f] = true
		a.fns = append(a.fns, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	for _, p := range c.Prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), "github.com/nanobus/iota/go") {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				if n, ok := x.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(c.Prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })
	// Who calls whom, and who is used as a value.
	value := map[*ssa.Function]bool{}
	a.value = map[*ssa.Function]bool{}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g, _ := a.callee(a.unbound(ci.Common())); g != nil {
						if _, isGo := i.(*ssa.Go); isGo {
							value[g] = true
						} else {
							a.called[g] = true
							a.calls(f, g)
						}
					}
					if k, p, cl := lockOp(ci.Common()); k != "" && p.ok() && cl != "" {
						if a.class[p] == nil {
							a.class[p] = map[*ssa.Function]string{}
						}
						a.class[p][f] = cl
					}
				}
				var ops []*ssa.Value
				ops = i.Operands(ops)
				ci, isCall := i.(ssa.CallInstruction)
				for _, o := range ops {
					if o == nil || *o == nil {
						continue
					}
					var g *ssa.Function
					switch x := (*o).(type) {
					case *ssa.Function:
						g = x
					case *ssa.MakeClosure:
						g = x.Fn.(*ssa.Function)
					}
					if g == nil {
						continue
					}
					if g.Origin() != nil {
						g = g.Origin()
					}
					if isCall && *o == ci.Common().Value {
						continue
					}
					if _, ok := i.(*ssa.ChangeType); ok {
						continue
					}
					if _, isGo := i.(*ssa.Go); isCall && !isGo {
						if callee, _ := a.callee(ci.Common()); callee != nil {
							sync := true
							for n, v := range ci.Common().Args {
								if h, _ := funcOf(v); h == g && !a.callsParam(callee, n) {
									sync = false
								}
							}
							if sync {
								a.called[g] = true
								a.calls(f, g)
								continue
							}
						}
					}
					if _, ok := i.(*ssa.MakeClosure); ok {
						continue // counted where the closure is used
					}
					if _, ok := i.(*ssa.DebugRef); ok {
						continue
					}
					if _, ok := i.(*ssa.Return); ok {
						a.value[g] = true
					}
					value[g] = true
				}
			}
		}
	}
	// A function converted to a named type: what becomes of it is not followed
	// unless it is passed on at once.
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ct, ok := i.(*ssa.ChangeType)
				if !ok {
					continue
				}
				g, _ := funcOf(ct)
				if g == nil {
					continue
				}
				for _, r := range *ct.Referrers() {
					switch x := r.(type) {
					case *ssa.DebugRef:
					case *ssa.Call, *ssa.Defer:
						c := x.(ssa.CallInstruction).Common()
						callee, _ := a.callee(c)
						if callee == nil {
							value[g] = true
							continue
						}
						for n, v := range c.Args {
							if v == ct {
								if a.callsParam(callee, n) {
									a.called[g] = true
									a.calls(f, g)
								} else {
									value[g] = true
								}
							}
						}
					default:
						value[g] = true
					}
				}
			}
		}
	}
	for f := range a.called {
		o := f.Object()
		if value[f] || o != nil && o.Exported() && exportedRecv(f) {
			delete(a.called, f)
		}
	}
	for _, f := range a.fns {
		if !a.called[f] {
			a.entry[f] = lockSet{}
		}
		a.sum[f] = &lockSummary{map[path]int{}, map[path]bool{}, map[path]token.Pos{}, map[string]token.Pos{}}
	}
	for round := 0; round < 8; round++ {
		for _, f := range a.fns {
			a.sum[f] = a.flow(f, false)
		}
		// Locks all callers hold.
		next := map[*ssa.Function]lockSet{}
		a.paramHeld = map[*ssa.Function]map[int]lockSet{}
		for _, f := range a.fns {
			a.callSites(f, func(*ssa.Function, lockSet) {}) // for paramHeld
		}
		for _, f := range a.fns {
			a.callSites(f, func(g *ssa.Function, held lockSet) {
				if !a.called[g] {
					return
				}
				if next[g] == nil {
					next[g] = held
					return
				}
				for k, v := range next[g] {
					if held[k] < v {
						if held[k] == 0 {
							delete(next[g], k)
						} else {
							next[g][k] = held[k]
						}
					}
				}
			})
		}
		same := true
		for g, h := range next {
			if a.entry[g] == nil || !a.entry[g].equal(h) {
				same = false
			}
			a.entry[g] = h
		}
		if same && round > 2 {
			break
		}
	}
	// Classes of locks found held at entry.
	for round := 0; round < 4; round++ {
		for _, f := range a.fns {
			a.callClasses(f)
		}
	}
	for _, f := range a.fns {
		a.flow(f, true)
	}
	return a
}

// exportedRecv reports that a function can be called from other packages.
func exportedRecv(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return true
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return !ok || n.Obj().Exported() || n.NumMethods() > 0
}

// callSites visits the calls of known functions with the locks held there, in
// terms of the callee.
func (a *lockAnalysis) callSites(f *ssa.Function, visit func(g *ssa.Function, held lockSet)) {
	sum := &lockSummary{map[path]int{}, map[path]bool{}, map[path]token.Pos{}, map[string]token.Pos{}}
	e := a.entry[f]
	if e == nil {
		e = lockSet{}
	}
	in := map[*ssa.BasicBlock]*lockState{f.Blocks[0]: {e.clone(), e.clone(), map[*ssa.Defer]bool{}, map[path]ssa.Instruction{}}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	pass := func(b *ssa.BasicBlock, see bool) *lockState {
		s := in[b].clone()
		call := func(c *ssa.CallCommon, pos token.Pos) {
			c = a.unbound(c)
			if see {
				if g, binds := a.callee(c); g != nil && a.sum[g] != nil {
					visit(g, a.unrename(f, s.must, c, binds))
				}
				if p, ok := c.Value.(*ssa.Parameter); ok && !c.IsInvoke() {
					a.paramCall(f, p, s.must)
				}
				a.passed(f, c, func(g *ssa.Function, binds []path, held lockSet) {
					callee, _ := a.callee(c)
					h := s.must.clone()
					if gs := a.sum[callee]; gs != nil {
						for k := range gs.releases {
							if q := rename(k, c, nil); q.ok() {
								delete(h, q)
							}
						}
					}
					cl := lockSet{}
					for k, m := range held {
						h[k] = m
						if n := a.classAt(f, k); n != "" {
							cl[byClass(n)] = m
						}
					}
					for k, m := range a.paramClasses(callee, c, g) {
						cl[k] = m
					}
					r := a.unrename(f, h, &ssa.CallCommon{}, binds)
					for k, m := range cl {
						r[k] = m
					}
					visit(g, r)
				})
			}
			a.apply(f, c, pos, s, sum, false)
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				call(&x.Call, x.Pos())
			case *ssa.Defer:
				s.defers[x] = true
			case *ssa.RunDefers:
				var ds []*ssa.Defer
				for d := range s.defers {
					ds = append(ds, d)
				}
				sort.Slice(ds, func(i, j int) bool { return ds[i].Pos() > ds[j].Pos() })
				for _, d := range ds {
					call(&d.Call, d.Pos())
				}
			}
		}
		return s
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := pass(b, false)
		for _, t := range b.Succs {
			if in[t] == nil {
				in[t] = s.clone()
				work = append(work, t)
			} else if in[t].join(s) {
				work = append(work, t)
			}
		}
	}
	for _, b := range f.Blocks {
		if in[b] != nil {
			pass(b, true)
		}
	}
}

func (a *lockAnalysis) calls(f, g *ssa.Function) {
	if a.callers[g] == nil {
		a.callers[g] = map[*ssa.Function]bool{}
	}
	a.callers[g][f] = true
}

// owner is the function that a function only it calls is a part of.
func (a *lockAnalysis) owner(f *ssa.Function) *ssa.Function {
	for n := 0; n < 10 && a.called[f] && len(a.callers[f]) == 1; n++ {
		for g := range a.callers[f] {
			f = g
		}
	}
	return f
}

// paramCall notes the locks held where a parameter is called.
func (a *lockAnalysis) paramCall(f *ssa.Function, p *ssa.Parameter, held lockSet) {
	for i, q := range f.Params {
		if q != p {
			continue
		}
		if a.paramHeld[f] == nil {
			a.paramHeld[f] = map[int]lockSet{}
		}
		h := a.paramHeld[f][i]
		if h == nil {
			a.paramHeld[f][i] = held.clone()
			return
		}
		for k, v := range h {
			if held[k] < v {
				if held[k] == 0 {
					delete(h, k)
				} else {
					h[k] = held[k]
				}
			}
		}
	}
}

// paramClasses gives by class the locks held where a function passed on is
// called.
func (a *lockAnalysis) paramClasses(callee *ssa.Function, c *ssa.CallCommon, g *ssa.Function) lockSet {
	r := lockSet{}
	for i, v := range c.Args {
		if h, _ := funcOf(v); h == g {
			for k, m := range a.paramHeld[callee][i] {
				if cl := a.classAt(callee, k); cl != "" {
					r[byClass(cl)] = m
				}
			}
		}
	}
	return r
}

func (a *lockAnalysis) callClasses(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := a.unbound(ci.Common())
			g, binds := a.callee(cc)
			if g == nil || a.sum[g] == nil {
				continue
			}
			for p := range a.entry[g] {
				if strings.HasPrefix(p.root, heldPrefix) {
					continue
				}
				q := rename(p, cc, binds)
				if cl := a.classAt(f, q); cl != "" {
					if a.class[p] == nil {
						a.class[p] = map[*ssa.Function]string{}
					}
					a.class[p][g] = cl
				}
			}
			for p := range a.sum[g].acquires {
				q := rename(p, cc, binds)
				if cl := a.classAt(g, p); q.ok() && cl != "" {
					if a.class[q] == nil {
						a.class[q] = map[*ssa.Function]string{}
					}
					a.class[q][f] = cl
				}
			}
		}
	}
}

// Guards: what is accessed under a lock and changes is only accessed under it.
var Guards = &Rule{
	Name: "guards",
	Doc:  "a field or package variable that is written after its construction, and accessed under a lock of the same object, or written under another lock of its package, somewhere, is accessed under it everywhere; only the one function that writes it may read it without",
	Min:  12,
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		var names []string
		for n := range a.acc {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			acc := a.acc[n]
			writes := map[*ssa.Function]bool{}
			guards := map[string]int{}
			classes := map[string]map[string]bool{}
			for _, x := range acc {
				if x.fresh {
					continue
				}
				if x.write {
					writes[a.owner(x.fn)] = true
				}
				shown := map[string]bool{}
				for k := range x.held {
					if !strings.HasPrefix(k.root, heldPrefix) {
						shown[a.classAt(x.fn, k)] = true
					}
				}
				for k, m := range x.held {
					cl := a.classAt(x.fn, k)
					if strings.HasPrefix(k.root, heldPrefix) && shown[cl] {
						continue
					}
					if rel, ok := relative(x.base, k); ok && (!x.write || m == 2) {
						g := "the same object's " + rel
						guards[g]++
						if classes[g] == nil {
							classes[g] = map[string]bool{}
						}
						classes[g][cl] = cl != ""
					} else if cl != "" && own(n, cl) && x.write && m == 2 {
						guards[cl]++
					}
				}
			}
			if len(writes) == 0 || len(guards) == 0 {
				continue
			}
			// The guard is the one most accesses hold.
			best, num := "", 0
			for g, k := range guards {
				if k > num || k == num && g < best {
					best, num = g, k
				}
			}
			total := 0
			for _, x := range acc {
				if x.fresh {
					continue
				}
				total++
				ok := false
				for k, m := range x.held {
					cl := a.classAt(x.fn, k)
					rel, same := relative(x.base, k)
					byCl := strings.HasPrefix(k.root, heldPrefix) && classes[best][cl]
					if (same && "the same object's "+rel == best || cl == best || byCl) && (!x.write || m == 2) {
						ok = true
					}
				}
				if !ok && !x.write && len(writes) == 1 && writes[a.owner(x.fn)] {
					ok = true // the only writer reads what it wrote
				}
				if !ok {
					p := c.Prog.Fset.Position(x.pos)
					what := "read"
					if x.write {
						what = "written"
					}
					viol = append(viol, fmt.Sprintf("%s:%d: %s: %s is %s without %s, under which it is accessed elsewhere", p.Filename, p.Line, x.fn.String(), n, what, best))
				}
			}
			inst = append(inst, fmt.Sprintf("%s by %s: %d accesses", n, best, total))
		}
		return
	},
}

// relative gives the path of a lock from the object accessed.
func relative(base, lock path) (string, bool) {
	if !base.ok() || base.root != lock.root {
		return "", false
	}
	if strings.HasPrefix(lock.sel, base.sel+".") {
		return lock.sel[len(base.sel)+1:], true
	}
	return "", false
}

// own reports that a lock is of the package of a field or variable.
func own(n, class string) bool {
	pk := func(s string) string {
		i := strings.LastIndex(s, "/")
		j := strings.Index(s[i+1:], ".")
		return s[:i+1+j]
	}
	return pk(n) == pk(class)
}

// Released: locks are given back, and not taken twice.
var Released = &Rule{
	Name: "released",
	Doc:  "on every path from a lock to a return it is unlocked, it is not taken again meanwhile, here or in a function called, and it is not unlocked when it is not held",
	Min:  30,
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		for i := 0; i < a.ops; i++ {
			inst = append(inst, "")
		}
		for v := range a.viol {
			viol = append(viol, v)
		}
		sort.Strings(viol)
		return
	},
}

// Order: locks are taken in one order.
var Order = &Rule{
	Name: "order",
	Doc:  "the relation \"taken while holding\" between locks, through all static calls, has no cycle",
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		var from []string
		for f := range a.order {
			from = append(from, f)
		}
		sort.Strings(from)
		var visit func(x string, trail []string)
		visit = func(x string, trail []string) {
			for i, t := range trail {
				if t == x {
					if i == 0 {
						viol = append(viol, "locks are taken in a circle: "+strings.Join(append(trail, x), " -> ")+" at "+a.order[trail[len(trail)-1]][x])
					}
					return
				}
			}
			for y := range a.order[x] {
				visit(y, append(trail[:len(trail):len(trail)], x))
			}
		}
		for _, f := range from {
			for t, at := range a.order[f] {
				inst = append(inst, f+" before "+t+" at "+at)
			}
			visit(f, nil)
		}
		return
	},
}

// Globals: package variables that change are guarded.
var Globals = &Rule{
	Name: "globals",
	Doc:  "in a package with a package-level lock, a package variable that functions update (not only set to a constant or to what they are given), or that holds something one goroutine may use at a time, is only accessed under a lock",
	Min:  3,
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		var names []string
		for n := range a.acc {
			names = append(names, n)
		}
		sort.Strings(names)
		guarded := map[*ssa.Package]bool{}
		for _, p := range c.Prog.AllPackages() {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					t := g.Type().(*types.Pointer).Elem()
					if n := typeName(t); n == "sync.Mutex" || n == "sync.RWMutex" {
						guarded[p] = true
					}
				}
			}
		}
		for _, n := range names {
			acc := a.acc[n]
			if len(acc) == 0 || acc[0].base.root != n || !guarded[acc[0].fn.Pkg] {
				continue
			}
			var first *access
			for i, x := range acc {
				if x.write && !x.fresh && !x.setter {
					first = &acc[i]
				}
			}
			if first == nil {
				continue
			}
			inst = append(inst, fmt.Sprintf("%s: %d accesses", n, len(acc)))
			for _, x := range acc {
				if x.fresh || len(x.held) > 0 {
					continue
				}
				p := c.Prog.Fset.Position(x.pos)
				viol = append(viol, fmt.Sprintf("%s:%d: %s: %s is accessed without a lock, and %s changes it", p.Filename, p.Line, x.fn.String(), n, first.fn.Name()))
			}
		}
		return
	},
}
