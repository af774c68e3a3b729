package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Out is one way a call may end.
type Out struct {
	st      *State
	ret     Value
	pan     *Panic
	blocked bool // waits forever
}

// Panic describes a possible panic.
type Panic struct {
	what string
	pos  token.Pos
	path []string
	expl bool // an explicit panic call
}

type alt struct {
	st      *State
	v       Value
	pan     *Panic
	blocked bool
}

type deferred struct {
	c    *ssa.CallCommon
	fv   Value
	args []Value
	pos  token.Pos
}

type item struct {
	st     *State
	env    []Value
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	count  map[*ssa.BasicBlock]int // back edges taken
	und    map[*ssa.BasicBlock]int // undecided exits seen
	pan    *Panic
}

func (it *item) clone(st *State) *item {
	n := *it
	n.st = st
	n.env = append([]Value(nil), it.env...)
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	if it.count != nil {
		n.count = cp(it.count)
		n.und = cp(it.und)
	}
	return &n
}

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	heads map[*ssa.BasicBlock][]bool // loop head -> member blocks
	live  [][]int                    // registers live into a block
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if f := in.fi[fn]; f != nil {
		return f
	}
	f := &fnInfo{num: map[ssa.Value]int{}, heads: map[*ssa.BasicBlock][]bool{}}
	add := func(v ssa.Value) {
		f.num[v] = f.n
		f.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := f.heads[s]
				if m == nil {
					m = make([]bool, len(fn.Blocks))
					m[s.Index] = true
					f.heads[s] = m
				}
				// natural loop
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if m[x.Index] {
						continue
					}
					m[x.Index] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	// liveness
	nb := len(fn.Blocks)
	in1 := make([]map[int]bool, nb)
	for i := range in1 {
		in1[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			l := map[int]bool{}
			for _, s := range b.Succs {
				for r := range in1[s.Index] {
					l[r] = true
				}
				for _, i := range s.Instrs {
					p, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, f.num[p])
				}
			}
			for _, s := range b.Succs {
				for _, i := range s.Instrs {
					p, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b {
							if r, ok := f.num[p.Edges[k]]; ok {
								l[r] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if v, ok := i.(ssa.Value); ok {
					delete(l, f.num[v])
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				var ops [10]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					if *o == nil {
						continue
					}
					if r, ok := f.num[*o]; ok {
						l[r] = true
					}
				}
			}
			// phis are defined on entry: they are live into the body
			for _, i := range b.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				l[f.num[p]] = true
			}
			if len(l) != len(in1[bi]) {
				in1[bi] = l
				ch = true
			}
		}
	}
	f.live = make([][]int, nb)
	for i := range in1 {
		f.live[i] = sortedKeys(in1[i])
	}
	in.fi[fn] = f
	return f
}

// Stats counts what an analysis looked at.
type Stats struct {
	Funcs   map[*ssa.Function]int
	Sites   map[token.Pos]int // panic sites proved or reported
	Asserts map[string]int
	Calls   int
	States  int
	Merges  int
	Widen   int
	Opaque  map[string]int
}

type Viol struct {
	Scenario string
	What     string
	Pos      token.Pos
	Path     []string
	State    string
}

// Interp is one analysis.
type Interp struct {
	Prog                                          *ssa.Program
	syms                                          []*Sym
	memo                                          map[string]int
	bySrc                                         map[int][]int // symbols defined by bits of a symbol
	keyedBool                                     map[int]bool
	ptrInts                                       map[int]Ptr
	boolEq                                        map[int][2]*Bytes // contents a boolean says are equal
	srcs                                          []string
	srcAny                                        map[int]bool
	constSrc                                      map[string]int
	imprecise                                     int
	nbool                                         int
	nopq                                          int
	nobj                                          int
	notOf                                         map[Bit]Bit
	fi                                            map[*ssa.Function]*fnInfo
	globals                                       map[*ssa.Global]int
	stack                                         []frame
	S                                             Stats
	Viols                                         []Viol
	budget, entWork                               int
	deadline                                      time.Time
	ticks                                         int
	over                                          bool
	cur                                           token.Pos
	Interpret                                     func(fn *ssa.Function) bool
	tables                                        map[int]*table
	havocTypes                                    map[string]Value
	Trace                                         bool
	Scenario                                      string
	opqVal                                        map[string]Value
	entryObj                                      []int
	RepoPath                                      string
	allocBound                                    *Aff
	HarnessDelay, MaxEntries, MaxDelayed, MaxOuts int
	reached                                       map[string]bool
	countUnlocks                                  bool
	models                                        map[string]*ssa.Function
	contracts, instead                            map[*ssa.Function]*ssa.Function
}

type frame struct {
	fn  *ssa.Function
	pos token.Pos // where it was called
}

func NewInterp(prog *ssa.Program) *Interp {
	in := &Interp{Prog: prog, memo: map[string]int{}, bySrc: map[int][]int{}, boolEq: map[int][2]*Bytes{}, keyedBool: map[int]bool{}, ptrInts: map[int]Ptr{}, constSrc: map[string]int{}, notOf: map[Bit]Bit{}, srcAny: map[int]bool{},
		fi: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]int{}, tables: map[int]*table{}, opqVal: map[string]Value{},
		contracts: map[*ssa.Function]*ssa.Function{}, instead: map[*ssa.Function]*ssa.Function{}}
	in.S = Stats{Funcs: map[*ssa.Function]int{}, Sites: map[token.Pos]int{}, Asserts: map[string]int{}, Opaque: map[string]int{}}
	in.srcs = []string{"-"}
	in.nopq, in.nbool = 1, 1
	in.RepoPath = "github.com/nanobus/iota/go"
	in.HarnessDelay, in.MaxEntries = 12, 400
	in.reached = map[string]bool{}
	return in
}

func (in *Interp) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i == 0 {
		f = f[len("/repo/"):]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// where gives the call path to the current instruction.
func (in *Interp) where() []string {
	var p []string
	for i, f := range in.stack {
		s := f.fn.String()
		if i > 0 && f.pos.IsValid() {
			s += " called at " + in.posStr(f.pos)
		}
		p = append(p, s)
	}
	return p
}

func (in *Interp) panicAt(what string) *Panic {
	return &Panic{what: what, pos: in.cur, path: in.where()}
}

// Undecided is thrown when the analysis cannot go on.
type Undecided struct{ Why string }

func (in *Interp) giveUp(f string, a ...interface{}) {
	panic(Undecided{fmt.Sprintf(f, a...) + " at " + in.posStr(in.cur) + " in " + strings.Join(in.where(), " > ")})
}

// tick gives up when the time for an analysis is over.
func (in *Interp) tick() {
	if in.ticks++; in.ticks%16 == 0 && time.Now().After(in.deadline) {
		in.giveUp("out of time")
	}
}

func (in *Interp) exec(st *State, fn *ssa.Function, args, binds []Value, pos token.Pos) (outs []Out) {
	if c := in.instead[fn]; c != nil {
		fn = c
	}
	if len(fn.Blocks) == 0 {
		in.giveUp("no body for %s", fn)
	}
	in.tick()
	n := 0
	for _, f := range in.stack {
		if f.fn == fn {
			n++
		}
	}
	if n >= 1 {
		c := in.contracts[fn]
		if c == nil && n >= 3 {
			// a helper taking the place of the recursive function
			for f, x := range in.contracts {
				if fnPkg(f) == fnPkg(fn) && types.Identical(f.Signature.Params(), fn.Signature.Params()) && types.Identical(f.Signature.Results(), fn.Signature.Results()) &&
					f.Signature.Recv() != nil && fn.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), fn.Signature.Recv().Type()) {
					c = x
				}
			}
		}
		if c != nil {
			return in.exec(st, c, args, nil, pos)
		}
		if n >= 12 {
			in.giveUp("recursion of %s", fn)
		}
	}
	if len(in.stack) > 150 {
		in.giveUp("call depth")
	}
	in.stack = append(in.stack, frame{fn, pos})
	save := in.cur
	in.entryObj = append(in.entryObj, in.nobj)
	defer func() {
		in.stack = in.stack[:len(in.stack)-1]
		in.entryObj = in.entryObj[:len(in.entryObj)-1]
		in.cur = save
	}()
	in.S.Funcs[fn]++
	f := in.info(fn)
	it := &item{st: st, env: make([]Value, f.n), blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		it.env[f.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		it.env[f.num[p]] = binds[i]
	}
	a := &activation{in: in, fn: fn, f: f, entryObj: in.nobj, entrySym: len(in.syms), entryOpq: in.nopq, entryBool: in.nbool, entrySrc: len(in.srcs), heads: map[*ssa.BasicBlock][]*item{}, nouts: map[*ssa.BasicBlock]int{}}
	if in.Trace {
		fmt.Printf("%*s> %s\n", len(in.stack), "", fn)
	}
	a.work = append(a.work, it)
	for len(a.work) > 0 {
		x := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.run(x)
	}
	outs = in.reduceOuts(in.joinOuts(a.outs, a), a)
	if in.Trace {
		fmt.Printf("%*s< %s: %d outs (%d)\n", len(in.stack), "", fn, len(outs), len(a.outs))
	}
	return outs
}

type activation struct {
	in        *Interp
	fn        *ssa.Function
	f         *fnInfo
	work      []*item
	outs      []Out
	entryObj  int
	entrySym  int
	entryOpq  int
	entryBool int
	entrySrc  int
	joined    int
	heads     map[*ssa.BasicBlock][]*item
	nouts     map[*ssa.BasicBlock]int
}

func (a *activation) get(it *item, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return a.in.constVal(it.st, v)
	case *ssa.Function:
		return Func{fn: v}
	case *ssa.Global:
		return Ptr{o: a.in.globalObj(it.st, v)}
	case *ssa.Builtin:
		return Func{native: "builtin." + v.Name()}
	}
	i, ok := a.f.num[v]
	if !ok {
		a.in.giveUp("register %s", v)
	}
	return it.env[i]
}

// enter moves an item to a block, widening at loop heads. It reports whether
// the item should go on.
func (a *activation) enter(it *item, to *ssa.BasicBlock) bool {
	in := a.in
	from := it.blk
	it.prev, it.blk, it.idx = from, to, 0
	// phis
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	var vals []Value
	n := 0
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, a.get(it, p.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		it.env[a.f.num[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	it.idx = n
	mem := a.f.heads[to]
	if mem == nil {
		return true
	}
	if !mem[from.Index] { // loop entry
		if it.count != nil {
			delete(it.count, to)
			delete(it.und, to)
		}
		return true
	}
	if it.count == nil {
		it.count = map[*ssa.BasicBlock]int{}
		it.und = map[*ssa.BasicBlock]int{}
	}
	it.count[to]++
	c := it.count[to]
	u := it.und[to]
	if u == 0 || u < 100 && (c < 6 || c < 16 && in.isHarness(a.fn)) { // 100: an undecided exit; 1: a fork
		if c > 700 {
			in.giveUp("loop of %d decided iterations", c)
		}
		return true
	}
	return a.widen(it, to)
}

func (a *activation) markFork(it *item, w int) {
	for h, m := range a.f.heads {
		if m[it.blk.Index] {
			if it.und == nil {
				it.count = map[*ssa.BasicBlock]int{}
				it.und = map[*ssa.BasicBlock]int{}
			}
			if it.und[h] < w {
				it.und[h] = w
			}
		}
	}
}

func (a *activation) run(it *item) {
	in := a.in
	for {
		in.budget--
		if in.budget < 0 {
			in.giveUp("step budget exhausted")
		}
		if it.st.bot {
			return
		}
		i := it.blk.Instrs[it.idx]
		if p := i.Pos(); p.IsValid() {
			in.cur = p
		}
		switch i := i.(type) {
		case *ssa.If:
			c, ok := a.get(it, i.Cond).(Bool)
			if !ok {
				in.giveUp("condition %s", in.Show(it.st, a.get(it, i.Cond)))
			}
			t, f := in.can(it.st, c)
			if t && f {
				// an undecided exit of a loop?
				for h, m := range a.f.heads {
					if m[it.blk.Index] && (!m[it.blk.Succs[0].Index] || !m[it.blk.Succs[1].Index]) {
						if it.und == nil {
							it.count = map[*ssa.BasicBlock]int{}
							it.und = map[*ssa.BasicBlock]int{}
						}
						it.und[h] = 100
					}
				}
				a.markFork(it, 1)
				if in.inRepo(a.fn) {
					it.st.trace = &traceN{in.cur, it.st.trace}
				}
				o := it.clone(it.st.clone())
				in.assume(o.st, c, false)
				in.assume(it.st, c, true)
				in.S.States++
				if !o.st.bot && a.enter(o, it.blk.Succs[1]) {
					a.work = append(a.work, o)
				}
				if it.st.bot || !a.enter(it, it.blk.Succs[0]) {
					return
				}
				continue
			}
			s := it.blk.Succs[1]
			if t {
				s = it.blk.Succs[0]
			}
			if !a.enter(it, s) {
				return
			}
			continue
		case *ssa.Jump:
			if !a.enter(it, it.blk.Succs[0]) {
				return
			}
			continue
		case *ssa.Return:
			var v Value
			switch len(i.Results) {
			case 0:
			case 1:
				v = a.get(it, i.Results[0])
			default:
				t := make(Tuple, len(i.Results))
				for k, r := range i.Results {
					t[k] = a.get(it, r)
				}
				v = t
			}
			a.outs = append(a.outs, Out{st: it.st, ret: v})
			if len(a.outs) > 400 && len(a.outs) > 2*a.joined {
				a.outs = in.reduceOuts(in.joinOuts(a.outs, a), a)
				a.joined = len(a.outs)
				if len(a.outs) > 3000 {
					in.giveUp("too many outcomes of %s", a.fn)
				}
			}
			return
		case *ssa.Panic:
			it.pan = in.panicAt("explicit panic: " + in.Show(it.st, a.get(it, i.X)))
			it.pan.expl = true
			a.unwind(it)
			return
		case *ssa.RunDefers:
			alts := a.runDefers(it.st, it.defers)
			it.defers = nil
			if !a.cont(it, alts, -1) {
				return
			}
			continue
		case *ssa.Defer:
			d := deferred{c: &i.Call, pos: i.Pos()}
			d.fv, d.args = a.callArgs(it, &i.Call)
			it.defers = append(it.defers[:len(it.defers):len(it.defers)], d)
			it.idx++
			continue
		case *ssa.Go:
			fv, args := a.callArgs(it, &i.Call)
			if i.Call.IsInvoke() {
				args = append([]Value{fv}, args...)
				fv = Func{native: "invoke", binds: []Value{i.Call.Method.FullName(), i.Call.Method}}
			}
			it.st.spawns = append(it.st.spawns[:len(it.st.spawns):len(it.st.spawns)], spawn{fv, args, in.posStr(i.Pos())})
			it.idx++
			continue
		case *ssa.DebugRef:
			it.idx++
			continue
		}
		reg := -1
		if v, ok := i.(ssa.Value); ok {
			reg = a.f.num[v]
		}
		alts := a.step(it, i)
		if len(alts) == 1 && alts[0].pan == nil && !alts[0].blocked {
			it.st = alts[0].st
			if reg >= 0 {
				it.env[reg] = alts[0].v
			}
			it.idx++
			continue
		}
		if !a.cont(it, alts, reg) {
			return
		}
	}
}

// cont continues an item with each alternative; it reports whether the item
// itself goes on.
func (a *activation) cont(it *item, alts []alt, reg int) bool {
	var live []alt
	for _, x := range alts {
		if x.st.bot {
			continue
		}
		switch {
		case x.blocked:
			a.outs = append(a.outs, Out{st: x.st, blocked: true})
		case x.pan != nil:
			o := it.clone(x.st)
			o.pan = x.pan
			a.unwind(o)
		default:
			live = append(live, x)
		}
	}
	if len(live) == 0 {
		return false
	}
	if len(live) > 1 {
		a.markFork(it, 1)
	}
	for _, x := range live[1:] {
		o := it.clone(x.st)
		if reg >= 0 {
			o.env[reg] = x.v
		}
		o.idx++
		a.work = append(a.work, o)
	}
	it.st = live[0].st
	if reg >= 0 {
		it.env[reg] = live[0].v
	}
	it.idx++
	return true
}

// unwind runs the deferred calls of a panicking item.
func (a *activation) unwind(it *item) {
	in := a.in
	it.st.panicking++
	depth := it.st.panicking
	for _, x := range a.runDefers(it.st, it.defers) {
		if x.st.bot {
			continue
		}
		if x.blocked {
			a.outs = append(a.outs, Out{st: x.st, blocked: true})
			continue
		}
		p := it.pan
		if x.pan != nil {
			p = x.pan
		}
		if x.st.recovered >= depth {
			x.st.recovered = 0
			x.st.panicking = depth - 1
			if a.fn.Recover != nil {
				o := it.clone(x.st)
				o.defers = nil
				o.pan = nil
				o.blk = a.fn.Recover
				o.prev = nil
				o.idx = 0
				a.work = append(a.work, o)
			} else {
				a.outs = append(a.outs, Out{st: x.st, ret: in.zero(a.fn.Signature.Results())})
			}
			continue
		}
		x.st.panicking = depth - 1
		a.outs = append(a.outs, Out{st: x.st, pan: p})
	}
}

func (a *activation) runDefers(st *State, ds []deferred) []alt {
	cur := []alt{{st: st}}
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		var next []alt
		for _, c := range cur {
			if c.blocked || c.st.bot {
				next = append(next, c)
				continue
			}
			save := a.in.cur
			a.in.cur = d.pos
			for _, x := range a.call(c.st, d.c, d.fv, d.args, d.pos) {
				if x.pan == nil {
					x.pan = c.pan
				}
				next = append(next, x)
			}
			a.in.cur = save
		}
		cur = next
	}
	return cur
}

func (in *Interp) joinOuts(outs []Out, a *activation) []Out {
	if len(outs) < 2 {
		return outs
	}
	var res []Out
	groups := map[string][]int{}
	for _, o := range outs {
		if o.st.bot {
			continue
		}
		if o.pan != nil {
			// one representative per site and state
			k := "p:" + o.pan.what + in.posStr(o.pan.pos) + in.outKey(Out{st: o.st}, a.entryObj)
			if len(groups[k]) > 0 {
				if m := in.joinState(res[groups[k][0]].st, o.st, a); m != nil {
					res[groups[k][0]].st = m
					continue
				}
			}
			groups[k] = append(groups[k], len(res))
			res = append(res, o)
			continue
		}
		in.tick()
		k := in.outKey(o, a.entryObj)
		if o.blocked {
			k = "blocked:" + k
		}
		done := false
		for _, i := range groups[k] {
			r := res[i]
			if len(groups[k]) < 24 && in.gap(r.st, o.st, a) {
				continue
			}
			if m := in.joinState(r.st, o.st, a); m != nil {
				res[i].st = m
				in.S.Merges++
				done = true
				break
			}
		}
		if !done {
			groups[k] = append(groups[k], len(res))
			res = append(res, o)
		}
	}
	return res
}

// outKey is a syntactic key of everything a caller can see of an outcome but
// the constraints.
func (in *Interp) outKey(o Out, entry int) string {
	k := newKeyer(in, o.st)
	k.val(o.ret)
	for _, id := range sortedKeys(o.st.heap) {
		if id <= entry {
			k.obj(id)
		}
	}
	k.rest(o.st)
	return k.String()
}

// keyer writes values so that equal keys mean equal values.
type keyer struct {
	strings.Builder
	in   *Interp
	s    *State
	objs map[int]int
	q    []int
}

func newKeyer(in *Interp, s *State) *keyer {
	return &keyer{in: in, s: s, objs: map[int]int{}}
}
func (k *keyer) obj(id int) {
	if _, ok := k.objs[id]; ok {
		return
	}
	k.objs[id] = len(k.objs)
	fmt.Fprintf(k, "o%d=", id)
	k.val(k.s.heap[id])
	k.WriteByte(';')
}
func (k *keyer) val(v Value) {
	switch v := v.(type) {
	case nil:
		k.WriteByte('-')
	case *Int:
		if v.A != nil {
			fmt.Fprintf(k, "i%d%v:%s", v.W, v.S, v.A.Key())
		} else {
			fmt.Fprintf(k, "b%d%v:%s", v.W, v.S, bitsKey(v.B))
		}
	case Bool:
		if v.K < 2 {
			fmt.Fprintf(k, "B%d", v.K)
		} else {
			fmt.Fprintf(k, "C%d,%d,%v,%v,%s", v.C.op, v.C.id, v.C.neg, v.C.k, bitsKey(v.C.b))
			if v.C.a != nil {
				k.WriteString(v.C.a.Key())
			}
		}
	case Term:
		k.WriteString("t" + v.key)
	case Str:
		k.bytes(v.Bytes)
	case *Bytes:
		k.bytes(v)
	case *Struct:
		k.WriteByte('{')
		for _, x := range v.f {
			k.val(x)
			k.WriteByte(',')
		}
		k.WriteByte('}')
	case *Arr:
		k.WriteByte('[')
		for _, x := range v.e {
			k.val(x)
			k.WriteByte(',')
		}
		k.WriteByte(']')
	case *SymArr:
		fmt.Fprintf(k, "S%s%v[", v.n.Key(), v.zero)
		for _, c := range v.cells {
			k.WriteString(c.i.Key())
			k.WriteByte(':')
			k.val(c.v)
		}
		k.WriteByte(']')
	case Ptr:
		k.WriteString("&" + ptrKey(v))
		k.obj(v.o)
	case Nil:
		k.WriteString("nil")
	case Slice:
		fmt.Fprintf(k, "s%d:%s:%s:%s:%s", v.nilID, ptrKey(v.base), v.off.Key(), v.len.Key(), v.cap.Key())
		if v.nilID >= 0 {
			k.obj(v.base.o)
		}
	case Iface:
		fmt.Fprintf(k, "I(%s)", v.t)
		k.val(v.v)
	case Opaque:
		fmt.Fprintf(k, "?%d(%v)", v.id, v.t)
	case Func:
		fmt.Fprintf(k, "F%p%s(", v.fn, v.native)
		for _, x := range v.binds {
			k.val(x)
			k.WriteByte(',')
		}
		k.WriteByte(')')
	case *MapV:
		fmt.Fprintf(k, "M%v{", v.open)
		for i := range v.keys {
			k.val(v.keys[i])
			k.WriteByte(':')
			k.val(v.vals[i])
			k.WriteByte(',')
		}
		k.WriteByte('}')
	case *ChanV:
		fmt.Fprintf(k, "ch%v%s[", v.closed, v.cap.Key())
		for _, x := range v.buf {
			k.val(x)
			k.WriteByte(',')
		}
		k.WriteByte(']')
	case Tuple:
		k.WriteByte('(')
		for _, x := range v {
			k.val(x)
			k.WriteByte(',')
		}
		k.WriteByte(')')
	case *iter:
		fmt.Fprintf(k, "it%d/%d", v.o, v.i)
	default:
		fmt.Fprintf(k, "%T%v", v, v)
	}
}
func (k *keyer) bytes(b *Bytes) {
	k.WriteString("<" + b.n.Key() + "|")
	for _, g := range b.segs {
		switch g.k {
		case sByte:
			k.val(g.b)
		case sRef:
			fmt.Fprintf(k, "r%d@%s+%s", g.src, g.off.Key(), g.n.Key())
		case sZero:
			fmt.Fprintf(k, "z%s", g.n.Key())
		}
		k.WriteByte(' ')
	}
	k.WriteByte('>')
}
func (k *keyer) rest(s *State) {
	fmt.Fprintf(k, "|L%v|O%v|E%v|N%v|P%d,%d|", s.locks, s.once, len(s.spawns), s.notes, s.panicking, s.recovered+1000*s.unlocks)
	for _, w := range s.waits {
		fmt.Fprintf(k, "W%v", w.send)
		k.val(w.ch)
	}
	for _, sp := range s.spawns {
		k.val(sp.fn)
		for _, x := range sp.args {
			k.val(x)
		}
	}
}

// joinState joins two states with the same heap: constraints both have stay.
func (in *Interp) joinState(x, y *State, a *activation) *State {
	// bits decided differently on caller-visible symbols: keep apart
	if in.partitioned(x, y, a) {
		return nil
	}
	r := x.clone()
	// Decisions on things the caller knows: only one may differ, so that
	// precision is kept where it matters.
	r.bools = interB(x.bools, y.bools)
	r.nils = interB(x.nils, y.nils)
	r.eqs = map[string]bool{}
	r.bitv = map[Bit]int{}
	for b, v := range x.bitv {
		if w, ok := y.bitv[b]; ok && w == v {
			r.bitv[b] = v
		}
	}
	rng := map[int]Iv{}
	for id := range x.rng {
		vx := x.rng[id]
		vy := in.symRange(y, id)
		rng[id] = vx.Join(vy)
	}
	for id := range y.rng {
		if _, ok := x.rng[id]; !ok {
			rng[id] = y.rng[id].Join(in.syms[id].rng)
		}
	}
	// a hull of distant decisions is too coarse: refuse to merge
	r.rng, r.rshare = rng, false
	r.facts = nil
	for _, f := range x.facts {
		if in.hasFact(y, f) {
			r.facts = append(r.facts, f)
		}
	}
	for _, f := range y.facts {
		if !in.hasFactIn(r.facts, f) && in.hasFact(x, f) {
			r.facts = append(r.facts, f)
		}
	}
	r.nbits = nil
	for _, n := range x.nbits {
		if in.lacks(y, n) {
			r.nbits = append(r.nbits, n)
		}
	}
	r.neqs = nil
	for _, n := range x.neqs {
		if in.impliesNeq(y, n) {
			r.neqs = append(r.neqs, n)
		}
	}
	for _, n := range y.neqs {
		if in.impliesNeq(x, n) {
			r.neqs = append(r.neqs, n)
		}
	}
	return r
}

func (in *Interp) impliesNeq(s *State, n *Aff) bool {
	t, f := in.canCond(s, Cond{op: cEQ, a: n})
	return f && !t
}
func (in *Interp) hasFactIn(fs []*Aff, f *Aff) bool {
	for _, g := range fs {
		if g.Eq(f) {
			return true
		}
	}
	return false
}
func (in *Interp) hasFact(s *State, f *Aff) bool {
	return in.hasFactIn(s.facts, f) || in.entails(s, f)
}

// partitioned says two states decided opaque outcomes differently, which a
// caller may test again.
func (in *Interp) partitioned(x, y *State, a *activation) bool {
	for id, v := range x.bools {
		if w, ok := y.bools[id]; ok && w != v && !a.localBool(id) {
			return true
		}
	}
	for id, v := range x.nils {
		if w, ok := y.nils[id]; ok && w != v && id <= a.entryOpq {
			return true
		}
	}
	return false
}

func interB(x, y map[int]bool) map[int]bool {
	r := map[int]bool{}
	for k, v := range x {
		if w, ok := y[k]; ok && w == v {
			r[k] = v
		}
	}
	return r
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// lacks reports whether a state excludes a bit pattern.
func (in *Interp) lacks(s *State, n nbit) bool {
	t, _ := in.canCond(s, Cond{op: cBits, b: n.b, k: n.k})
	return !t
}

// gap says the hull of the ranges of the values known to the caller covers
// executions neither state does.
func (in *Interp) gap(x, y *State, a *activation) bool {
	diff, xin, yin := 0, true, true
	gap := false
	chk := func(id int) {
		if !a.visible(id) {
			return
		}
		v, w := in.symRange(x, id), in.symRange(y, id)
		if v == w {
			return
		}
		diff++
		xin = xin && v.In(w)
		yin = yin && w.In(v)
		if v.hi.Add(N(1)).Cmp(w.lo) < 0 || w.hi.Add(N(1)).Cmp(v.lo) < 0 {
			gap = true
		}
	}
	for id := range x.rng {
		chk(id)
	}
	for id := range y.rng {
		if _, ok := x.rng[id]; !ok {
			chk(id)
		}
	}
	// what one state excludes is what the other has
	excl := func(x, y *State) {
		for _, n := range x.neqs {
			if r := in.affRange(y, n); r.lo.Sign() == 0 && r.hi.Sign() == 0 {
				for _, t := range n.t {
					if !a.visible(t.s) {
						return
					}
				}
				gap = true
			}
		}
	}
	if !gap {
		excl(x, y)
		excl(y, x)
	}
	return gap || diff > 1 && !xin && !yin
}

// visible says the caller may know a symbol: it is older than the call or a
// byte of something older.
func (a *activation) visible(id int) bool {
	if id < a.entrySym {
		return true
	}
	sy := a.in.syms[id]
	if sy.off == nil || sy.src >= a.entrySrc {
		return false
	}
	for _, t := range sy.off.t {
		if !a.visible(t.s) {
			return false
		}
	}
	return true
}
