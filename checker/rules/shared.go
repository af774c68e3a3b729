package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sections: what is decided under a lock is done under it.
var Sections = &Rule{
	Name: "sections",
	Doc:  "a function does not give a lock back between reading a field under it and writing one of the same object under it",
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		type key struct {
			f    *ssa.Function
			lock path
			base path
		}
		type at struct {
			site  ssa.Instruction
			write bool
			acc   access
		}
		all := map[key][]at{}
		for n, acc := range a.acc {
			if strings.HasSuffix(n, " (put)") {
				continue
			}
			for _, x := range acc {
				for k, site := range x.sites {
					if _, ok := relative(x.base, k); !ok && x.base.root == k.root {
						continue
					}
					q := key{x.fn, k, x.base}
					all[q] = append(all[q], at{site, x.write, x})
				}
			}
		}
		seen := map[string]bool{}
		for q, l := range all {
			inst = append(inst, q.f.String()+": "+q.lock.String())
			for _, x := range l {
				for _, y := range l {
					if x.site == y.site || !y.write || !reaches(x.site, y.site) {
						continue
					}
					p := c.Prog.Fset.Position(y.acc.pos)
					r := c.Prog.Fset.Position(y.site.Pos())
					v := fmt.Sprintf("%s:%d: %s: writes what it looked at before it took the lock again at line %d", p.Filename, p.Line, q.f.String(), r.Line)
					if !seen[v] {
						seen[v] = true
						viol = append(viol, v)
					}
				}
			}
		}
		sort.Strings(inst)
		sort.Strings(viol)
		return
	},
}

// reaches reports that control can pass from one instruction to another.
func reaches(x, y ssa.Instruction) bool {
	b := x.Block()
	if b == y.Block() {
		for _, i := range b.Instrs {
			if i == x {
				return true
			}
			if i == y {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t == y.Block() {
			return true
		}
		work = append(work, t.Succs...)
	}
	return false
}

// onceOnly reports that a function only runs in sync.Once.Do.
func (a *lockAnalysis) onceOnly(f *ssa.Function) bool {
	if a.once == nil {
		a.once = map[*ssa.Function]bool{}
		for _, g := range a.fns {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					callee := ci.Common().StaticCallee()
					if callee == nil || callee.Object() == nil || callee.Object().Pkg() == nil || callee.Object().Pkg().Path() != "sync" || callee.Name() != "Do" {
						continue
					}
					for _, v := range ci.Common().Args {
						if h, _ := funcOf(v); h != nil {
							a.once[h] = true
							// A method value: the method itself.
							if h.Synthetic != "" && h.Object() != nil {
								if m, ok := h.Object().(*types.Func); ok {
									if w := a.c.Prog.FuncValue(m); w != nil {
										a.once[w] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for n := 0; n < 10 && f != nil; n++ {
		if a.once[f] {
			return true
		}
		if !a.called[f] || len(a.callers[f]) != 1 {
			return false
		}
		for g := range a.callers[f] {
			f = g
		}
	}
	return false
}

// Closes: a channel is not closed twice by two at the same time.
var Closes = &Rule{
	Name: "closes",
	Doc:  "a channel kept in a field is closed under a lock or by a function that sync.Once runs",
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		for _, f := range a.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					bi, ok := ci.Common().Value.(*ssa.Builtin)
					if !ok || bi.Name() != "close" {
						continue
					}
					u, ok := ci.Common().Args[0].(*ssa.UnOp)
					if !ok {
						continue
					}
					if _, ok := u.X.(*ssa.FieldAddr); !ok {
						continue
					}
					p := c.Prog.Fset.Position(i.Pos())
					s := fmt.Sprintf("%s:%d: %s", p.Filename, p.Line, f.String())
					inst = append(inst, s)
					if !a.onceOnly(f) && !a.heldAt(f, i) {
						viol = append(viol, s+": closes a channel without a lock or sync.Once")
					}
				}
			}
		}
		return
	},
}

// heldAt reports that some lock is held at a close.
func (a *lockAnalysis) heldAt(f *ssa.Function, i ssa.Instruction) bool {
	for n, acc := range a.acc {
		if !strings.HasSuffix(n, " (put)") {
			continue
		}
		for _, x := range acc {
			if x.fn == f && x.pos == i.Pos() && len(x.held) > 0 {
				return true
			}
		}
	}
	return false
}

// monitors are the types used by several goroutines at a time that protect
// all they change.
var monitors = []string{
	"/internal/buffer.Unbounded", "/invoke.LiveInstances", "/proxy.Lookup", "/proxy.node",
	"/transport/rsocket.Transport", "/transport/rsocket.tcpServerTransport", "/transport/rsocket.TCPConn",
}

// Monitors: what several goroutines use changes only under a lock.
var Monitors = &Rule{
	Name: "monitors",
	Doc:  "the fields of the types that several goroutines use are written after construction only under a lock, by a function that sync.Once runs, or by setters",
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		for n, acc := range a.acc {
			in := false
			for _, m := range monitors {
				in = in || strings.HasPrefix(n, a.root()+m+".")
			}
			if !in || strings.HasSuffix(n, " (put)") {
				continue
			}
			for _, x := range acc {
				if !x.write || x.fresh {
					continue
				}
				p := c.Prog.Fset.Position(x.pos)
				s := fmt.Sprintf("%s:%d: %s: %s", p.Filename, p.Line, x.fn.String(), n)
				inst = append(inst, s)
				constant := false
				if st, ok := x.instr.(*ssa.Store); ok {
					_, constant = st.Val.(*ssa.Const)
				}
				if len(x.held) == 0 && (!x.setter || constant) && !a.onceOnly(x.fn) {
					viol = append(viol, s+" is written without a lock")
				}
			}
		}
		sort.Strings(inst)
		sort.Strings(viol)
		return
	},
}

func (a *lockAnalysis) root() string { return "github.com/nanobus/iota/go" }

// Sharing applies the rules on locks to what is named: types and packages,
// from the root of the module.
func Sharing(names ...string) *Rule {
	return &Rule{
		Name: "sharing",
		Doc:  "the rules guards, globals, released, sections, closes and monitors of C23, on " + strings.Join(names, ", "),
		Min:  1,
		Run: func(c *Ctx) (inst, viol []string) {
			keep := func(l []string) (r []string) {
				for _, s := range l {
					for _, n := range names {
						if strings.Contains(s, "github.com/nanobus/iota/go/"+n+".") || strings.Contains(s, "github.com/nanobus/iota/go/"+n+")") ||
							strings.Contains(s, "github.com/nanobus/iota/go/"+n+"[") || strings.Contains(s, "github.com/nanobus/iota/go/"+n+" ") {
							r = append(r, s)
							break
						}
					}
				}
				return
			}
			for _, r := range []*Rule{Guards, Globals, Released, Sections, Closes, Monitors} {
				i, v := r.Run(c)
				inst = append(inst, keep(i)...)
				viol = append(viol, keep(v)...)
			}
			return
		},
	}
}

// Counters: stream identifiers are counted atomically.
var Counters = &Rule{
	Name: "counters",
	Doc:  "a method Next of a counter of stream identifiers takes its counter forward by one sync/atomic addition or compare-and-swap, or under a lock, and does not touch it otherwise",
	Min:  2,
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		for _, f := range a.fns {
			if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/socket") || f.Signature.Recv() == nil {
				continue
			}
			p := c.Prog.Fset.Position(f.Pos())
			s := fmt.Sprintf("%s:%d: %s", p.Filename, p.Line, f.String())
			inst = append(inst, s)
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.Store:
						if q := pathOf(x.Addr, 0); q.root == "p0" && !strings.HasSuffix(q.sel, "&") && !a.underLock(x, f) {
							viol = append(viol, s+": sets the counter without sync/atomic")
						}
					case *ssa.UnOp:
						if x.Op.String() == "*" {
							if q := pathOf(x, 0); q.root == "p0" && strings.HasSuffix(q.sel, "*") && !a.underLock(x, f) {
								viol = append(viol, s+": reads the counter without sync/atomic")
							}
						}
					case ssa.CallInstruction:
						g := x.Common().StaticCallee()
						if g == nil || g.Object() == nil || g.Object().Pkg() == nil || g.Object().Pkg().Path() != "sync/atomic" {
							continue
						}
						if strings.HasPrefix(g.Name(), "Store") || strings.HasPrefix(g.Name(), "Swap") {
							viol = append(viol, s+": sets the counter to what another may have given out, with "+g.Name())
						}
					}
				}
			}
		}
		return
	},
}

// underLock reports that some lock is held at an instruction.
func (a *lockAnalysis) underLock(i ssa.Instruction, f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, j := range b.Instrs {
			if ci, ok := j.(ssa.CallInstruction); ok {
				if k, _, _ := lockOp(ci.Common()); k == "Lock" && reaches(j, i) {
					n++
				}
			}
		}
	}
	return n > 0
}
