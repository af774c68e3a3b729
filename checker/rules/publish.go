package rules

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Publish: what a function waits for is complete when it is announced.
var Publish = &Rule{
	Name: "publish",
	Doc:  "a function literal that announces something on a channel it shares with the function around it, by sending or closing, writes no variable shared with that function afterwards",
	Min:  5,
	Run: func(c *Ctx) (inst, viol []string) {
		a := locks(c)
		for _, f := range a.fns {
			if f.Parent() == nil || a.owner(f).Parent() == nil {
				continue // or called where it is written
			}
			for _, b := range f.Blocks {
				for k, i := range b.Instrs {
					if _, deferred := i.(*ssa.Defer); deferred {
						continue
					}
					ch := announced(i)
					if ch == nil || sharedVar(ch) == nil {
						continue
					}
					p := c.Prog.Fset.Position(i.Pos())
					inst = append(inst, fmt.Sprintf("%s:%d: %s", p.Filename, p.Line, f.String()))
					check := func(is []ssa.Instruction) {
						for _, j := range is {
							s, ok := j.(*ssa.Store)
							if !ok {
								continue
							}
							v := sharedVar(s.Addr)
							if v == nil || !byReference(v) {
								continue
							}
							q := c.Prog.Fset.Position(s.Pos())
							viol = append(viol, fmt.Sprintf("%s:%d: %s: %s is written after line %d announced it to the function that waits", q.Filename, q.Line, f.String(), v.Name(), p.Line))
						}
					}
					check(b.Instrs[k+1:])
					seen := map[*ssa.BasicBlock]bool{}
					work := append([]*ssa.BasicBlock(nil), b.Succs...)
					for len(work) > 0 {
						x := work[0]
						work = work[1:]
						if seen[x] {
							continue
						}
						seen[x] = true
						check(x.Instrs)
						work = append(work, x.Succs...)
					}
				}
			}
		}
		return
	},
}

// announced is the channel an instruction closes or sends on.
func announced(i ssa.Instruction) ssa.Value {
	switch x := i.(type) {
	case *ssa.Send:
		return x.Chan
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return x.Call.Args[0]
		}
	}
	return nil
}

// sharedVar is the captured variable a value is loaded from or an address is
// part of.
func sharedVar(v ssa.Value) *ssa.FreeVar {
	for {
		switch x := v.(type) {
		case *ssa.FreeVar:
			// Captured by reference.
			if _, ok := x.Type().(*types.Pointer); ok {
				return x
			}
			if _, ok := x.Type().Underlying().(*types.Chan); ok {
				return x
			}
			return nil
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// byReference reports that a function literal shares the variable itself with
// the function around it.
func byReference(v *ssa.FreeVar) bool {
	f := v.Parent()
	for i, w := range f.FreeVars {
		if w != v {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, k := range b.Instrs {
				m, ok := k.(*ssa.MakeClosure)
				if !ok || m.Fn != f {
					continue
				}
				switch x := m.Bindings[i].(type) {
				case *ssa.Alloc:
					return true
				case *ssa.FreeVar:
					return byReference(x)
				}
			}
		}
	}
	return false
}
