// Package rules holds the structural rules: dataflow, lockset, typestate and
// reachability analyses over the SSA form of the repository.
package rules

import (
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Rule is one rule with the number of instances it must find.
type Rule struct {
	Name string
	Doc  string
	Min  int
	Run  func(c *Ctx) (instances, violations []string)
}

// Ctx is the program under analysis.
type Ctx struct {
	Prog  *ssa.Program
	Pkgs  []*packages.Package
	locks *lockAnalysis
}

func New(prog *ssa.Program, pkgs []*packages.Package) *Ctx {
	return &Ctx{Prog: prog, Pkgs: pkgs}
}
