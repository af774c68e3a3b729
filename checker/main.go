// Command checker decides the properties of /verif/properties.jsonl from the
// source of the repository: it loads and type checks the packages, builds
// their SSA form and runs the analyses registered for a property over it.
// Nothing of the repository is compiled to run or run.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
	"verif/checker/rules"
)

var (
	repo  = env("VERIF_REPO", "/repo")
	verif = env("VERIF_DIR", "/verif")
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var propFile = regexp.MustCompile(`^zz_([A-Z][0-9]{2,3})`)

var zzImport = regexp.MustCompile(`"github.com/nanobus/iota/go/internal/(zz[a-z]*)"`)

// overlay lays the scenarios of a property over the repository: files named
// zz_<property>*.go, and zz_common*.go of the directories that have one.
func overlay(root, prop string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	hdir := filepath.Join(verif, "harness")
	used := map[string]bool{}
	libs := map[string][]string{} // packages only harness files import
	imports := map[string]bool{}
	var files []string
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		if m := propFile.FindStringSubmatch(filepath.Base(p)); m != nil && prop != "" {
			if m[1] != prop {
				return nil
			}
			used[filepath.Dir(p)] = true
		}
		files = append(files, p)
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, p := range files {
		rel, _ := filepath.Rel(hdir, p)
		lib := strings.HasPrefix(rel, "zz")
		if prop != "" && !lib && !used[filepath.Dir(p)] {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		if lib {
			rel = "internal/" + rel
			libs[filepath.Dir(p)] = append(libs[filepath.Dir(p)], filepath.Join(root, rel))
		}
		for _, m := range zzImport.FindAllStringSubmatch(string(b), -1) {
			imports[filepath.Join(hdir, m[1])] = true
		}
		ov[filepath.Join(root, rel)] = b
	}
	for d, fs := range libs {
		if !imports[d] {
			for _, f := range fs {
				delete(ov, f)
			}
		}
	}
	return ov, nil
}

// arch is the architecture the source is loaded for.
var arch = "amd64"

var loadPatterns = []string{"./...", "./types/uuid/...", "./transport/wasmrs/cmd/wasmrs/..."}

// use32 makes the analysis one for a machine of 32 bits, like the one of
// WebAssembly modules, and of the packages that modules are built from.
func use32() {
	arch = "386"
	loadPatterns = []string{"./msgpack/...", "./internal/...", "./operations", "./invoke", "./transform", "./payload", "./rx/...", "./handler", "./proxy", "./transport/wasmrs/guest"}
	tags = "-tags=tinygo.wasm"
	ai.Use32()
}

// tags are the build tags the source is loaded with.
var tags = ""

var noBody = regexp.MustCompile(`(?m)^(func \w+\([^)\n]*\))[ \t]*$`)

// tinygo gives the files only built for WebAssembly the shape they need for
// the Go type checker: TinyGo declares the lengths of reflect.SliceHeader as
// uintptr, and functions of the host have no body.
func tinygo(root string, ov map[string][]byte) {
	if tags == "" {
		return
	}
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, "_webassembly.go") {
			b, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			s := strings.ReplaceAll(string(b), "uintptr(len(", "int(len(")
			ov[p] = []byte(noBody.ReplaceAllString(s, "$1 {}"))
		}
		return nil
	})
}

func loadConfig(root string, ov map[string][]byte) *packages.Config {
	return &packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Overlay: ov, BuildFlags: strings.Fields(tags),
		Env: append(os.Environ(), "GOFLAGS=-buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOARCH="+arch)}
}

// load gives the program with the scenarios of a property, and the scenarios
// that were left out since they do not type check with the source.
func load(root, prop string) (*ssa.Program, []*packages.Package, []string, error) {
	ov, err := overlay(root, prop)
	if err != nil {
		return nil, nil, nil, err
	}
	tinygo(root, ov)
	var ps []*packages.Package
	var left []string
	rename := 4
	for i := 0; ; i++ {
		ps, err = packages.Load(loadConfig(root, ov), loadPatterns...)
		if err != nil {
			return nil, nil, nil, err
		}
		if err = joinErrors(ps); err == nil {
			break
		}
		if i > 12 {
			return nil, nil, left, err
		}
		changed, dropped, rest := adapt(ov, ps, rename > 0)
		if len(dropped) > 0 {
			rename = 0
		} else {
			rename--
		}
		left = append(left, dropped...)
		if !changed || len(rest) > 0 {
			return nil, nil, left, err
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return prog, ps, left, nil
}

func scenarios(prog *ssa.Program, prefixes ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, p := range prog.AllPackages() {
		for n, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			for _, x := range prefixes {
				if strings.HasPrefix(n, x) {
					r = append(r, f)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// begin is when the program started.
var begin = time.Now()

func runAll(prog *ssa.Program, fs []*ssa.Function, steps int, trace bool) []ai.Result {
	res := make([]ai.Result, len(fs))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	var mu sync.Mutex
	until := begin.Add(660 * time.Second)
	limit := func() time.Time {
		mu.Lock()
		defer mu.Unlock()
		return until
	}
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			res[i] = ai.Decide(prog, f, steps, trace, limit)
			if len(res[i].Reports) > 0 {
				// the answer is there, the rest only adds to it
				mu.Lock()
				if t := time.Now().Add(90 * time.Second); t.Before(until) {
					until = t
				}
				mu.Unlock()
			}
			if os.Getenv("ZZPROG") != "" {
				fmt.Fprintf(os.Stderr, "%s %.1fs\n", res[i].Name, res[i].Wall.Seconds())
			}
			<-sem
		}()
	}
	wg.Wait()
	return res
}

func main() {
	debug.SetGCPercent(200)
	if f := os.Getenv("ZZPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 3 {
		fmt.Println("usage: checker check PROPERTY | checker debug SUBSTRING [trace]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "debug":
		if os.Getenv("ZZ32") != "" {
			use32()
		}
		prog, _, _, err := load(repo+"/go", os.Getenv("ZZPROP"))
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		var fs []*ssa.Function
		for _, f := range scenarios(prog, "zzScenario_", "zzThorough_") {
			if strings.Contains(f.Name(), os.Args[2]) {
				fs = append(fs, f)
			}
		}
		for _, r := range runAll(prog, fs, 10000000, len(os.Args) > 3) {
			fmt.Printf("%-45s %6.1fs outs %d steps %d syms %d imprecise %d sites %d undec %s\n", r.Name, r.Wall.Seconds(), r.Outs, r.Steps, r.Syms, r.Imprec, len(r.S.Sites), r.Undec)
			for _, x := range r.Reports {
				fmt.Println("  ", x)
			}
		}
	case "names":
		if err := writeNames(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	case "check":
		os.Exit(check(os.Args[2]))
	}
}

type finding struct {
	text  string
	known string
}

// check decides one property. Everything that keeps it from deciding is a
// violation too: an analysis that saw nothing must not pass.
func check(prop string) (code int) {
	start := time.Now()
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	var fails []string
	cov := map[string]any{}
	assumptions := []string{}
	known := 0
	finish := func() int {
		var bad []string
		kf := knownFindings(prop)
		for _, f := range fails {
			hit := false
			for _, k := range kf {
				if strings.Contains(f, k) {
					hit = true
					known++
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, strings.SplitN(f, "\n", 2)[0])
					break
				}
			}
			if !hit {
				bad = append(bad, f)
			}
		}
		cov["known_findings_seen"] = known
		ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "other",
			"coverage": cov, "assumptions": assumptions, "violations": len(bad), "wall_s": time.Since(start).Seconds()}
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println(err)
		}
		if len(bad) == 0 {
			fmt.Printf("property %s holds on everything analysed (%s, %.1fs)\n", prop, tier, time.Since(start).Seconds())
			return 0
		}
		replay := filepath.Join(verif, "evidence", prop+".replay.txt")
		os.WriteFile(replay, []byte(strings.Join(bad, "\n\n")+"\n"), 0o644)
		for _, f := range bad {
			fmt.Println(f)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	defer func() {
		if r := recover(); r != nil {
			fails = append(fails, fmt.Sprintf("undecided: the analysis failed: %v\n%s", r, debug.Stack()))
			code = finish()
		}
	}()
	spec, ok := specs[prop]
	if !ok {
		fails = append(fails, "undecided: no analysis is registered for "+prop)
		return finish()
	}
	cov["explanation"] = spec.explain
	assumptions = append(assumptions, commonAssumptions...)
	assumptions = append(assumptions, spec.assume...)
	prog, pkgs, left, err := load(repo+"/go", prop)
	if err != nil {
		fails = append(fails, "undecided: the source does not type check with the scenarios of this property:\n"+err.Error())
		return finish()
	}
	np, nf := 0, 0
	for _, p := range pkgs {
		np++
		if sp := prog.Package(p.Types); sp != nil {
			for _, m := range sp.Members {
				if _, ok := m.(*ssa.Function); ok {
					nf++
				}
			}
		}
	}
	cov["packages_loaded"] = np

	// scenarios of the abstract interpreter
	pre := []string{"zzScenario_" + prop + "_"}
	steps := 4000000
	if tier == "thorough" {
		pre = append(pre, "zzThorough_"+prop+"_")
		steps = 40000000
	}
	fs := scenarios(prog, pre...)
	if len(left) > 0 {
		sort.Strings(left)
		left = slices.Compact(left)
		cov["left_out_since_the_source_has_another_shape"] = left
		fmt.Printf("left out, the source has another shape: %s\n", strings.Join(left, " "))
		if len(fs) == 0 {
			fmt.Println("undecided: no scenario type checks with the source")
			return 2
		}
	}
	if len(fs)+len(left) < spec.scenarios {
		fails = append(fails, fmt.Sprintf("undecided: %d scenarios, expected at least %d", len(fs), spec.scenarios))
	}
	if len(fs) > 0 {
		fns := map[string]bool{}
		sites := map[string]bool{}
		obl := map[string]int{}
		opq := map[string]bool{}
		var states, merges, widen, calls, tot, imprec int
		per := map[string]any{}
		for _, r := range runAll(prog, fs, steps, false) {
			for _, f := range r.RepoFns {
				fns[f] = true
			}
			for p := range r.S.Sites {
				sites[prog.Fset.Position(p).String()] = true
			}
			for m, n := range r.S.Asserts {
				obl[m] += n
			}
			for m := range r.S.Opaque {
				opq[m] = true
			}
			states += r.S.States
			merges += r.S.Merges
			widen += r.S.Widen
			calls += r.S.Calls
			tot += r.Steps
			imprec += r.Imprec
			per[r.Name] = fmt.Sprintf("%d steps, %d abstract outcomes, %d panic sites, %.1fs", r.Steps, r.Outs, len(r.S.Sites), r.Wall.Seconds())
			if r.Undec != "" {
				fails = append(fails, fmt.Sprintf("undecided: %s: %s", r.Name, r.Undec))
			}
			fails = append(fails, r.Reports...)
		}
		n := 0
		for _, k := range obl {
			n += k
		}
		cov["scenarios"] = per
		cov["functions_analysed"] = keys(fns)
		cov["functions_analysed_count"] = len(fns)
		cov["panic_sites_examined"] = len(sites)
		cov["obligations_checked"] = n
		cov["obligations"] = obl
		cov["abstract_steps"] = tot
		cov["state_splits"] = states
		cov["state_merges"] = merges
		cov["widenings"] = widen
		cov["calls_interpreted"] = calls
		cov["imprecise_reads"] = imprec
		cov["unanalysed_callees_havocked"] = keys(opq)
		if len(fails) == 0 && len(left) == 0 && len(fns) < (spec.functions+1)/2 {
			fails = append(fails, fmt.Sprintf("undecided: %d functions of the repository were analysed, expected at least %d", len(fns), spec.functions))
		}
	}
	// structural rules
	if len(spec.rules) > 0 {
		c := rules.New(prog, pkgs)
		rc := map[string]any{}
		for _, r := range spec.rules {
			inst, viol := r.Run(c)
			rc[r.Name] = map[string]any{"rule": r.Doc, "instances": len(inst), "checked": inst}
			if len(inst) < r.Min {
				fails = append(fails, fmt.Sprintf("undecided: rule %s matched %d instances, expected at least %d", r.Name, len(inst), r.Min))
			}
			for _, v := range viol {
				fails = append(fails, r.Name+": "+v)
			}
		}
		cov["rules"] = rc
	}
	if spec.wasm && len(fails) == 0 {
		cov["built_for_webassembly"] = module(prop, pre, steps, &fails)
	}
	sort.Strings(fails)
	return finish()
}

// module runs the scenarios of a property on the packages that modules are
// built from, with the files only built for WebAssembly instead of those only
// built for hosts, and on a machine of 32 bits.
func module(prop string, pre []string, steps int, fails *[]string) map[string]any {
	use32()
	prog, _, left, err := load(repo+"/go", prop)
	if err != nil {
		return map[string]any{"not_analysed": err.Error()}
	}
	fns := map[string]bool{}
	per := map[string]any{}
	n, sites, tot := 0, 0, 0
	for _, r := range runAll(prog, scenarios(prog, pre...), steps, false) {
		for _, f := range r.RepoFns {
			fns[f] = true
		}
		for _, k := range r.S.Asserts {
			n += k
		}
		sites += len(r.S.Sites)
		tot += r.Steps
		per[r.Name] = fmt.Sprintf("%d steps, %d abstract outcomes, %d panic sites, %.1fs", r.Steps, r.Outs, len(r.S.Sites), r.Wall.Seconds())
		if r.Undec != "" {
			*fails = append(*fails, fmt.Sprintf("undecided: built for WebAssembly: %s: %s", r.Name, r.Undec))
		}
		for _, x := range r.Reports {
			*fails = append(*fails, "built for WebAssembly: "+x)
		}
	}
	m := map[string]any{"scenarios": per, "functions_analysed": keys(fns), "obligations_checked": n, "panic_sites_examined": sites, "abstract_steps": tot}
	if len(left) > 0 {
		sort.Strings(left)
		m["only_built_for_hosts"] = slices.Compact(left)
	}
	return m
}

func keys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// knownFindings lists the findings recorded for a property: lines
// "finding: property=<id> <text every report of it contains>".
func knownFindings(prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + prop + " "
		if strings.HasPrefix(l, p) {
			r = append(r, strings.TrimSpace(l[len(p):]))
		}
	}
	return r
}
