package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The scenarios use names that are private to the packages they lie in. When
// the source no longer type checks with them, a name that is gone is looked
// for under another name of the same type; scenarios that still do not type
// check are left out, and named in the evidence.

//go:embed names.json
var namesJSON []byte

// names are the private declarations the scenarios were written against: per
// package, "name" or "Type.member" and its type.
var names map[string]map[string]string

func inventory(p *types.Package) map[string]string {
	r := map[string]string{}
	q := func(o *types.Package) string {
		if o == p {
			return ""
		}
		return o.Path()
	}
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if strings.HasPrefix(n, "zz") {
			continue
		}
		if !o.Exported() {
			switch t := o.(type) {
			case *types.TypeName:
				r[n] = "type " + types.TypeString(t.Type().Underlying(), q)
			case *types.Func:
				r[n] = "func " + sig(t.Type(), q)
			default:
				r[n] = types.TypeString(o.Type(), q)
			}
		}
		t, ok := o.(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			if m := nt.Method(i); !m.Exported() {
				r[n+"."+m.Name()] = "func " + sig(m.Type(), q)
			}
		}
		if s, ok := nt.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); !f.Exported() {
					r[n+"."+f.Name()] = types.TypeString(f.Type(), q)
				}
			}
		}
	}
	return r
}

// sig is a signature without the names of its parameters.
func sig(t types.Type, q types.Qualifier) string {
	s := t.(*types.Signature)
	var b strings.Builder
	for _, v := range []*types.Tuple{s.Params(), s.Results()} {
		b.WriteByte('(')
		for i := 0; i < v.Len(); i++ {
			b.WriteString(types.TypeString(v.At(i).Type(), q) + ",")
		}
		b.WriteByte(')')
	}
	return b.String()
}

// writeNames regenerates names.json from the source.
func writeNames() error {
	ps, err := packages.Load(loadConfig(repo+"/go", nil), loadPatterns...)
	if err != nil {
		return err
	}
	r := map[string]map[string]string{}
	for _, p := range ps {
		rel := strings.TrimPrefix(p.PkgPath, "github.com/nanobus/iota/go/")
		if _, err := os.Stat(filepath.Join(verif, "harness", rel)); err == nil && p.Types != nil {
			r[p.PkgPath] = inventory(p.Types)
		}
	}
	b, _ := json.MarshalIndent(r, "", " ")
	return os.WriteFile(filepath.Join(verif, "checker", "names.json"), append(b, '\n'), 0o644)
}

var inType = regexp.MustCompile(`type \*?(?:[\w/.]+\.)?(\w+)`)

// adapt changes the overlay so that it type checks with the source, and tells
// what it left out.
func adapt(ov map[string][]byte, ps []*packages.Package, rename bool) (changed bool, dropped []string, rest []string) {
	if names == nil {
		json.Unmarshal(namesJSON, &names)
	}
	type edit struct {
		off, n int
		s      string
	}
	edits := map[string][]edit{}
	drop := map[string]map[int]bool{} // file: offsets
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			x := strings.Split(e.Pos, ":")
			var src []byte
			if len(x) >= 3 {
				src = ov[x[0]]
			}
			if src == nil {
				rest = append(rest, e.Error())
				continue
			}
			line, _ := strconv.Atoi(x[1])
			col, _ := strconv.Atoi(x[2])
			off := 0
			for i := 1; i < line; i++ {
				off += bytes.IndexByte(src[off:], '\n') + 1
			}
			off += col - 1
			if drop[x[0]] == nil {
				drop[x[0]] = map[int]bool{}
			}
			drop[x[0]][off] = true
			if !rename || p.Types == nil {
				continue
			}
			end := off
			for end < len(src) && (src[end] == '_' || src[end] >= '0' && src[end] <= '9' || src[end] >= 'a' && src[end] <= 'z' || src[end] >= 'A' && src[end] <= 'Z') {
				end++
			}
			if n := renamed(p.Types, string(src[off:end]), e.Msg); n != "" {
				edits[x[0]] = append(edits[x[0]], edit{off, end - off, n})
			}
		}
	})
	if rename {
		for f, es := range edits {
			sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
			b := ov[f]
			last := -1
			for _, e := range es {
				if e.off == last {
					continue
				}
				last = e.off
				b = append(append(append([]byte(nil), b[:e.off]...), e.s...), b[e.off+e.n:]...)
				changed = true
			}
			ov[f] = b
		}
		if changed {
			return
		}
	}
	for f, offs := range drop {
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, ov[f], 0)
		if err != nil {
			rest = append(rest, err.Error())
			continue
		}
		b := append([]byte(nil), ov[f]...)
		at := func(p token.Pos) int { return fs.Position(p).Offset }
		blank := func(n ast.Node) {
			for i := at(n.Pos()); i < at(n.End()); i++ {
				if b[i] != '\n' {
					b[i] = ' '
				}
			}
			changed = true
		}
		for off := range offs {
			for _, d := range a.Decls {
				if at(d.Pos()) > off || off >= at(d.End()) {
					continue
				}
				switch d := d.(type) {
				case *ast.FuncDecl:
					blank(d)
					dropped = append(dropped, d.Name.Name)
				case *ast.GenDecl:
					hit := false
					for _, s := range d.Specs {
						if d.Lparen.IsValid() && at(s.Pos()) <= off && off < at(s.End()) {
							blank(s)
							hit = true
						}
					}
					if !hit {
						blank(d)
					}
				}
			}
		}
		ov[f] = b
	}
	return
}

// renamed is the one private name of a package that was not there before and
// has the type that a name that is gone had.
func renamed(p *types.Package, name, msg string) string {
	base, now := names[p.Path()], inventory(p)
	if base == nil || name == "" {
		return ""
	}
	found := map[string]bool{}
	owner := ""
	if m := inType.FindStringSubmatch(msg); m != nil {
		owner = m[1]
	}
	for k, t := range base {
		o, n := "", k
		if i := strings.IndexByte(k, '.'); i >= 0 {
			o, n = k[:i], k[i+1:]
		}
		if n != name || (o == "") != strings.HasPrefix(msg, "undefined:") || now[k] != "" {
			continue
		}
		if o != "" && owner != "" && o != owner && now[owner+"."+name] == "" && base[owner] != "" {
			continue
		}
		for c, ct := range now {
			co, cn := "", c
			if i := strings.IndexByte(c, '.'); i >= 0 {
				co, cn = c[:i], c[i+1:]
			}
			same := ct == t || co == "" && strings.ReplaceAll(ct, cn, name) == t
			if base[c] == "" && co == o && same {
				found[cn] = true
			}
		}
	}
	if len(found) != 1 {
		return ""
	}
	for n := range found {
		return n
	}
	return ""
}

func joinErrors(ps []*packages.Package) error {
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	return nil
}
