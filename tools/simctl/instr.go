package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Instrumentation inserts a scheduling point before every statement (and at
// the end of every loop body, and between the operands of && and ||) of the
// code under test. Text is inserted at byte offsets, so lines do not move.

type instrumenter struct {
	sites   []string // site number -> file:line
	split   int      // 1: also between operands of && and ||, 2: and between calls in one expression
	resets  bool     // restore package-level variables between runs
	fileSeq int
}

type insertion struct {
	off  int
	text string
	ord  int
}

type goPkg struct {
	Dir, ImportPath, Name string
	GoFiles               []string
}

func goList(repo string, env []string) ([]goPkg, error) {
	cmd := exec.Command("go", "list", "-json=Dir,ImportPath,Name,GoFiles", "./...")
	cmd.Dir = repo
	cmd.Env = env
	var out, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &stderr
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var pkgs []goPkg
	dec := json.NewDecoder(&out)
	for dec.More() {
		var p goPkg
		if err := dec.Decode(&p); err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}

func (in *instrumenter) file(path, rel string) (string, bool, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", false, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", false, err
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var ins []insertion
	add := func(p int, text string) { ins = append(ins, insertion{p, text, len(ins)}) }
	site := func(p token.Pos) int {
		in.sites = append(in.sites, fmt.Sprintf("%s:%d", rel, fset.PositionFor(p, false).Line))
		return len(in.sites) // 0 is "no site"
	}

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), fmt.Sprintf("simrt__.SimYield(%d); ", site(s.Pos())))
		}
	}
	interesting := func(e ast.Expr) bool {
		yes := false
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
				yes = true
			case *ast.FuncLit:
				return false
			}
			return !yes
		})
		return yes
	}
	// calls reports whether evaluating e calls a function, apart from built-in ones.
	calls := func(e ast.Expr) bool {
		yes := false
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				switch f := n.Fun.(type) {
				case *ast.Ident:
					yes = yes || !builtin[f.Name]
				case *ast.SelectorExpr:
					x, ok := f.X.(*ast.Ident)
					yes = yes || !ok || x.Name != "unsafe"
				default:
					yes = true
				}
			case *ast.FuncLit:
				return false
			}
			return !yes
		})
		return yes
	}
	// wrap puts a scheduling point after the evaluation of e.
	wrap := func(e ast.Expr) {
		add(off(e.Pos()), fmt.Sprintf("simrt__.SimArg(%d, ", site(e.Pos())))
		add(off(e.End()), ")")
	}
	visit := func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok != token.CONST && n.Tok != token.TYPE
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			add(off(n.Body.Rbrace), fmt.Sprintf(";simrt__.SimYield(%d) ", site(n.Body.Rbrace)))
		case *ast.RangeStmt:
			add(off(n.Body.Rbrace), fmt.Sprintf(";simrt__.SimYield(%d) ", site(n.Body.Rbrace)))
		case *ast.BinaryExpr:
			if in.split >= 1 && interesting(n.Y) {
				if n.Op == token.LAND {
					add(off(n.Y.Pos()), fmt.Sprintf("simrt__.SimYieldT(%d) && ", site(n.Y.Pos())))
				} else if n.Op == token.LOR {
					add(off(n.Y.Pos()), fmt.Sprintf("simrt__.SimYieldF(%d) || ", site(n.Y.Pos())))
				}
			}
			if in.split >= 2 && n.Op != token.LAND && n.Op != token.LOR && n.Op != token.SHL && n.Op != token.SHR && calls(n.X) && calls(n.Y) {
				wrap(n.X)
			}
		case *ast.CallExpr:
			if in.split < 2 || n.Ellipsis != token.NoPos {
				break
			}
			switch f := n.Fun.(type) {
			case *ast.Ident:
				if builtin[f.Name] {
					return true
				}
			case *ast.SelectorExpr:
				if x, ok := f.X.(*ast.Ident); ok && x.Name == "unsafe" {
					return true
				}
			case *ast.ParenExpr, *ast.ArrayType, *ast.FuncLit, *ast.StarExpr, *ast.InterfaceType:
				return true
			}
			// Let others run between the last call among the arguments and
			// the call itself.
			for i := len(n.Args) - 1; i >= 0; i-- {
				if a := n.Args[i]; calls(a) {
					if c, ok := a.(*ast.CallExpr); !ok || len(n.Args) > 1 || atomicLike(c) {
						wrap(a)
					}
					break
				}
			}
		case *ast.ArrayType:
			return false
		}
		return true
	}
	// A switch statement's or select's own block holds clauses, not statements.
	var walk func(n ast.Node)
	walk = func(root ast.Node) {
		ast.Inspect(root, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SwitchStmt:
				if n.Init != nil {
					walk(n.Init)
				}
				if n.Tag != nil {
					walk(n.Tag)
				}
				for _, c := range n.Body.List {
					walk(c)
				}
				return false
			case *ast.TypeSwitchStmt:
				if n.Init != nil {
					walk(n.Init)
				}
				walk(n.Assign)
				for _, c := range n.Body.List {
					walk(c)
				}
				return false
			case *ast.SelectStmt:
				for _, c := range n.Body.List {
					walk(c)
				}
				return false
			case nil:
				return false
			}
			return visit(n)
		})
	}

	var resets []*ast.ValueSpec
	var inits []string
	in.fileSeq++
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			if in.resets && d.Recv == nil && d.Name.Name == "init" {
				// Run again after the package-level variables are restored:
				// the function becomes simN__init.
				name := fmt.Sprintf("sim%d_%d__", in.fileSeq, len(inits))
				inits = append(inits, name+"init")
				add(off(d.Name.Pos()), name)
			}
			skip := false
			if d.Doc != nil {
				for _, c := range d.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") {
						skip = true
					}
				}
			}
			if !skip {
				walk(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				walk(d)
				for _, s := range d.Specs {
					resets = append(resets, s.(*ast.ValueSpec))
				}
			}
		}
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	apply := func(lo, hi int) string {
		var b bytes.Buffer
		p := lo
		for _, x := range ins {
			if x.off < lo || x.off >= hi {
				continue
			}
			b.Write(src[p:x.off])
			b.WriteString(x.text)
			p = x.off
		}
		b.Write(src[p:hi])
		return b.String()
	}

	var rb strings.Builder
	if in.resets {
		for _, s := range resets {
			if len(s.Values) == 0 {
				t := string(src[off(s.Type.Pos()):off(s.Type.End())])
				for _, n := range s.Names {
					if n.Name != "_" {
						fmt.Fprintf(&rb, "\t{ var z__ %s; %s = z__ }\n", t, n.Name)
					}
				}
				continue
			}
			if len(s.Values) != len(s.Names) {
				continue
			}
			for i, n := range s.Names {
				if n.Name == "_" || immutableInit(s.Values[i], src, off) {
					continue
				}
				fmt.Fprintf(&rb, "\t%s = %s\n", n.Name, apply(off(s.Values[i].Pos()), off(s.Values[i].End())))
			}
		}
	}
	if len(ins) == 0 && rb.Len() == 0 {
		return "", false, nil
	}
	out := apply(0, len(src))
	// The import goes right after the package clause, on its line.
	k := off(f.Name.End())
	out = string(src[:k]) + "; import simrt__ \"runtime\"" + out[k:]
	if rb.Len() > 0 {
		out += fmt.Sprintf("\n\n//go:norace\nfunc simReset__%d() {\n%s}\n\nfunc init() { simrt__.SimRegisterReset(simReset__%d) }\n", in.fileSeq, rb.String(), in.fileSeq)
	} else {
		out += "\n\nvar _ = simrt__.SimYield\n"
	}
	if len(inits) > 0 {
		out += "\n\nfunc init() {\n"
		for _, n := range inits {
			out += fmt.Sprintf("\t%s()\n\tsimrt__.SimRegisterInit(%s)\n", n, n)
		}
		out += "}\n"
	}
	return out, true, nil
}

// builtin are functions and conversions that no other goroutine can observe.
var builtin = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`make new len cap append copy delete panic print println recover clear min max real imag complex close
		string int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64 byte rune any error bool`) {
		builtin[n] = true
	}
}

// atomicLike recognises calls of atomic operations, which have one result.
func atomicLike(c *ast.CallExpr) bool {
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	if x, ok := s.X.(*ast.Ident); ok && x.Name == "atomic" {
		return true
	}
	switch s.Sel.Name {
	case "Load":
		return len(c.Args) == 0
	case "Add", "Swap":
		return len(c.Args) == 1
	case "CompareAndSwap":
		return len(c.Args) == 2
	}
	return false
}

// immutableInit recognises initialisers that make a value whose identity may
// matter and that is never modified.
func immutableInit(e ast.Expr, src []byte, off func(token.Pos) int) bool {
	t := string(src[off(e.Pos()):off(e.End())])
	for _, p := range []string{"errors.New(", "fmt.Errorf(", "regexp.MustCompile(", "strings.NewReplacer(", "func("} {
		if strings.HasPrefix(t, p) {
			return true
		}
	}
	if strings.Contains(t, "unsafe.") {
		return true
	}
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr:
		// may be a function value such as Uint32 = runtimefastrand: harmless to repeat
		return false
	}
	return false
}

// instrumentRepo writes instrumented copies of the repository's packages.
func (in *instrumenter) repo(repo, dir string, env []string, overlay map[string]string) error {
	pkgs, err := goList(repo, env)
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		for _, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			rel, err := filepath.Rel(repo, path)
			if err != nil {
				return err
			}
			if strings.HasPrefix(rel, harnessDir+"/") {
				continue
			}
			out, changed, err := in.file(path, rel)
			if err != nil {
				return err
			}
			if !changed {
				continue
			}
			dst := filepath.Join(dir, "repo", rel)
			if err := writeFile(dst, out); err != nil {
				return err
			}
			overlay[path] = dst
		}
	}
	return nil
}
