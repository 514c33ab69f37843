// Command mutate lists small source changes to a Go file, one JSON object per line:
// {"desc","line","start","end","new"} (byte offsets). It is used to look for changes the checks miss.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Desc  string `json:"desc"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(desc string, from, to token.Pos, s string) {
		enc.Encode(mut{desc, fset.Position(from).Line, off(from), off(to), s})
	}
	short := func(s string) string {
		if len(s) > 60 {
			s = s[:60]
		}
		return s
	}
	swaps := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"}, token.REM: {"/"}, token.MUL: {"+"}, token.QUO: {"*"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR || x.Tok == token.CONST
		case *ast.BlockStmt:
			for i, s := range x.List {
				switch y := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
					emit("delete "+short(text(s)), s.Pos(), s.End(), "")
				case *ast.GoStmt:
					emit("no go: "+short(text(s)), y.Pos(), y.Call.Pos(), "")
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						emit("delete "+short(text(s)), s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					if y.Else == nil && y.Init == nil {
						emit("delete if "+short(text(y.Cond)), s.Pos(), s.End(), "")
						emit("always "+short(text(y.Cond)), y.Cond.Pos(), y.Cond.End(), "true || "+text(y.Cond))
					}
				case *ast.BranchStmt:
					emit("delete "+short(text(s)), s.Pos(), s.End(), "")
					if y.Tok == token.CONTINUE && y.Label == nil {
						emit("continue->break", s.Pos(), s.End(), "break")
					}
					if y.Tok == token.BREAK && y.Label == nil {
						emit("break->continue", s.Pos(), s.End(), "continue")
					}
				case *ast.ReturnStmt:
					if len(y.Results) == 0 {
						emit("delete return", s.Pos(), s.End(), "")
					}
				}
				if i+1 < len(x.List) {
					a, b := x.List[i], x.List[i+1]
					ok := func(s ast.Stmt) bool {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.IfStmt, *ast.GoStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt:
							return true
						case *ast.AssignStmt:
							return y.Tok != token.DEFINE
						}
						return false
					}
					if ok(a) && ok(b) {
						emit("swap "+short(text(a))+" <> "+short(text(b)), a.Pos(), b.End(), text(b)+"\n"+text(a))
					}
					// Lock ... : release early
					if e, isE := a.(*ast.ExprStmt); isE {
						if c, isC := e.X.(*ast.CallExpr); isC {
							if se, isS := c.Fun.(*ast.SelectorExpr); isS && (se.Sel.Name == "Lock" || se.Sel.Name == "RLock") {
								un := "Unlock"
								if se.Sel.Name == "RLock" {
									un = "RUnlock"
								}
								for j := i + 1; j < len(x.List); j++ {
									t := text(x.List[j])
									want := text(se.X) + "." + un + "()"
									if t == "defer "+want || t == want {
										emit("no lock "+text(se.X), a.Pos(), x.List[j].End(), string(src[off(a.End()):off(x.List[j].Pos())]))
										if t == "defer "+want {
											emit("lock released at once "+text(se.X), x.List[j].Pos(), x.List[j].End(), want)
										}
										if se.Sel.Name == "Lock" {
											r := string(src[off(a.End()):off(x.List[j].Pos())])
											d := ""
											if t != want {
												d = "defer "
											}
											emit("Lock->RLock "+text(se.X), a.Pos(), x.List[j].End(), text(se.X)+".RLock()"+r+d+text(se.X)+".RUnlock()")
										}
										if j+1 < len(x.List) && t == want {
											emit("unlock later "+text(se.X), x.List[j].Pos(), x.List[j+1].End(), text(x.List[j+1])+"\n"+want)
										}
										if j-1 > i && t == want {
											emit("unlock earlier "+text(se.X), x.List[j-1].Pos(), x.List[j].End(), want+"\n"+text(x.List[j-1]))
										}
									}
								}
							}
						}
					}
				}
			}
		case *ast.BinaryExpr:
			for _, o := range swaps[x.Op] {
				if x.Op == token.ADD {
					if l, isL := x.Y.(*ast.BasicLit); isL && l.Kind == token.STRING {
						continue
					}
				}
				emit(fmt.Sprintf("%s -> %s in %s", x.Op, o, short(text(x))), x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
			}
			if x.Op == token.LAND {
				emit("drop right of "+short(text(x)), x.X.End(), x.End(), "")
				emit("drop left of "+short(text(x)), x.Pos(), x.Y.Pos(), "")
			}
			if x.Op == token.LOR {
				emit("drop right of "+short(text(x)), x.X.End(), x.End(), "")
				emit("drop left of "+short(text(x)), x.Pos(), x.Y.Pos(), "")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					emit(fmt.Sprintf("%s -> %d", x.Value, v+1), x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						emit(fmt.Sprintf("%s -> %d", x.Value, v-1), x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit("true -> false", x.Pos(), x.End(), "false")
			}
			if x.Name == "false" {
				emit("false -> true", x.Pos(), x.End(), "true")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit("drop ! of "+short(text(x)), x.Pos(), x.X.Pos(), "")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, isI := r.(*ast.Ident); isI && (id.Name == "err" || id.Name == "err1") {
					emit("return nil for "+id.Name, r.Pos(), r.End(), "nil")
				}
			}
		case *ast.CommClause:
			if x.Comm != nil {
				emit("drop case "+short(text(x.Comm)), x.Pos(), x.End(), "")
			}
		case *ast.FuncType:
			return false
		}
		return true
	})
}
