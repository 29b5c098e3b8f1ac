// mutate lists small changes of Go files, one per line as JSON:
//
//	mutate ROOT FILE...
//
// {"file":..,"line":..,"off":..,"len":..,"new":..,"kind":..}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Old  string `json:"old"`
}

func main() {
	root := os.Args[1]
	for _, f := range os.Args[2:] {
		one(root, f)
	}
}

func one(root, file string) {
	src, err := os.ReadFile(filepath.Join(root, file))
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(kind string, pos, end token.Pos, new string) {
		o, e := off(pos), off(end)
		old := string(src[o:e])
		b, _ := json.Marshal(mut{file, fset.Position(pos).Line, o, e - o, new, kind, old})
		fmt.Println(string(b))
	}
	isLog := func(n ast.Node) bool {
		s := text(n)
		return strings.Contains(s, "Logger") || strings.Contains(s, "logger.") || strings.Contains(s, "fmt.Print") || strings.Contains(s, "time.Since") || strings.Contains(s, "color.")
	}
	del := func(s ast.Stmt) {
		if isLog(s) {
			return
		}
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
			emit("delete", s.Pos(), s.End(), "")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				// keep the variables used
				emit("delete", s.Pos(), s.End(), "")
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
				emit("delete", s.Pos(), s.End(), "")
				if x.Label == nil {
					o := "break"
					if x.Tok == token.BREAK {
						o = "continue"
					}
					emit("branch", s.Pos(), s.End(), o)
				}
			}
		case *ast.IfStmt:
			if x.Init == nil && x.Else == nil {
				emit("never", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
			}
			if x.Else == nil {
				emit("always", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
			}
		case *ast.ReturnStmt:
			if n := len(x.Results); n > 0 {
				l := x.Results[n-1]
				if id, ok := l.(*ast.Ident); ok && (id.Name == "err" || id.Name == "rerr") {
					emit("noerr", l.Pos(), l.End(), "nil")
				}
			}
		case *ast.RangeStmt, *ast.ForStmt:
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			for _, s := range x.List {
				del(s)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				del(s)
			}
		case *ast.CommClause:
			for _, s := range x.Body {
				del(s)
			}
		case *ast.BinaryExpr:
			if isLog(x) {
				return true
			}
			ops := map[token.Token][]string{
				token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
				token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
			}
			for _, o := range ops[x.Op] {
				if x.Op == token.ADD && (strings.Contains(text(x), "\"")) {
					continue
				}
				emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit("operand", x.Pos(), x.End(), text(x.X))
				emit("operand", x.Pos(), x.End(), text(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit("not", x.Pos(), x.End(), text(x.X))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil {
					emit("int", x.Pos(), x.End(), strconv.Itoa(v+1))
					if v > 0 {
						emit("int", x.Pos(), x.End(), strconv.Itoa(v-1))
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 && x.Value[0] == '"' {
				// git arguments
				if strings.HasPrefix(x.Value, "\"-") || strings.HasPrefix(x.Value, "\"--") {
					emit("arg", x.Pos(), x.End(), "\"--no-pager\"")
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit("bool", x.Pos(), x.End(), "false")
			}
			if x.Name == "false" {
				emit("bool", x.Pos(), x.End(), "true")
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				emit("slice", x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
			}
			if x.High != nil {
				emit("slice", x.High.Pos(), x.High.End(), text(x.High)+"-1")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.SelectorExpr); ok {
				switch id.Sel.Name {
				case "TrimSpace", "ToLower":
					if len(x.Args) == 1 {
						emit("call", x.Pos(), x.End(), text(x.Args[0]))
					}
				case "HasPrefix":
					emit("call", id.Sel.Pos(), id.Sel.End(), "Contains")
				case "HasSuffix":
					emit("call", id.Sel.Pos(), id.Sel.End(), "Contains")
				}
			}
		case *ast.RangeStmt:
			if isLog(x) {
				return true
			}
			emit("once", x.Body.Rbrace, x.Body.Rbrace, "break;")
		}
		return true
	})
}
