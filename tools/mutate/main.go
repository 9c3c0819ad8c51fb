// List single-site mutations of Go source files (development tool).
//
//	mutate FILE...   prints one JSON object {"file","off","end","new","op","line"} per line
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type Edit struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(op string, a, b token.Pos, s string) {
			enc.Encode(Edit{f, off(a), off(b), s, op, fs.Position(a).Line})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, r := range swap[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left", x.Pos(), x.End(), text(x.X))
					emit("right", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.IfStmt:
				emit("not", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				emit("never", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				emit("always", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit("once", x.Body.End()-1, x.Body.End()-1, "break\n")
				}
			case *ast.ExprStmt:
				emit("drop", x.Pos(), x.End(), "")
				emit("twice", x.Pos(), x.End(), text(x)+";"+text(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit("drop", x.Pos(), x.End(), "")
				}
			case *ast.BasicLit:
				if x.Kind == token.STRING {
					s, _ := strconv.Unquote(x.Value)
					if len(s) > 0 && len(s) < 40 {
						emit("string", x.Pos(), x.End(), strconv.Quote(s+"Q"))
					}
				} else if x.Kind == token.INT {
					v, _ := strconv.Atoi(x.Value)
					emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 && text(x.Results[0]) == "err" {
					emit("noerr", x.Pos(), x.End(), "return nil")
				} else if len(x.Results) == 1 {
					if c, ok := x.Results[0].(*ast.CallExpr); ok {
						if s := text(c); s == "v.syntaxError()" || s == "l.lexError()" {
							emit("noerr", x.Pos(), x.End(), "return nil")
						}
					}
				}
			case *ast.CallExpr:
				if len(x.Args) > 1 {
					for i, a := range x.Args {
						if l, ok := a.(*ast.BasicLit); ok && l.Kind == token.STRING {
							if i+1 < len(x.Args) {
								emit("less", a.Pos(), x.Args[i+1].Pos(), "")
							} else {
								emit("less", x.Args[i-1].End(), a.End(), "")
							}
						}
					}
				}
			}
			return true
		})
	}
}
