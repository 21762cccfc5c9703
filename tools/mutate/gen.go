// gen lists small changes ("mutants") of a Go source file as JSON lines:
// {"file":...,"off":...,"len":...,"text":...,"line":...,"what":...}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Text string `json:"text"`
	Line int    `json:"line"`
	What string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := ioutil.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(from, to token.Pos, text, what string) {
			enc.Encode(mutant{file, off(from), off(to) - off(from), text, fset.Position(from).Line, fn + ": " + what})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swaps := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, fmt.Sprintf("%s -> %s in %s", x.Op, s, txt(x)))
				}
				if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.QUO {
					emit(x.Pos(), x.End(), "("+txt(x.X)+")", "keep left of "+txt(x))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), strconv.Itoa(v+1), "literal "+x.Value+" + 1")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.Itoa(v-1), "literal "+x.Value+" - 1")
						}
					}
				case token.FLOAT:
					emit(x.Pos(), x.End(), "(2*"+x.Value+"+.5)", "literal "+x.Value+" changed")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate "+txt(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never "+txt(x.Cond))
				if x.Init == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "always "+txt(x.Cond))
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt:
						emit(y.Pos(), y.End(), "", "delete "+txt(y))
					case *ast.IncDecStmt:
						emit(y.Pos(), y.End(), "", "delete "+txt(y))
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(y.Pos(), y.End(), "", "delete "+txt(y))
						}
					case *ast.BranchStmt:
						emit(y.Pos(), y.End(), "", "delete "+txt(y))
					}
				}
			case *ast.AssignStmt:
				switch x.Tok {
				case token.ADD_ASSIGN:
					emit(x.TokPos, x.TokPos+2, "-=", "+= -> -= in "+txt(x))
					emit(x.TokPos, x.TokPos+2, "=", "+= -> = in "+txt(x))
				case token.SUB_ASSIGN:
					emit(x.TokPos, x.TokPos+2, "+=", "-= -> += in "+txt(x))
				case token.MUL_ASSIGN:
					emit(x.TokPos, x.TokPos+2, "/=", "*= -> /= in "+txt(x))
				case token.QUO_ASSIGN:
					emit(x.TokPos, x.TokPos+2, "*=", "/= -> *= in "+txt(x))
				}
			case *ast.CallExpr:
				if len(x.Args) >= 2 {
					for i := 0; i+1 < len(x.Args); i++ {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), txt(x.Args[i+1])+", "+txt(x.Args[i]), fmt.Sprintf("swap arguments %d and %d of %s", i, i+1, txt(x)))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				}
				if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			}
			return true
		})
	}
}
