// Command mutate lists small textual changes of Go source files, for measuring
// what the checks detect.
//
//	mutate FILE...   prints one JSON object per change
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Old  string `json:"old"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
}

var assigns = map[token.Token]string{token.ADD_ASSIGN: "=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "=", token.AND_ASSIGN: "=",
	token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<="}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(op string, from, to token.Pos, s string) {
			out.Encode(mut{f, fs.Position(from).Line, op, off(from), off(to), s, string(src[off(from):off(to)])})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var inFunc int
		var stack []ast.Node
		ast.Inspect(a, func(n ast.Node) bool {
			if n == nil {
				if _, ok := stack[len(stack)-1].(*ast.FuncDecl); ok {
					inFunc--
				}
				stack = stack[:len(stack)-1]
				return true
			}
			var parent ast.Node
			if len(stack) > 0 {
				parent = stack[len(stack)-1]
			}
			if g, ok := n.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				return false
			}
			stack = append(stack, n)
			switch n := n.(type) {
			case *ast.FuncDecl:
				inFunc++
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					emit("binary", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("left-only", n.X.End(), n.Y.End(), "")
					emit("right-only", n.X.Pos(), n.Y.Pos(), "")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("int+1", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int-1", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit("bool", n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					emit("bool", n.Pos(), n.End(), "true")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("not", n.Pos(), n.X.Pos(), "")
				} else if n.Op == token.XOR {
					emit("xor", n.Pos(), n.X.Pos(), "")
				}
			case *ast.IfStmt:
				emit("if-true", n.Cond.Pos(), n.Cond.End(), "true || "+txt(n.Cond))
				emit("if-false", n.Cond.Pos(), n.Cond.End(), "false && ("+txt(n.Cond)+")")
				if n.Else != nil {
					if b, ok := n.Else.(*ast.BlockStmt); ok {
						emit("else-empty", b.Lbrace+1, b.Rbrace, "")
					}
				}
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE && inFunc > 0 {
					if _, ok := parent.(*ast.BlockStmt); ok {
						var s string
						for i := range n.Lhs {
							s += "_, "
							_ = i
						}
						s = s[:len(s)-2] + " = "
						if n.Tok == token.ASSIGN {
							// keep the evaluation, drop the effect
							emit("drop-assign", n.Pos(), n.Rhs[0].Pos(), s)
						} else {
							emit("drop-assign", n.Pos(), n.Rhs[0].Pos(), "_ = ")
						}
					}
				}
				if s, ok := assigns[n.Tok]; ok {
					emit("assign-op", n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), s)
				}
			case *ast.IncDecStmt:
				emit("drop-incdec", n.Pos(), n.End(), "_ = "+txt(n.X))
			case *ast.ExprStmt:
				if _, ok := n.X.(*ast.CallExpr); ok {
					emit("drop-call", n.Pos(), n.End(), "")
				}
			case *ast.BranchStmt:
				emit("drop-branch", n.Pos(), n.End(), "")
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i+1 < len(n.List) {
							emit("drop-case", e.Pos(), n.List[i+1].Pos(), "")
						} else {
							emit("drop-case", n.List[i-1].End(), e.End(), "")
						}
					}
				} else if len(n.Body) > 0 {
					emit("case-empty", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.KeyValueExpr:
				if c, ok := parent.(*ast.CompositeLit); ok {
					for i, e := range c.Elts {
						if e == ast.Expr(n) && i+1 < len(c.Elts) {
							emit("drop-element", n.Pos(), c.Elts[i+1].Pos(), "")
						}
					}
				}
			case *ast.SliceExpr:
				if n.Max != nil {
					emit("drop-max", n.High.End(), n.Rbrack, "")
				}
				if n.Low != nil {
					emit("drop-low", n.Low.Pos(), n.Low.End(), "")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || (len(id.Name) > 3 && (id.Name[:3] == "Err" || id.Name[:4] == "Code"))) {
						emit("return-nil", id.Pos(), id.End(), "nil")
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) > 1 {
					emit("append-nothing", n.Args[0].End(), n.Args[len(n.Args)-1].End(), "")
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) == 2 {
					emit("make-more", n.Args[1].Pos(), n.Args[1].End(), "("+txt(n.Args[1])+")+1")
				}
			}
			return true
		})
	}
}
