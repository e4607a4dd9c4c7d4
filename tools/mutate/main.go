// Command mutate lists the one-spot mutants of Go files, or writes one of them.
//
//	mutate list FILE...          one line per mutant: FILE INDEX LINE FUNC WHAT
//	mutate write FILE INDEX OUT  the file with that mutation
//
// It is a development tool (see DESIGN.md): no check uses it.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	what, fn string
	line     int
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			for i, e := range edits(f) {
				fmt.Printf("%s\t%d\t%d\t%s\t%s\n", f, i, e.line, e.fn, e.what)
			}
		}
	case "write":
		f := os.Args[2]
		n, _ := strconv.Atoi(os.Args[3])
		src, _ := os.ReadFile(f)
		e := edits(f)[n]
		out := string(src[:e.from]) + e.text + string(src[e.to:])
		if err := os.WriteFile(os.Args[4], []byte(out), 0o644); err != nil {
			panic(err)
		}
	}
}

func edits(file string) (l []edit) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		add := func(n ast.Node, repl, what string) {
			l = append(l, edit{off(n.Pos()), off(n.End()), repl, what + ": " + clip(text(n)) + " => " + clip(repl), name, fs.Position(n.Pos()).Line})
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				m := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"}}
				for _, r := range m[x.Op] {
					add(x, text(x.X)+" "+r+" "+text(x.Y), "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x, text(x.X), "drop right")
					add(x, text(x.Y), "drop left")
				}
				if x.Op == token.ADD {
					add(x, text(x.X), "drop right")
					add(x, text(x.Y), "drop left")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					add(x, "("+x.Value+"+1)", "int")
					add(x, "("+x.Value+"-1)", "int")
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil {
						if s == "" {
							add(x, `"x"`, "str")
						} else {
							add(x, `""`, "str")
						}
					}
				case token.CHAR:
					add(x, `'\x01'`, "char")
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x, "false", "bool")
				} else if x.Name == "false" {
					add(x, "true", "bool")
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				add(x.Cond, "!("+c+")", "negate")
				add(x.Cond, "("+c+") && false", "never")
				add(x.Cond, "("+c+") || true", "always")
				if x.Else != nil {
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						add(b, "{}", "else")
					}
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					add(x.Cond, "("+text(x.Cond)+") && false", "noloop")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s, add, text)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s, add, text)
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x, text(x.X), "drop not")
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 {
					add(x, text(x.Fun)+"("+text(x.Args[1])+", "+text(x.Args[0])+")", "swap args")
				}
			}
			return true
		})
	}
	return
}

func stmt(s ast.Stmt, add func(ast.Node, string, string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		add(x, "", "delete")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			t := ""
			for i, r := range x.Rhs {
				if i > 0 {
					t += "; "
				}
				if len(x.Lhs) == len(x.Rhs) {
					t += "_ = " + text(r)
				}
			}
			add(x, t, "delete")
		}
	case *ast.IncDecStmt:
		add(x, "", "delete")
	case *ast.BranchStmt:
		add(x, "", "delete")
	case *ast.DeferStmt:
		add(x, "", "delete")
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			add(x, "", "delete")
			return
		}
		for i, r := range x.Results {
			t := "return "
			for j, q := range x.Results {
				if j > 0 {
					t += ", "
				}
				if i == j {
					t += "nil"
				} else {
					t += text(q)
				}
			}
			if text(r) != "nil" {
				add(x, t, "return nil")
				if len(x.Results) == 1 {
					add(x, `return ""`, "return empty")
					add(x, "return 0", "return zero")
				}
			}
		}
	}
}

func clip(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] < ' ' {
			b[i] = ' '
		}
	}
	if len(b) > 70 {
		return string(b[:67]) + "..."
	}
	return string(b)
}
