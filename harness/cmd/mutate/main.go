// mutate is a tool for the development of the checks (no check uses it): it makes small changes to the sources of the
// code generator in scratch copies and tells which of them the repository's tests let pass and whether they change what
// is generated for a corpus of declarations.
//
//	mutate list REPO            list of the mutants
//	mutate run REPO WORK N OUT  run N workers with copies of REPO in WORK, append to OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Mutant is one change: bytes [From,To) of File are replaced by Text.
type Mutant struct {
	File     string
	Line     int
	From, To int
	Text     string
	What     string
}

func mutants(repo string) []Mutant {
	var out []Mutant
	filepath.Walk(repo+"/generator", func(p string, i os.FileInfo, err error) error {
		if err != nil || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		out = append(out, fileMutants(p, rel)...)
		return nil
	})
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].File != out[j].File {
			return out[i].File < out[j].File
		}
		return out[i].From < out[j].From
	})
	return out
}

func fileMutants(path, rel string) []Mutant {
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []Mutant
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(from, to token.Pos, text, what string) {
		out = append(out, Mutant{rel, fs.Position(from).Line, off(from), off(to), text, what})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 90 {
			s = s[:90] + "..."
		}
		return s
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch t := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.DeferStmt:
				add(s.Pos(), s.End(), "", "drop statement "+short(text(s)))
			case *ast.AssignStmt:
				if t.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "drop statement "+short(text(s)))
				}
			case *ast.ReturnStmt:
				if len(t.Results) == 0 {
					add(s.Pos(), s.End(), "", "drop return")
				}
				for _, r := range t.Results {
					if id, ok := r.(*ast.Ident); !ok || id.Name != "nil" {
						add(r.Pos(), r.End(), "nil", "return nil for "+short(text(r)))
					}
				}
			}
		}
	}
	drop := func(l []ast.Expr, end token.Pos, what string) {
		for i, e := range l {
			from, to := e.Pos(), e.End()
			if i+1 < len(l) {
				to = l[i+1].Pos()
			} else if i > 0 {
				from = l[i-1].End()
			}
			add(from, to, "", "drop "+what+" "+short(text(e)))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt:
			stmts(t.List)
		case *ast.CaseClause:
			stmts(t.Body)
			if len(t.Body) > 0 {
				add(t.Body[0].Pos(), t.Body[len(t.Body)-1].End(), "", "empty case "+short(text(t)))
			}
			if len(t.List) > 1 {
				drop(t.List, t.Colon, "case")
			}
		case *ast.IfStmt:
			c := text(t.Cond)
			add(t.Cond.Pos(), t.Cond.End(), "!("+c+")", "negate "+short(c))
			add(t.Cond.Pos(), t.Cond.End(), "true || "+c, "true for "+short(c))
			add(t.Cond.Pos(), t.Cond.End(), "false && ("+c+")", "false for "+short(c))
		case *ast.BinaryExpr:
			sw := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="}, token.ADD: {"-"}, token.SUB: {"+"}}
			for _, o := range sw[t.Op] {
				add(t.OpPos, t.OpPos+token.Pos(len(t.Op.String())), o, t.Op.String()+" becomes "+o+" in "+short(text(t)))
			}
			if t.Op == token.LAND || t.Op == token.LOR {
				add(t.Pos(), t.End(), text(t.X), "only left of "+short(text(t)))
				add(t.Pos(), t.End(), text(t.Y), "only right of "+short(text(t)))
			}
		case *ast.BasicLit:
			if t.Kind == token.INT {
				if v, err := strconv.Atoi(t.Value); err == nil {
					add(t.Pos(), t.End(), strconv.Itoa(v+1), t.Value+" becomes "+strconv.Itoa(v+1))
					if v > 0 {
						add(t.Pos(), t.End(), strconv.Itoa(v-1), t.Value+" becomes "+strconv.Itoa(v-1))
					}
				}
			}
			if t.Kind == token.STRING {
				if v, err := strconv.Unquote(t.Value); err == nil && v != "" {
					add(t.Pos(), t.End(), strconv.Quote(v+"X"), "string "+short(t.Value)+" with X")
				}
			}
		case *ast.Ident:
			if t.Name == "true" {
				add(t.Pos(), t.End(), "false", "false for true")
			} else if t.Name == "false" {
				add(t.Pos(), t.End(), "true", "true for false")
			}
		case *ast.UnaryExpr:
			if t.Op == token.NOT {
				add(t.Pos(), t.End(), text(t.X), "no negation of "+short(text(t.X)))
			}
		case *ast.CallExpr:
			drop(t.Args, t.Rparen, "argument")
			if sel, ok := t.Fun.(*ast.SelectorExpr); ok {
				sw := map[string]string{"Equal": "NotEqual", "NotEqual": "Equal", "NotNil": "IsNil", "IsNil": "NotNil", "Add": "Sub", "Sub": "Add", "If": "", "Or": "And", "And": "Or"}
				if x := sw[sel.Sel.Name]; x != "" {
					add(sel.Sel.Pos(), sel.Sel.End(), x, sel.Sel.Name+" becomes "+x+" in "+short(text(t)))
				}
			}
		case *ast.CompositeLit:
			drop(t.Elts, t.Rbrace, "element")
		case *ast.SelectorExpr:
			if x, ok := t.X.(*ast.Ident); ok && (x.Name == "asthlp" || x.Name == "token" || x.Name == "names") {
				sw := map[string][]string{"Assignment": {"Definition"}, "Definition": {"Assignment"}, "NEQ": {"EQL"}, "EQL": {"NEQ"}, "LSS": {"LEQ", "GTR"}, "GTR": {"GEQ", "LSS"}, "LAND": {"LOR"}, "LOR": {"LAND"}, "True": {"False"}, "False": {"True"}, "Zero": {"False"}, "Nil": {"EmptyString"}}
				for _, o := range sw[t.Sel.Name] {
					add(t.Sel.Pos(), t.Sel.End(), o, t.Sel.Name+" becomes "+o)
				}
			}
		}
		return true
	})
	return out
}

// apply returns the mutated source; nil when it does not parse or is the same.
func (m Mutant) apply(src []byte) []byte {
	r := append(append(append([]byte{}, src[:m.From]...), m.Text...), src[m.To:]...)
	if bytes.Equal(r, src) {
		return nil
	}
	if _, err := format.Source(r); err != nil {
		return nil
	}
	return r
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mutate list|run REPO ...")
		os.Exit(2)
	}
	ms := mutants(os.Args[2])
	if os.Args[1] == "apply" {
		// apply REPO N DIR: writes mutant N into the copy DIR
		var n int
		fmt.Sscan(os.Args[3], &n)
		m := ms[n]
		orig, _ := os.ReadFile(os.Args[2] + "/" + m.File)
		if err := os.WriteFile(os.Args[4]+"/"+m.File, m.apply(orig), 0o644); err != nil {
			panic(err)
		}
		return
	}
	if os.Args[1] == "list" {
		for i, m := range ms {
			fmt.Println(i, m.File, m.Line, m.What)
		}
		return
	}
	run(ms)
}
