// mutate lists small changes of Go files as JSON lines: file, line, what, and
// the byte range to replace with which text. It is used by ../mutants.py to
// find out what the checks do not notice.
package main

import (
	"encoding/json"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.OR: {"&"}, token.AND: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	if os.Args[1] == "-swaps" {
		swapNames(enc, os.Args[2:])
		return
	}
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		at := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
		put := func(n ast.Node, from, to int, with, what string) {
			_ = enc.Encode(change{file, fset.Position(n.Pos()).Line, what, from, to, with})
		}
		quiet := func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return false
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return false
			}
			x, ok := s.X.(*ast.Ident)
			if !ok {
				return false
			}
			return x.Name == "log" || x.Name == "errors" && (s.Sel.Name == "New" || s.Sel.Name == "Wrap") || x.Name == "fmt" && s.Sel.Name == "Errorf"
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil || quiet(n) {
				return false
			}
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, op := range swaps[x.Op] {
					if lit, ok := x.X.(*ast.BasicLit); ok && lit.Kind == token.STRING {
						continue
					}
					put(x, at(x.OpPos), at(x.OpPos)+len(x.Op.String()), op, text(x)+": "+op)
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						put(x, at(x.Pos()), at(x.End()), strconv.FormatInt(v+1, 10), x.Value+" -> +1")
						if v > 0 {
							put(x, at(x.Pos()), at(x.End()), strconv.FormatInt(v-1, 10), x.Value+" -> -1")
						}
					}
				case token.STRING:
					if len(x.Value) > 2 {
						put(x, at(x.Pos()), at(x.End()), x.Value[:1]+"x"+x.Value[1:], x.Value+" -> x")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					put(x, at(x.Pos()), at(x.End()), "false", "true -> false")
				}
				if x.Name == "false" {
					put(x, at(x.Pos()), at(x.End()), "true", "false -> true")
				}
			case *ast.IfStmt:
				put(x, at(x.Cond.Pos()), at(x.Cond.End()), "!("+text(x.Cond)+")", "if !("+text(x.Cond)+")")
				put(x, at(x.Cond.Pos()), at(x.Cond.End()), "false && ("+text(x.Cond)+")", "if false: "+text(x.Cond))
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(put, at, text, s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(put, at, text, s)
				}
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i > 0 {
							put(e, at(x.List[i-1].End()), at(e.End()), "", "case without "+text(e))
						} else {
							put(e, at(e.Pos()), at(x.List[1].Pos()), "", "case without "+text(e))
						}
					}
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					last := x.Results[k-1]
					if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
						put(x, at(last.Pos()), at(last.End()), "nil", "return ... nil for err")
					} else if quiet(last) {
						put(x, at(last.Pos()), at(last.End()), "nil", "return ... nil for "+text(last))
					}
				}
			}
			return true
		})
	}
}

func del(put func(ast.Node, int, int, string, string), at func(token.Pos) int, text func(ast.Node) string, s ast.Stmt) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok && id.Name == "log" {
					return
				}
			}
		}
		put(s, at(s.Pos()), at(s.End()), "", "without "+text(s))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			put(s, at(s.Pos()), at(s.End()), "", "without "+text(s))
		}
	case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
		put(s, at(s.Pos()), at(s.End()), "", "without "+text(s))
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			put(s, at(s.Pos()), at(s.End()), "", "without "+text(s))
		}
	}
}

// swapNames puts another name of the same type in place of a field, method or
// local variable, lets loops end early or start late, and has statements run
// twice or in the other order.
func swapNames(enc *json.Encoder, files []string) {
	dirs := map[string][]string{}
	for _, f := range files {
		dirs[filepath.Dir(f)] = append(dirs[filepath.Dir(f)], f)
	}
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	for _, d := range names {
		fset := token.NewFileSet()
		var parsed []*ast.File
		for _, f := range dirs[d] {
			a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			if strings.Contains(f, "_other") {
				continue
			}
			parsed = append(parsed, a)
		}
		info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
		pkg, _ := conf.Check(d, fset, parsed, info)
		for _, f := range parsed {
			file := fset.Position(f.Pos()).Filename
			src, _ := os.ReadFile(file)
			at := func(p token.Pos) int { return fset.Position(p).Offset }
			text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
			put := func(n ast.Node, from, to int, with, what string) {
				_ = enc.Encode(change{file, fset.Position(n.Pos()).Line, what, from, to, with})
			}
			body := func(l []ast.Stmt) {
				simple := func(s ast.Stmt) bool {
					switch x := s.(type) {
					case *ast.ExprStmt:
						return !strings.HasPrefix(text(s), "log.")
					case *ast.AssignStmt:
						return x.Tok != token.DEFINE
					case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SwitchStmt:
						return true
					}
					return false
				}
				for i, s := range l {
					if _, ok := s.(*ast.ExprStmt); ok && simple(s) {
						put(s, at(s.End()), at(s.End()), "\n"+text(s), "twice "+text(s))
					}
					if i > 0 && simple(s) && simple(l[i-1]) {
						put(s, at(l[i-1].Pos()), at(s.End()), text(s)+"\n"+text(l[i-1]), "swapped with the one before: "+strings.SplitN(text(s), "\n", 2)[0])
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					body(x.List)
				case *ast.CaseClause:
					body(x.Body)
				case *ast.ForStmt:
					put(x, at(x.Body.Rbrace), at(x.Body.Rbrace), "\nbreak\n", "loop ends after one turn")
				case *ast.RangeStmt:
					put(x, at(x.Body.Rbrace), at(x.Body.Rbrace), "\nbreak\n", "loop ends after one turn")
					if id, ok := x.Key.(*ast.Ident); ok && x.Tok == token.DEFINE {
						name, from, to := id.Name, 0, 0
						if name == "_" {
							name, from, to = "mutI", at(id.Pos()), at(id.End())
							put(x, from, at(x.Body.Lbrace)+1, name+string(src[to:at(x.Body.Lbrace)+1])+"\nif mutI == 0 {\ncontinue\n}\n", "loop leaves out the first")
						}
					}
				case *ast.SelectorExpr:
					sel := info.Selections[x]
					if sel == nil || sel.Obj().Pkg() != pkg {
						return true
					}
					recv := sel.Recv()
					switch sel.Kind() {
					case types.FieldVal:
						if p, ok := recv.Underlying().(*types.Pointer); ok {
							recv = p.Elem()
						}
						st, ok := recv.Underlying().(*types.Struct)
						if !ok {
							return true
						}
						for i := 0; i < st.NumFields(); i++ {
							o := st.Field(i)
							if o.Name() != sel.Obj().Name() && !o.Embedded() && types.Identical(o.Type(), sel.Obj().Type()) {
								put(x, at(x.Sel.Pos()), at(x.Sel.End()), o.Name(), text(x)+" -> "+o.Name())
							}
						}
					case types.MethodVal:
						ms := types.NewMethodSet(recv)
						for i := 0; i < ms.Len(); i++ {
							o := ms.At(i).Obj()
							if o.Name() != sel.Obj().Name() && o.Pkg() == pkg && sameSig(o.Type(), sel.Obj().Type()) {
								put(x, at(x.Sel.Pos()), at(x.Sel.End()), o.Name(), text(x)+" -> "+o.Name())
							}
						}
					}
				case *ast.Ident:
					v, ok := info.Uses[x].(*types.Var)
					if !ok || v.IsField() || v.Pkg() != pkg || v.Parent() == nil || v.Parent() == pkg.Scope() {
						return true
					}
					seen := map[string]bool{x.Name: true}
					for s := pkg.Scope().Innermost(x.Pos()); s != nil && s != pkg.Scope(); s = s.Parent() {
						for _, name := range s.Names() {
							o, ok := s.Lookup(name).(*types.Var)
							if !ok || seen[name] || name == "_" || o.Pos() >= x.Pos() {
								continue
							}
							seen[name] = true
							if types.Identical(o.Type(), v.Type()) {
								put(x, at(x.Pos()), at(x.End()), name, x.Name+" -> "+name)
							}
						}
					}
				}
				return true
			})
		}
	}
}

func sameSig(a, b types.Type) bool {
	x, ok1 := a.(*types.Signature)
	y, ok2 := b.(*types.Signature)
	return ok1 && ok2 && types.Identical(types.NewSignatureType(nil, nil, nil, x.Params(), x.Results(), x.Variadic()), types.NewSignatureType(nil, nil, nil, y.Params(), y.Results(), y.Variadic()))
}
