// Lists mutants of the Go files given: one JSON object per line. A development tool: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		emit := func(from, to token.Pos, repl, kind string) {
			a, b := fs.Position(from).Offset, fs.Position(to).Offset
			_ = enc.Encode(mutant{file, a, b, repl, string(src[a:b]), fs.Position(from).Line, kind, fn})
		}
		text := func(n ast.Node) string {
			return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				if x.Tok == token.CONST || x.Tok == token.IMPORT {
					return x.Tok == token.CONST && fn == "" && false
				}
			case *ast.FuncDecl:
				fn = x.Name.Name
				if x.Recv != nil && len(x.Recv.List) > 0 {
					fn = text(x.Recv.List[0].Type) + "." + fn
				}
				if x.Body != nil {
					// A pair of bytes, met once in 65536 messages, is read otherwise.
					for _, p := range x.Type.Params.List {
						if text(p.Type) != "[]byte" || len(p.Names) != 1 {
							continue
						}
						d := p.Names[0].Name
						var used []string
						for _, m := range regexp.MustCompile(`\b`+d+`\[([0-9]+)\]`).FindAllStringSubmatch(text(x.Body), -1) {
							used = append(used, m[1])
						}
						if len(used) == 0 {
							used = strings.Fields("0 1 2 3 4 5 6")
						}
						r := rand.New(rand.NewSource(int64(len(text(x)))))
						for k := 0; k < 4; k++ {
							i := r.Intn(6)
							c := used[r.Intn(len(used))]
							cond := fmt.Sprintf("%s[%d] == 0x%02X && %s[%d] == 0x%02X", d, i, r.Intn(256), d, i+1, r.Intn(256))
							if k%2 == 0 {
								cond = fmt.Sprintf("uint16(%s[%d])<<8|uint16(%s[%d]) == 0x%04X", d, i, d, i+1, r.Intn(65536))
							}
							emit(x.Body.Lbrace+1, x.Body.Lbrace+1, fmt.Sprintf(" if len(%s) >= 7 && %s { %s = append([]byte{}, %s...); %s[%s] ^= 0x%02X }", d, cond, d, d, d, c, 1<<r.Intn(8)), "trigger")
						}
					}
				}
				if x.Body != nil && x.Type.Results != nil && len(x.Body.List) > 0 {
					// The function gives the zero values.
					decl, names := "", ""
					for i, r := range x.Type.Results.List {
						decl += fmt.Sprintf("var zero%d %s; ", i, text(r.Type))
						names += fmt.Sprintf(", zero%d", i)
					}
					emit(x.Body.Lbrace+1, x.Body.Lbrace+1, " if true { "+decl+"return "+names[2:]+" }", "body")
				}
			case *ast.CallExpr:
				t := text(x.Fun)
				if t == "errors.New" || t == "fmt.Errorf" || t == "panic" || t == "log.Fatal" {
					return false
				}
				// a conversion through a narrower type
				if len(x.Args) == 1 {
					narrow := map[string][]string{"uint16": {"uint8"}, "uint32": {"uint16", "uint8"}, "int16": {"int8"}, "int32": {"int16"}, "int": {"int8", "uint8"}, "float64": {"float32", "uint32"}, "float32": {"int32"}}
					for _, n := range narrow[t] {
						emit(x.Args[0].Pos(), x.Args[0].End(), n+"("+text(x.Args[0])+")", "narrow")
					}
				}
				// exchange of two arguments
				if !strings.HasPrefix(t, "fmt.") {
					for i := 0; i+1 < len(x.Args); i++ {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swapargs")
					}
				} else {
					for i := 1; i+1 < len(x.Args); i++ {
						emit(x.Args[i].Pos(), x.Args[i].End(), text(x.Args[i+1]), "printother")
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseUint(x.Value, 0, 64)
					if err != nil {
						break
					}
					if strings.HasPrefix(x.Value, "0x") {
						w := len(x.Value) - 2
						for b := 0; b < 4*w; b++ {
							m := uint64(1) << uint(b)
							// the ends of the runs of bits, and their neighbours
							if (v&m != 0) != (v&(m>>1) != 0 && b > 0) || (v&m != 0) != (v&(m<<1) != 0) {
								emit(x.Pos(), x.End(), fmt.Sprintf("0x%0*X", w, v^m), "mask")
							}
						}
					} else {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
						}
					}
				case token.FLOAT:
					v, err := strconv.ParseFloat(x.Value, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprintf("%v", v+1)+".0", "float")
						emit(x.Pos(), x.End(), fmt.Sprintf("(%v * 1.001)", v), "float")
					}
				case token.STRING:
					if strings.HasPrefix(x.Value, "\"") && len(x.Value) > 4 {
						emit(x.Pos(), x.End(), x.Value[:len(x.Value)-2]+"\"", "string")
					}
				}
			case *ast.SliceExpr:
				for _, b := range []ast.Expr{x.Low, x.High} {
					if b != nil {
						emit(b.Pos(), b.End(), "("+text(b)+")+1", "slice")
						emit(b.Pos(), b.End(), "("+text(b)+")-1", "slice")
					}
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					token.MUL: {"/"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}}
				for _, a := range alt[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), "("+text(x.X)+")", "drop")
					emit(x.Pos(), x.End(), "("+text(x.Y)+")", "drop")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.OpPos, x.OpPos+1, "", "not")
				}
				if x.Op == token.SUB {
					emit(x.OpPos, x.OpPos+1, "", "minus")
				}
			case *ast.IncDecStmt:
				emit(x.TokPos, x.TokPos+2, map[token.Token]string{token.INC: "--", token.DEC: "++"}[x.Tok], "incdec")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE && len(x.Lhs) == 1 {
					emit(x.Pos(), x.End(), "_ = "+text(x.Lhs[0]), "noassign")
					emit(x.Pos(), x.End(), "_ = "+text(x.Rhs[0]), "noassign")
				}
			case *ast.CompositeLit:
				for i := 0; i < len(x.Elts); i++ {
					if kv, ok := x.Elts[i].(*ast.KeyValueExpr); ok {
						if i+1 < len(x.Elts) {
							if kw, ok := x.Elts[i+1].(*ast.KeyValueExpr); ok {
								emit(kv.Value.Pos(), kv.Value.End(), text(kw.Value), "otherfield")
							}
						}
						if _, ok := kv.Key.(*ast.Ident); ok {
							emit(kv.Pos(), kv.End()+1, "", "nofield")
						}
					} else if i+1 < len(x.Elts) {
						emit(x.Elts[i].Pos(), x.Elts[i].End(), text(x.Elts[i+1]), "otherelt")
					}
				}
			case *ast.SwitchStmt:
				for i := 0; i < len(x.Body.List); i++ {
					c := x.Body.List[i].(*ast.CaseClause)
					for k := range c.List {
						if len(c.List) > 1 {
							l := []string{}
							for j := range c.List {
								if j != k {
									l = append(l, text(c.List[j]))
								}
							}
							emit(c.List[0].Pos(), c.List[len(c.List)-1].End(), strings.Join(l, ", "), "nocase")
						}
					}
					if i+1 < len(x.Body.List) {
						d := x.Body.List[i+1].(*ast.CaseClause)
						if len(c.Body) > 0 && len(d.Body) > 0 {
							emit(c.Body[0].Pos(), c.Body[len(c.Body)-1].End(), string(src[fs.Position(d.Body[0].Pos()).Offset:fs.Position(d.Body[len(d.Body)-1].End()).Offset]), "othercase")
						}
					}
					if c.List != nil {
						to := x.Body.Rbrace
						if i+1 < len(x.Body.List) {
							to = x.Body.List[i+1].Pos()
						}
						emit(c.Pos(), to, "", "delcase")
					}
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "nocall")
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					if id, ok := x.Results[0].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						emit(x.Pos(), x.End(), "return "+map[string]string{"true": "false", "false": "true"}[id.Name], "bool")
					}
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
