// Command fuse writes, for go build -overlay, a copy of the library where every sum of a product is computed by
// math.FMA, as the compiler does for arm64, ppc64le, s390x or riscv64. The argument is the folder to write in.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const module = "github.com/twuillemin/modes/"

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

func main() {
	out, err := filepath.Abs(os.Args[1])
	check(err)
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles", module+"pkg/...")
	cmd.Stderr = os.Stderr
	list, err := cmd.Output()
	check(err)
	exports := map[string]string{}
	var pkgs []pkg
	for d := json.NewDecoder(bytes.NewReader(list)); d.More(); {
		var p pkg
		check(d.Decode(&p))
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, module) {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(exports[path]) })
	replace := map[string]string{}
	total := 0
	for _, p := range pkgs {
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			a, err := parser.ParseFile(fset, name, nil, parser.SkipObjectResolution)
			check(err)
			files, names = append(files, a), append(names, name)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(p.ImportPath, fset, files, info)
		for i, f := range files {
			src, err := os.ReadFile(names[i])
			check(err)
			if bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("// +build")) {
				continue
			}
			n := fuse(f, info)
			if n == 0 {
				continue
			}
			total += n
			var b bytes.Buffer
			check(printer.Fprint(&b, token.NewFileSet(), f))
			s := strings.Replace(b.String(), "package "+f.Name.Name, "package "+f.Name.Name+"\n\nimport fusedmath \"math\"\n", 1)
			to := filepath.Join(out, fmt.Sprintf("%d.go", len(replace)))
			check(os.WriteFile(to, []byte(s), 0o644))
			replace[names[i]] = to
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Printf("%d sums of products in %d files\n", total, len(replace))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "fuse:", err)
		os.Exit(1)
	}
}

// fuse replaces in place and says how many times.
func fuse(f *ast.File, info *types.Info) int {
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.AssignStmt: // x += y*z
			if (s.Tok == token.ADD_ASSIGN || s.Tok == token.SUB_ASSIGN) && len(s.Lhs) == 1 && product(s.Rhs[0]) != nil {
				if _, ok := s.Lhs[0].(*ast.Ident); ok {
					if t, ok := info.Types[s.Rhs[0]]; ok {
						op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB}[s.Tok]
						e := &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: s.Rhs[0]}
						if t.Value == nil && sum(e, t.Type) {
							s.Tok, s.Rhs[0] = token.ASSIGN, e
							n++
						}
					}
				}
			}
		case *ast.BinaryExpr:
			if t, ok := info.Types[s]; ok && t.Value == nil && (s.Op == token.ADD || s.Op == token.SUB) && sum(s, t.Type) {
				n++
			}
		}
		return true
	})
	return n
}

func product(e ast.Expr) *ast.BinaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.BinaryExpr:
			if x.Op == token.MUL {
				return x
			}
		}
		return nil
	}
}

func sum(s *ast.BinaryExpr, t types.Type) bool {
	single := t == types.Typ[types.Float32]
	if !single && t != types.Typ[types.Float64] {
		return false
	}
	minus := func(e ast.Expr) ast.Expr {
		return &ast.UnaryExpr{Op: token.SUB, X: &ast.ParenExpr{X: e}}
	}
	var a, b, c ast.Expr
	if p := product(s.Y); p != nil {
		a, b, c = p.X, p.Y, s.X
		if s.Op == token.SUB {
			a = minus(a)
		}
	} else if p := product(s.X); p != nil {
		a, b, c = p.X, p.Y, s.Y
		if s.Op == token.SUB {
			c = minus(c)
		}
	} else {
		return false
	}
	args := []ast.Expr{a, b, c}
	if single {
		for i := range args {
			args[i] = &ast.CallExpr{Fun: ast.NewIdent("float64"), Args: []ast.Expr{args[i]}}
		}
	}
	var call ast.Expr = &ast.CallExpr{Fun: ast.NewIdent("fusedmath.FMA"), Args: args}
	if single {
		call = &ast.CallExpr{Fun: ast.NewIdent("float32"), Args: []ast.Expr{call}}
	}
	// By one, as the node itself can not become a call.
	s.X, s.Op, s.Y = call, token.MUL, &ast.BasicLit{Kind: token.INT, Value: "1"}
	return true
}
