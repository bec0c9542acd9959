package mon

// Dictionary: integer, character and string literals of the code under test.
// They only steer workloads (sizes and fragments); no verdict depends on them.

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Dict struct {
	Ints []int
	Strs []string
}

func repoDir() string {
	if d := os.Getenv("LLV_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadDict() *Dict {
	ints := map[int]bool{}
	strs := map[string]bool{}
	// a string in most test grammars: not a hint
	for _, root := range []string{"pkg", "examples"} {
		filepath.Walk(filepath.Join(repoDir(), root),
			func(p string, fi os.FileInfo, err error) error {
				if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
					return nil
				}
				f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
				if err != nil {
					return nil
				}
				ast.Inspect(f, func(n ast.Node) bool {
					switch v := n.(type) {
					case *ast.ImportSpec:
						return false
					case *ast.BinaryExpr:
						// 1<<16 and the like
						if x, ok := intLit(v.X); ok {
							if y, ok := intLit(v.Y); ok && y < 29 && x < 1<<16 {
								if v.Op == token.SHL {
									ints[x<<uint(y)] = true
								}
								if v.Op == token.MUL && x*y < 1<<28 {
									ints[x*y] = true
								}
							}
						}
					case *ast.BasicLit:
						if x, ok := intLit(v); ok {
							ints[x] = true
						}
						if v.Kind == token.CHAR {
							if s, err := strconv.Unquote(v.Value); err == nil {
								strs[s] = true
							}
						}
						if v.Kind == token.STRING {
							if s, err := strconv.Unquote(v.Value); err == nil &&
								len(s) > 0 && len(s) <= 64 {
								strs[s] = true
								// what an escaped text stands for
								if u := plain(s); u != "" {
									strs[u] = true
								}
							}
						}
					}
					return true
				})
				return nil
			})
	}
	d := &Dict{}
	for i := range ints {
		if i > 2 && i <= 1<<28 {
			d.Ints = append(d.Ints, i)
		}
	}
	for s := range strs {
		d.Strs = append(d.Strs, s)
	}
	sort.Ints(d.Ints)
	sort.Strings(d.Strs)
	return d
}

func plain(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
		}
		b = append(b, s[i])
	}
	return string(b)
}

func intLit(e ast.Expr) (int, bool) {
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.INT {
		return 0, false
	}
	v, err := strconv.ParseInt(b.Value, 0, 64)
	if err != nil || v < 0 || v > 1<<31 {
		return 0, false
	}
	return int(v), true
}

var dict *Dict

// sizes worth a visit up to max: boundaries and literals of the code, each ±1
func sizesUpTo(max int) []int {
	m := map[int]bool{}
	put := func(v int) {
		for d := -1; d <= 1; d++ {
			if v+d >= 0 && v+d <= max {
				m[v+d] = true
			}
		}
	}
	for p := 1; p <= max; p *= 2 {
		put(p)
	}
	for p := 10; p <= max; p *= 10 {
		put(p)
	}
	for _, v := range dict.Ints {
		put(v)
	}
	var res []int
	for v := range m {
		res = append(res, v)
	}
	sort.Ints(res)
	return res
}
