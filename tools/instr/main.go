// instr copies the package's non-test Go files, putting a call vrfPoint(n) before every statement of every function,
// so that the checks can stretch the windows between any two statements. It never touches the originals.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

var points int

func point() ast.Stmt {
	points++
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  ast.NewIdent("vrfPoint"),
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(points)}},
	}}
}

func spread(list []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		out = append(out, point(), s)
	}
	return out
}

const delays = `package kafkamock

import (
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

var vrfDelaySeed = func() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VRF_DELAY"), 10, 64)
	return n
}()

var vrfDelayUsed [%d]atomic.Uint32
var vrfDelayRnd atomic.Uint64

func vrfMix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	return x ^ (x >> 33)
}

func vrfPoint(n int) {
	if vrfDelaySeed == 0 {
		return
	}
	h := vrfMix(uint64(n)*0x9E3779B97F4A7C15 + vrfDelaySeed)
	// few points often, some points, all points seldom
	points, often := uint64(8), uint64(3)
	switch vrfDelaySeed / 1000 %% 3 {
	case 1:
		points, often = 3, 4
	case 2:
		points, often = 1, 8
	}
	if h%%points != 0 {
		return
	}
	r := vrfMix(vrfDelayRnd.Add(1) + h)
	if r%%often != 0 {
		if r%%often == 1 {
			runtime.Gosched()
		}
		return
	}
	if vrfDelayUsed[n].Add(1) > 150 {
		return
	}
	time.Sleep(time.Duration((r>>8)%%2500) * time.Microsecond)
}
`

func main() {
	src, dst := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		panic(err)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		if af.Name.Name != "kafkamock" {
			continue
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					b.List = spread(b.List)
				case *ast.CaseClause:
					b.Body = spread(b.Body)
				case *ast.CommClause:
					b.Body = spread(b.Body)
				}
				return true
			})
		}
		out, err := os.Create(filepath.Join(dst, filepath.Base(f)))
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(out, "//line %s:1\n", f)
		if err := printer.Fprint(out, fset, af); err != nil {
			panic(err)
		}
		out.Close()
	}
	if err := os.WriteFile(filepath.Join(dst, "zz_vrf_delay.go"), []byte(fmt.Sprintf(delays, points+1)), 0o644); err != nil {
		panic(err)
	}
}
