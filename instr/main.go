// Command instrument puts a scheduling point before every statement of the package whose sources lie in the
// directory given, and replaces package sync by one that gives way instead of blocking.
package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/couchbaselabs/gojsonsm"

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	files, err := filepath.Glob(filepath.Join(os.Args[1], "*.go"))
	must(err)
	for _, name := range files {
		src, err := os.ReadFile(name)
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		must(err)
		type insertion struct {
			at, until int // until > at: replace
			text      string
		}
		var ins []insertion
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		before := func(list []ast.Stmt) {
			for _, s := range list {
				ins = append(ins, insertion{off(s.Pos()), 0, "zzs.P();"})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				// the block of a switch or select has clauses only
				for _, s := range n.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						continue
					}
					before([]ast.Stmt{s})
				}
			case *ast.CaseClause:
				before(n.Body)
			case *ast.CommClause:
				before(n.Body)
			}
			return true
		})
		ins = append(ins, insertion{off(f.Name.End()), 0, "; import zzs \"" + mod + "/zzs\""})
		for _, im := range f.Imports {
			if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
				text := "\"" + mod + "/zzsync\""
				if im.Name == nil {
					text = "sync " + text
				}
				ins = append(ins, insertion{off(im.Path.Pos()), off(im.Path.End()), text})
			}
		}
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
		var out bytes.Buffer
		last := 0
		for _, i := range ins {
			// keep the line numbers: what is inserted has no line breaks
			out.Write(src[last:i.at])
			out.WriteString(i.text)
			last = i.at
			if i.until > i.at {
				last = i.until
			}
		}
		out.Write(src[last:])
		out.WriteString("\nvar _ = zzs.P\n")
		must(os.WriteFile(name, out.Bytes(), 0644))
	}
	// the packages that the instrumented sources use
	for _, p := range []string{"zzs", "zzsync"} {
		must(os.MkdirAll(filepath.Join(os.Args[1], p), 0755))
		src, err := filepath.Glob(filepath.Join(os.Args[2], p, "*.go.txt"))
		must(err)
		for _, s := range src {
			data, err := os.ReadFile(s)
			must(err)
			must(os.WriteFile(filepath.Join(os.Args[1], p, strings.TrimSuffix(filepath.Base(s), ".txt")), data, 0644))
		}
	}
}
