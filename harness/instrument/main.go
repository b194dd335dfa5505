// instrument puts a scheduling point before every statement of the given Go files,
// replaces package sync, and registers goroutines.  It inserts text and changes no
// line numbers.
//
//	instrument -level 2 -out DIR FILE...      prints {"Replace": {FILE: DIR/..}} pairs
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

type ins struct {
	off  int
	end  int // text [off,end) is replaced
	text string
	seq  int
}

func main() {
	level := flag.Int("level", 2, "2: everything, 1: scheduling points only")
	out := flag.String("out", "", "directory for the instrumented files")
	flag.Parse()
	shared = sharedVars(flag.Args())
	site := 0
	rep := map[string]string{}
	var sites []string
	for k, file := range flag.Args() {
		src, err := os.ReadFile(file)
		fail(err)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.SkipObjectResolution)
		fail(err)
		var is []ins
		add := func(p token.Pos, e token.Pos, t string) {
			is = append(is, ins{fs.Position(p).Offset, fs.Position(e).Offset, t, len(is)})
		}
		var hot [][2]token.Pos // functions that touch what callers may share
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && touchesShared(fd, filepath.Dir(file)) {
				hot = append(hot, [2]token.Pos{fd.Pos(), fd.End()})
			} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				hot = append(hot, [2]token.Pos{gd.Pos(), gd.End()})
			}
		}
		y := func(p token.Pos) {
			site++
			k, mark := "Y", ""
			for _, h := range hot {
				if p >= h[0] && p < h[1] {
					k, mark = "H", "*"
				}
			}
			sites = append(sites, fmt.Sprintf("%s:%d%s", filepath.Base(filepath.Dir(file))+"/"+filepath.Base(file), fs.Position(p).Line, mark))
			add(p, p, fmt.Sprintf("zzsched.%s(%d);", k, site))
		}
		used := false
		block := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				used = true
				y(s.Pos())
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				block2 := x.List
				if len(block2) > 0 {
					switch block2[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						block2 = nil // the body of a switch or select
					}
				}
				block(block2)
			case *ast.CaseClause:
				block(x.Body)
			case *ast.CommClause:
				block(x.Body)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					used = true
					y(x.Body.Rbrace)
				}
			case *ast.GoStmt:
				if *level >= 2 {
					used = true
					add(x.Call.Fun.Pos(), x.Call.Fun.Pos(), "zzsched.Wrap(")
					add(x.Call.Fun.End(), x.Call.Fun.End(), ")")
				}
			case *ast.ImportSpec:
				p, _ := strconv.Unquote(x.Path.Value)
				if p == "sync" && *level >= 2 {
					t := strconv.Quote("github.com/kwilteam/kuneiform/zz_verif_simsync")
					if x.Name == nil {
						t = "sync " + t
					}
					add(x.Path.Pos(), x.Path.End(), t)
				}
			}
			return true
		})
		if used {
			add(f.Name.End(), f.Name.End(), `; import zzsched "github.com/kwilteam/kuneiform/zz_verif_simsched"`)
		}
		if len(is) == 0 {
			continue
		}
		sort.SliceStable(is, func(a, b int) bool { return is[a].off < is[b].off })
		var o []byte
		last := 0
		for _, i := range is {
			o = append(o, src[last:i.off]...)
			o = append(o, i.text...)
			last = i.end
		}
		o = append(o, src[last:]...)
		name := filepath.Join(*out, fmt.Sprintf("i%03d_%s", k, filepath.Base(file)))
		fail(os.WriteFile(name, o, 0644))
		rep[file] = name
	}
	b, _ := json.Marshal(map[string]any{"replace": rep, "sites": sites})
	os.Stdout.Write(b)
}

// Where callers can meet: functions that mention a package-level variable which is not
// just an error value, or use locks, atomics, channels, pools or goroutines.
var shared map[string]map[string]bool // directory -> names

func sharedVars(files []string) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for _, file := range files {
		f, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.SkipObjectResolution)
		fail(err)
		d := filepath.Dir(file)
		if out[d] == nil {
			out[d] = map[string]bool{}
		}
		for _, x := range f.Decls {
			g, ok := x.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for i, n := range v.Names {
					if i < len(v.Values) {
						if c, ok := v.Values[i].(*ast.CallExpr); ok {
							if se, ok := c.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "New" || se.Sel.Name == "Errorf") {
								if id, ok := se.X.(*ast.Ident); ok && (id.Name == "errors" || id.Name == "fmt") {
									continue
								}
							}
						}
					}
					if n.Name != "_" {
						out[d][n.Name] = true
					}
				}
			}
		}
	}
	return out
}

var syncWords = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "LoadOrStore": true, "LoadAndDelete": true, "CompareAndSwap": true, "Load": true, "Store": true, "Swap": true, "Do": true, "Put": true, "Wait": true, "Signal": true, "Broadcast": true}

func touchesShared(fd *ast.FuncDecl, dir string) bool {
	found := false
	ast.Inspect(fd, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			if shared[dir][x.Name] {
				found = true
			}
		case *ast.SelectorExpr:
			if syncWords[x.Sel.Name] {
				found = true
			}
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "atomic" {
				found = true
			}
			if ast.IsExported(x.Sel.Name) {
				for d := range shared {
					if id, ok := x.X.(*ast.Ident); ok && id.Name == filepath.Base(d) && shared[d][x.Sel.Name] {
						found = true
					}
				}
			}
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
