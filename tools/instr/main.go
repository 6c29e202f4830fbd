// instr writes an overlay for `go build -overlay` that swaps time, sync and
// sync/atomic in the tracker's packages for the shims and puts scheduling points
// between statements. It edits text at positions taken from the parser, so the
// instrumented source differs from the original only by insertions and import
// paths and keeps its line numbers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const mod = "github.com/crimist/trakx/zz_verif/"

type edit struct {
	from, to int
	text     string
}

func has(list, rel string) bool {
	for _, p := range strings.Split(list, ",") {
		if p != "" && (rel == p || strings.HasPrefix(rel, p+"/")) {
			return true
		}
	}
	return false
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "directory for the instrumented files")
	shim := flag.String("shim", "", "directory with the shim packages")
	driver := flag.String("driver", "", "directory with the driver (package main)")
	vtime := flag.String("vtime", "", "package dirs whose time is virtual")
	notime := flag.String("notime", "", "exceptions")
	vsync := flag.String("vsync", "", "package dirs whose sync is replaced")
	yield := flag.String("yield", "", "package dirs with scheduling points between statements")
	flag.Parse()
	replace := map[string]string{}
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(2)
		}
	}
	add := func(dir, as string) {
		ents, err := os.ReadDir(dir)
		die(err)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				replace[filepath.Join(*repo, "zz_verif", as, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
	}
	if *shim != "" {
		for _, p := range []string{"vtime", "vsync", "vatomic"} {
			add(filepath.Join(*shim, p), p)
		}
	}
	if *driver != "" {
		add(*driver, "driver")
	}
	dirs := map[string][]string{}
	die(filepath.Walk(*repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() && (strings.HasPrefix(info.Name(), ".") && p != *repo || info.Name() == "zz_verif" || info.Name() == "testdata" || info.Name() == "vendor") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	}))
	for dir, files := range dirs {
		rel, _ := filepath.Rel(*repo, dir)
		t := has(*vtime, rel) && !has(*notime, rel)
		sy := has(*vsync, rel)
		y := has(*yield, rel)
		if !t && !sy && !y {
			continue
		}
		fset := token.NewFileSet()
		parsed := map[string]*ast.File{}
		consts := map[string]bool{}
		src := map[string][]byte{}
		for _, f := range files {
			b, err := os.ReadFile(f)
			die(err)
			src[f] = b
			a, err := parser.ParseFile(fset, f, b, parser.ParseComments)
			die(err)
			parsed[f] = a
			for _, d := range a.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.CONST {
					for _, sp := range g.Specs {
						for _, n := range sp.(*ast.ValueSpec).Names {
							consts[n.Name] = true
						}
					}
				}
			}
		}
		for f, a := range parsed {
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			var eds []edit
			usesC := false
			for _, im := range a.Imports {
				if strings.Trim(im.Path.Value, `"`) == "C" {
					usesC = true
				}
			}
			if usesC {
				continue
			}
			for _, im := range a.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				if im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".") {
					continue
				}
				to, name := "", ""
				switch {
				case path == "time" && t:
					to, name = "vtime", "time"
				case path == "sync" && sy:
					to, name = "vsync", "sync"
				case path == "sync/atomic" && sy:
					to, name = "vatomic", "atomic"
				}
				if to == "" {
					continue
				}
				txt := `"` + mod + to + `"`
				if im.Name == nil {
					txt = name + " " + txt
				}
				eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), txt})
			}
			needZ := false
			ast.Inspect(a, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) == 2 {
						if _, ok := n.Args[0].(*ast.MapType); ok {
							drop := false
							switch x := n.Args[1].(type) {
							case *ast.BasicLit:
								drop = true
							case *ast.Ident:
								drop = consts[x.Name]
							}
							if drop {
								eds = append(eds, edit{off(n.Args[0].End()), off(n.Args[1].End()), ""})
							}
						}
					}
				case *ast.GoStmt:
					if sy && n.Call.Ellipsis == token.NoPos {
						needZ = true
						// go f(a, b)  ->  zzv.Go(f, a, b)
						eds = append(eds, edit{off(n.Pos()), off(n.Call.Pos()), "zzv.Go("})
						sep := ", "
						if len(n.Call.Args) == 0 {
							sep = ""
						}
						eds = append(eds, edit{off(n.Call.Lparen), off(n.Call.Lparen) + 1, sep})
					}
				case *ast.BlockStmt:
					if y {
						for _, st := range n.List {
							if stmtYield(st) {
								needZ = true
								eds = append(eds, edit{off(st.Pos()), off(st.Pos()), "zzv.Yield(); "})
							}
						}
					}
				case *ast.CaseClause:
					if y {
						for _, st := range n.Body {
							if stmtYield(st) {
								needZ = true
								eds = append(eds, edit{off(st.Pos()), off(st.Pos()), "zzv.Yield(); "})
							}
						}
					}
				}
				return true
			})
			if needZ {
				eds = append(eds, edit{off(a.Name.End()), off(a.Name.End()), `; import zzv "` + mod + `vsync"`})
			}
			if len(eds) == 0 {
				continue
			}
			sort.SliceStable(eds, func(i, j int) bool {
				if eds[i].from != eds[j].from {
					return eds[i].from < eds[j].from
				}
				return eds[i].to < eds[j].to // insertions first
			})
			var b strings.Builder
			pos := 0
			for _, e := range eds {
				if e.from < pos { // nested in a replaced range: cannot happen for the edits above
					die(fmt.Errorf("overlapping edits in %s at %d", f, e.from))
				}
				b.Write(src[f][pos:e.from])
				b.WriteString(e.text)
				pos = e.to
			}
			b.Write(src[f][pos:])
			o := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__")+"__"+filepath.Base(f))
			die(os.WriteFile(o, []byte(b.String()), 0o644))
			replace[f] = o
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
}

func stmtYield(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt, *ast.EmptyStmt:
		return false
	}
	return true
}
