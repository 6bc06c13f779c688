// Command inst writes instrumented copies of the repository's source files.
//
//	inst REPO OUTDIR OVERLAY.json [DIR...]
//
// Before every statement it inserts a call of sched.P (on the same line, so that positions keep their lines), it replaces
// package sync by shimsync, and it routes go statements and channel operations through the scheduler. The overlay file
// is extended with the copies. DIRs (relative to REPO) restrict the packages; the default is all.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "verif.local/sched"

type edit struct {
	off, end int
	text     string
	seq      int
}

func main() {
	repo, out, ovPath := os.Args[1], os.Args[2], os.Args[3]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(ovPath)
	die(err)
	die(json.Unmarshal(b, &ov))
	var files []string
	if dirs := os.Args[4:]; len(dirs) > 0 {
		for _, d := range dirs {
			m, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
			files = append(files, m...)
		}
	} else {
		die(filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if d.IsDir() {
				n := d.Name()
				if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "zz_verifmc" || exists(filepath.Join(p, "go.mod"))) {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(p, ".go") {
				files = append(files, p)
			}
			return nil
		}))
	}
	sort.Strings(files)
	loc := 1
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(f), filepath.Base(f)); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(f)
		die(err)
		res, changed := instrument(f, src, &loc)
		if !changed {
			continue
		}
		rel, _ := filepath.Rel(repo, f)
		dst := filepath.Join(out, rel)
		die(os.MkdirAll(filepath.Dir(dst), 0o755))
		die(os.WriteFile(dst, res, 0o644))
		ov.Replace[f] = dst
	}
	b, err = json.Marshal(ov)
	die(err)
	die(os.WriteFile(ovPath, b, 0o644))
	fmt.Println("points:", loc-1)
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

func instrument(path string, src []byte, loc *int) ([]byte, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false // the compiler will say so
	}
	var eds []edit
	used := false
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(o, e int, t string) { eds = append(eds, edit{o, e, t, len(eds)}) }
	ins := func(p token.Pos, t string) { add(off(p), off(p), t) }

	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins(s.Pos(), "zzsched.P("+strconv.Itoa(*loc)+");")
			*loc++
			used = true
		}
	}
	inSelect := map[ast.Node]bool{}
	two := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
			if x.Comm != nil {
				inSelect[x.Comm] = true
				ast.Inspect(x.Comm, func(m ast.Node) bool {
					switch u := m.(type) {
					case *ast.FuncLit:
						return false
					case *ast.UnaryExpr:
						if u.Op == token.ARROW {
							inSelect[u] = true
						}
					}
					return true
				})
			}
		case *ast.SendStmt:
			if !inSelect[x] {
				ins(x.Chan.Pos(), "zzsched.Send(")
				add(off(x.Arrow), off(x.Arrow)+2, ",")
				ins(x.Value.End(), ")")
				used = true
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				mark2(x.Rhs[0], two)
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				mark2(x.Values[0], two)
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inSelect[x] {
				name := "zzsched.Recv("
				if two[x] {
					name = "zzsched.Recv2("
				}
				add(off(x.OpPos), off(x.OpPos)+2, name)
				ins(x.X.End(), ")")
				used = true
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				add(off(id.Pos()), off(id.End()), "zzsched.Close")
				used = true
			}
		case *ast.GoStmt:
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 && fl.Type.Results == nil {
				add(off(x.Go), off(x.Go)+2, "zzsched.Go(")
				add(off(x.Call.Lparen), off(x.Call.Rparen)+1, ")")
				used = true
			}
		}
		return true
	})
	changed := used
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			add(off(im.Path.Pos()), off(im.Path.End()), name+`"`+mod+`/shimsync"`)
			changed = true
		}
	}
	if !changed {
		return nil, false
	}
	if used {
		ins(f.Name.End(), `; import zzsched "`+mod+`"`)
	}
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		return eds[i].seq < eds[j].seq
	})
	var out []byte
	at := 0
	for _, e := range eds {
		out = append(out, src[at:e.off]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, src[at:]...), true
}

func mark2(x ast.Expr, two map[ast.Node]bool) {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	two[x] = true
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "inst:", err)
		os.Exit(3)
	}
}
