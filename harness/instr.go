package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter writes copies of the packages below in which random
// numbers, locks and the order of statements are under the control of the
// explorer. It only inserts calls and replaces imports; what the code does is
// not changed. The copies replace the originals through a build overlay.

const modPath = "blichmann.eu/code/btrfscue"

var instrDirs = []struct {
	dir    string
	points string // function to call before statements
}{
	{"internal/identify", ""},
	{"internal/rescuefs", "Point"},
	{"pkg/btrfs/index", "Deep"},
}

var instrImports = map[string]string{
	"math/rand": modPath + "/internal/zzvrand",
	"sync":      modPath + "/internal/zzvsync",
}

// instrumentMain is called as: vh instrument REPO OUTDIR OVERLAY. It extends
// the overlay file.
func instrumentMain(args []string) {
	repo, out, overlay := args[0], args[1], args[2]
	var o struct{ Replace map[string]string }
	b, err := os.ReadFile(overlay)
	if err == nil {
		err = json.Unmarshal(b, &o)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	n := 0
	for _, d := range instrDirs {
		files, _ := filepath.Glob(filepath.Join(repo, d.dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			res, err := instrument(f, src, d.points)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			to := filepath.Join(out, strings.ReplaceAll(d.dir, "/", "_")+"_"+filepath.Base(f))
			if err := os.WriteFile(to, res, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			o.Replace[f] = to
			n++
		}
	}
	b, _ = json.Marshal(o)
	if err := os.WriteFile(overlay, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

var lastPoint int

func nextPoint() int {
	lastPoint++
	return lastPoint
}

type edit struct {
	at, del int
	text    string
}

func instrument(name string, src []byte, points string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := instrImports[path]
		if !ok {
			continue
		}
		text := strconv.Quote(to)
		if im.Name == nil {
			text = path[strings.LastIndex(path, "/")+1:] + " " + text
		}
		edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), text})
	}
	inserted := false
	if points != "" {
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				edits = append(edits, edit{off(s.Pos()), 0, fmt.Sprintf("zzvsched.%s(%d); ", points, nextPoint())})
				inserted = true
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			// Helpers that only compare or convert are called while sorting
			// and do not touch shared state; they are instrumented like
			// everything else, as that is sound.
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					// The body of a switch or select consists of clauses.
					for _, s := range n.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
		}
	}
	if inserted {
		edits = append(edits, edit{off(f.Name.End()), 0,
			"; import zzvsched " + strconv.Quote(modPath+"/internal/zzvsched")})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b strings.Builder
	at := 0
	for _, e := range edits {
		b.Write(src[at:e.at])
		b.WriteString(e.text)
		at = e.at + e.del
	}
	b.Write(src[at:])
	return []byte(b.String()), nil
}
