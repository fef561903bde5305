// Command instr writes instrumented copies of the repository's current sources
// and the overlay that makes the go command compile them in place of the
// originals. It decides nothing from what the code looks like: every statement
// of every function gets a preemption point, and every use of a standard
// synchronisation, time or randomness function is redirected to the simulator's.
//
//	instr -out DIR -overlay FILE pkgdir...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "verif.local/sim/"

// redirects: import path -> symbol -> replacement package alias and symbol.
type target struct{ pkg, sym string }

func all(pkg string, syms ...string) map[string]target {
	m := map[string]target{}
	for _, s := range syms {
		m[s] = target{pkg, s}
	}
	return m
}

var redirects = map[string]map[string]target{
	"sync": all("ssync", "Mutex", "RWMutex", "Once", "Pool", "WaitGroup", "Cond", "NewCond", "Map",
		"OnceFunc", "OnceValue", "OnceValues"),
	"sync/atomic": all("satomic", "Bool", "Pointer", "Value", "Int32", "Int64", "Uint32", "Uint64", "Uintptr",
		"LoadInt32", "LoadInt64", "LoadUint32", "LoadUint64", "StoreInt32", "StoreInt64", "StoreUint32", "StoreUint64",
		"AddInt32", "AddInt64", "AddUint32", "AddUint64", "SwapInt32", "SwapInt64", "SwapUint32", "SwapUint64",
		"CompareAndSwapInt32", "CompareAndSwapInt64", "CompareAndSwapUint32", "CompareAndSwapUint64"),
	"time": {
		"Now":   {"vsim", "TimeNow"},
		"Since": {"vsim", "TimeSince"},
		"Sleep": {"vsim", "TimeSleep"},
		"After": {"vsim", "TimeAfter"}, "AfterFunc": {"vsim", "TimerFunc"},
		"NewTimer": {"vsim", "NewTimer"}, "Timer": {"vsim", "Timer"},
	},
	"context": {"AfterFunc": {"vsim", "AfterFunc"}},
	"math/rand/v2": {
		"Uint32": {"vsim", "RandUint32"},
		"Uint64": {"vsim", "RandUint64"},
		"Int64":  {"vsim", "RandInt64"},
		"Int":    {"vsim", "RandInt"},
		"IntN":   {"vsim", "RandIntN"},
	},
	"math/rand": {
		"Uint32": {"vsim", "RandUint32"},
		"Uint64": {"vsim", "RandUint64"},
		"Int63":  {"vsim", "RandInt64"},
		"Int":    {"vsim", "RandInt"},
		"Intn":   {"vsim", "RandIntN"},
	},
	"os":                    {"CreateTemp": {"vsim", "CreateTemp"}},
	"syscall":               {"Flock": {"vsim", "Flock"}},
	"golang.org/x/sys/unix": {"Flock": {"vsim", "Flock"}},
	"crypto/rand":           {"Text": {"vsim", "RandText"}},
	"maps":                  {"Keys": {"vsim", "MapKeys"}, "All": {"vsim", "MapAll"}, "Values": {"vsim", "MapValues"}},
}

// keep names one symbol per package, so that an import every use of which was
// redirected stays used.
var keep = map[string]string{
	"sync":                  "Locker",
	"sync/atomic":           "Value",
	"time":                  "Duration",
	"context":               "Context",
	"os":                    "File",
	"syscall":               "Errno",
	"golang.org/x/sys/unix": "Errno",
	"math/rand/v2":          "Rand",
	"math/rand":             "Rand",
}

func main() {
	out := flag.String("out", "", "directory for instrumented sources")
	overlay := flag.String("overlay", "", "overlay file to write")
	sites := flag.String("sites", "", "site table to write")
	root := flag.String("root", "/repo", "repository root")
	flag.Parse()
	rep := map[string]string{}
	tbl := map[string]string{}
	for _, dir := range flag.Args() {
		ents, err := os.ReadDir(dir)
		if err != nil {
			fatal(err)
		}
		pk := load(dir, ents)
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			src := filepath.Join(dir, n)
			b, err := instrument(src, *root, tbl, pk)
			if err != nil {
				fatal(fmt.Errorf("%s: %w", src, err))
			}
			rel, _ := filepath.Rel("/", src)
			dst := filepath.Join(*out, rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fatal(err)
			}
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				fatal(err)
			}
			rep[src] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err := os.WriteFile(*overlay, j, 0o644); err != nil {
		fatal(err)
	}
	if *sites != "" {
		j, _ := json.MarshalIndent(tbl, "", " ")
		if err := os.WriteFile(*sites, j, 0o644); err != nil {
			fatal(err)
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}

type inst struct {
	fset *token.FileSet
	rel  string
	tbl  map[string]string
	need map[string]bool
	n    int
	sel  int
	fn   string
	info *types.Info
}

// pkg is one directory's parsed files and what is known of their types. Imports
// are not resolved: only a range over a map whose type this package spells out
// needs to be recognised.
type pkg struct {
	fset  *token.FileSet
	files map[string]*ast.File
	src   map[string][]byte
	errs  map[string]error
	info  *types.Info
}

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	name := path[strings.LastIndexByte(path, '/')+1:]
	p := types.NewPackage(path, name)
	p.MarkComplete()
	return p, nil
}

func load(dir string, ents []os.DirEntry) *pkg {
	pk := &pkg{fset: token.NewFileSet(), files: map[string]*ast.File{}, src: map[string][]byte{}, errs: map[string]error{},
		info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}}
	var check []*ast.File
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		path := filepath.Join(dir, n)
		b, err := os.ReadFile(path)
		if err != nil {
			pk.errs[path] = err
			continue
		}
		f, err := parser.ParseFile(pk.fset, path, b, parser.ParseComments)
		if err != nil {
			pk.errs[path] = err
			continue
		}
		pk.files[path], pk.src[path] = f, b
		if ok, err := build.Default.MatchFile(dir, n); err == nil && ok {
			check = append(check, f)
		}
	}
	conf := types.Config{Importer: noImports{}, Error: func(error) {}, FakeImportC: true}
	func() {
		defer func() { _ = recover() }()
		_, _ = conf.Check(dir, pk.fset, check, pk.info)
	}()
	return pk
}

func instrument(path, root string, tbl map[string]string, pk *pkg) ([]byte, error) {
	if err := pk.errs[path]; err != nil {
		return nil, err
	}
	srcBytes, f, fset := pk.src[path], pk.files[path], pk.fset
	rel, _ := filepath.Rel(root, path)
	in := &inst{fset: fset, rel: rel, tbl: tbl, need: map[string]bool{}, info: pk.info}

	// local name of each redirected import
	local := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if redirects[p] == nil {
			continue
		}
		name := p[strings.LastIndexByte(p, '/')+1:]
		if name == "v2" {
			name = "rand"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == "_" || name == "." {
			continue
		}
		local[name] = p
	}
	usedKeep := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := local[id.Name]
		if !ok {
			return true
		}
		t, ok := redirects[p][sel.Sel.Name]
		if !ok {
			return true
		}
		usedKeep[p] = id.Name
		in.need[t.pkg] = true
		id.Name = "verif_" + t.pkg
		sel.Sel.Name = t.sym
		return true
	})

	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		in.fn = fd.Name.Name
		if fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		in.block(fd.Body)
	}
	// package-level function literals
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		in.fn = "var"
		in.exprs(gd)
	}

	// Comments confuse the printer once statements are inserted; only
	// directives before the package clause and //go: lines matter.
	var header []string
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if c.Pos() < f.Package && (strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build")) {
				header = append(header, c.Text)
			}
		}
	}
	var embedDirectives bool
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:") && c.Pos() > f.Package {
				embedDirectives = true
			}
		}
	}
	if embedDirectives || usesC(f) {
		// A file with compiler directives is compiled as it is.
		return srcBytes, nil
	}
	f.Comments = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.File:
			x.Doc = nil
		}
		return true
	})

	var buf bytes.Buffer
	for _, h := range header {
		buf.WriteString(h + "\n")
	}
	if len(header) > 0 {
		buf.WriteString("\n")
	}
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	text := buf.String()
	// imports: right after the package clause
	var imp strings.Builder
	var needs []string
	for p := range in.need {
		needs = append(needs, p)
	}
	sort.Strings(needs)
	for _, p := range needs {
		fmt.Fprintf(&imp, "\nimport verif_%s %q\n", p, base+p)
	}
	idx := pkgClauseEnd(text)
	text = text[:idx] + imp.String() + text[idx:]
	var kp []string
	for p := range usedKeep {
		kp = append(kp, p)
	}
	sort.Strings(kp)
	for _, p := range kp {
		if sym, ok := keep[p]; ok {
			text += fmt.Sprintf("\nvar _ %s.%s\n", usedKeep[p], sym)
		} else if p == "maps" {
			text += fmt.Sprintf("\nvar _ = %s.Keys[map[int]int]\n", usedKeep[p])
		} else if p == "crypto/rand" {
			text += fmt.Sprintf("\nvar _ = %s.Reader\n", usedKeep[p])
		}
	}
	return []byte(text), nil
}

func usesC(f *ast.File) bool {
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return true
		}
	}
	return false
}

func pkgClauseEnd(text string) int {
	i := 0
	for _, line := range strings.SplitAfter(text, "\n") {
		i += len(line)
		if strings.HasPrefix(line, "package ") {
			return i
		}
	}
	return i
}

// yieldStmt is the preemption point placed before a statement. Its number is
// derived from the file, the function and the statement's ordinal in it.
func (in *inst) yieldStmt(pos token.Pos) ast.Stmt {
	in.n++
	h := fnv.New32a()
	fmt.Fprintf(h, "%s|%s|%d", in.rel, in.fn, in.n)
	id := h.Sum32() & 0x7fffffff
	p := in.fset.Position(pos)
	in.tbl[strconv.FormatUint(uint64(id), 10)] = fmt.Sprintf("%s:%d (%s)", in.rel, p.Line, in.fn)
	in.need["vsim"] = true
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("verif_vsim"), Sel: ast.NewIdent("Y")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.FormatUint(uint64(id), 10)}},
	}}
}

func (in *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = in.list(b.List)
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		pos := s.Pos()
		s = in.stmt(s)
		switch s.(type) {
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		}
		out = append(out, in.yieldStmt(pos), s)
	}
	return out
}

func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		in.exprs(x.Init)
		in.exprs(x.Cond)
		in.block(x.Body)
		if x.Else != nil {
			x.Else = in.stmt(x.Else)
		}
	case *ast.ForStmt:
		in.exprs(x.Init)
		in.exprs(x.Cond)
		in.exprs(x.Post)
		in.block(x.Body)
	case *ast.RangeStmt:
		in.exprs(x.X)
		in.block(x.Body)
		if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Chan); ok {
				x.X = in.vsim("ChanAll", x.X)
			}
			if _, ok := tv.Type.Underlying().(*types.Map); ok && x.Key != nil {
				// map order is one more decision of the run
				in.need["vsim"] = true
				sym := "MapKeys"
				if x.Value != nil {
					sym = "MapAll"
				}
				x.X = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verif_vsim"), Sel: ast.NewIdent(sym)}, Args: []ast.Expr{x.X}}
			}
		}
	case *ast.SwitchStmt:
		in.exprs(x.Init)
		in.exprs(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				in.exprs(e)
			}
			cc.Body = in.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		in.exprs(x.Init)
		in.exprs(x.Assign)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.list(cc.Body)
		}
	case *ast.SelectStmt:
		return in.selectStmt(x)
	case *ast.SendStmt:
		in.exprs(x.Chan)
		in.exprs(x.Value)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: in.vsim("Sender", x.Chan), Args: []ast.Expr{x.Value}}}
	case *ast.LabeledStmt:
		x.Stmt = in.stmt(x.Stmt)
	case *ast.GoStmt:
		return in.goStmt(x)
	default:
		in.exprs(s)
	}
	return s
}

// exprs instruments the function literals inside n.
func (in *inst) exprs(n ast.Node) {
	if n == nil {
		return
	}
	// typed nil guards
	switch x := n.(type) {
	case ast.Stmt:
		if x == nil {
			return
		}
	case ast.Expr:
		if x == nil {
			return
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			in.block(fl.Body)
			return false
		}
		if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			u.X = in.vsim("RecvC", u.X)
		}
		return true
	})
}

// vsim is a call of a simulator function.
func (in *inst) vsim(sym string, args ...ast.Expr) *ast.CallExpr {
	in.need["vsim"] = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verif_vsim"), Sel: ast.NewIdent(sym)}, Args: args}
}

// selectStmt turns a select into a switch over the communication the simulator
// chose. The last clause becomes the default one, so that a select that ends
// its function still does.
func (in *inst) selectStmt(x *ast.SelectStmt) ast.Stmt {
	def := "false"
	var lhs, rhs []ast.Expr
	args := []ast.Expr{nil}
	out := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		clause := &ast.CaseClause{}
		var pre []ast.Stmt
		in.sel++
		name := fmt.Sprintf("verif_c%d", in.sel)
		recv := func(e ast.Expr) {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			ch := e.(*ast.UnaryExpr).X
			in.exprs(ch)
			rhs = append(rhs, in.vsim("RecvCase", ch))
		}
		switch comm := cc.Comm.(type) {
		case nil:
			def = "true"
		case *ast.SendStmt:
			in.exprs(comm.Chan)
			in.exprs(comm.Value)
			rhs = append(rhs, &ast.CallExpr{Fun: in.vsim("SendCase", comm.Chan), Args: []ast.Expr{comm.Value}})
		case *ast.ExprStmt:
			recv(comm.X)
		case *ast.AssignStmt:
			recv(comm.Rhs[0])
			var vals []ast.Expr
			for k := range comm.Lhs {
				vals = append(vals, &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent([]string{"V", "OK"}[k])})
			}
			pre = append(pre, &ast.AssignStmt{Lhs: comm.Lhs, Tok: comm.Tok, Rhs: vals})
		}
		if cc.Comm != nil {
			lhs = append(lhs, ast.NewIdent(name))
			args = append(args, ast.NewIdent(name))
			clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
			n++
		}
		clause.Body = append(pre, in.list(cc.Body)...)
		out.Body.List = append(out.Body.List, clause)
	}
	if k := len(out.Body.List); k > 0 && def == "false" {
		out.Body.List[k-1].(*ast.CaseClause).List = nil
	}
	args[0] = ast.NewIdent(def)
	if len(lhs) > 0 {
		out.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	out.Tag = in.vsim("Select", args...)
	return out
}

// goStmt turns "go f(a, b)" into the simulator's spawn. Arguments are evaluated
// at the statement, as the language says.
func (in *inst) goStmt(g *ast.GoStmt) ast.Stmt {
	in.exprs(g.Call)
	in.need["vsim"] = true
	spawn := func(body ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{
			Fun:  &ast.SelectorExpr{X: ast.NewIdent("verif_vsim"), Sel: ast.NewIdent("GoStmt")},
			Args: []ast.Expr{body},
		}}
	}
	if fl, ok := g.Call.Fun.(*ast.FuncLit); ok && len(g.Call.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return spawn(fl)
		}
	}
	var pre []ast.Stmt
	args := make([]ast.Expr, len(g.Call.Args))
	for i, a := range g.Call.Args {
		switch e := a.(type) {
		case *ast.BasicLit, *ast.FuncLit:
			args[i] = a
			continue
		case *ast.Ident:
			if e.Name == "nil" || e.Name == "true" || e.Name == "false" {
				args[i] = a
				continue
			}
		}
		name := fmt.Sprintf("verif_a%d", i)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args[i] = ast.NewIdent(name)
	}
	call := &ast.CallExpr{Fun: g.Call.Fun, Args: args, Ellipsis: g.Call.Ellipsis}
	if g.Call.Ellipsis == token.NoPos {
		call.Ellipsis = token.NoPos
	}
	body := &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
	}
	return &ast.BlockStmt{List: append(pre, spawn(body))}
}
