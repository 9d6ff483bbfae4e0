// instr writes an instrumented copy of the code under test and the build overlay
// that puts it in place of the original, without touching the original.
//
//	instr -repo /repo -out DIR [-sync]
//
// DIR receives overlay.json, points.json (where each point is) and dict.json
// (constants of the code under test, which the workloads mix into their inputs).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

type point struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

type dict struct {
	Strings map[string][]string `json:"strings"` // by file
	Ints    []int64             `json:"ints"`
	Runes   []string            `json:"runes"`

	Durations []int64 `json:"durations"` // time.Duration constants
}

type edit struct {
	off  int
	end  int // == off for insertions
	text string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sync := flag.Bool("sync", false, "replace the sync primitives and announce goroutines started by a function literal")
	calls := flag.Bool("gocalls", false, "with -sync: announce the other goroutines as well")
	real := flag.Bool("realtime", false, "leave the clock alone")
	flag.Parse()
	goCalls, realTime = *calls, *real
	if err := run(*repo, *out, *sync); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

var goCalls, realTime bool

func run(repo, out string, sync bool) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	var files []string
	err := filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		n := d.Name()
		if d.IsDir() {
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(files)
	overlay := map[string]string{}
	points := []point{{File: "harness"}}
	dc := dict{Strings: map[string][]string{}}
	ints := map[int64]bool{}
	runes := map[string]bool{}
	for i, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, f)
		collect(af, rel, &dc, ints, runes)
		if af.Name.Name == "main" {
			continue
		}
		res := instrument(fset, af, src, rel, sync, &points)
		if res == nil {
			continue
		}
		dst := filepath.Join(out, fmt.Sprintf("f%03d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
		overlay[f] = dst
	}
	durations := map[int64]bool{}
	typed(files, ints, durations)
	for k := range durations {
		dc.Durations = append(dc.Durations, k)
	}
	sort.Slice(dc.Durations, func(a, b int) bool { return dc.Durations[a] < dc.Durations[b] })
	for k := range ints {
		dc.Ints = append(dc.Ints, k)
	}
	sort.Slice(dc.Ints, func(a, b int) bool { return dc.Ints[a] < dc.Ints[b] })
	for k := range runes {
		dc.Runes = append(dc.Runes, k)
	}
	sort.Strings(dc.Runes)
	for _, x := range []struct {
		name string
		v    any
	}{{"overlay.json", map[string]any{"Replace": overlay}}, {"points.json", points}, {"dict.json", dc}} {
		b, err := json.MarshalIndent(x.v, "", " ")
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(out, x.name), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func instrument(fset *token.FileSet, af *ast.File, src []byte, rel string, sync bool, points *[]point) []byte {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	used := false
	n := 0
	chans := chanNames(af)
	list := func(fn string, stmts []ast.Stmt) {
		for _, st := range stmts {
			if _, ok := st.(*ast.EmptyStmt); ok {
				continue
			}
			id := len(*points)
			*points = append(*points, point{rel, fset.Position(st.Pos()).Line, fn})
			edits = append(edits, edit{off(st.Pos()), off(st.Pos()), fmt.Sprintf("verifsched.Point(%d); ", id)})
			used = true
			if snd, ok := st.(*ast.SendStmt); ok && sync && calls(snd.Value) {
				a, b := off(snd.Value.Pos()), off(snd.Value.End())
				edits = append(edits, edit{a, a, "verifsched.LeaveV("}, edit{b, b, ")"})
			} else if sync && chanOp(st) {
				edits = append(edits, edit{off(st.Pos()), off(st.Pos()), "verifsched.Leave(); "})
			}
			if rs, ok := st.(*ast.RangeStmt); ok && sync && rangesChan(rs, chans) {
				e := off(rs.Body.Rbrace)
				edits = append(edits, edit{off(st.Pos()), off(st.Pos()), "verifsched.Leave(); "}, edit{e, e, "; verifsched.Leave(); "})
			}
			if g, ok := st.(*ast.GoStmt); ok && sync {
				if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
					n++
					tok := fmt.Sprintf("verifTok%d", n)
					edits = append(edits, edit{off(st.Pos()), off(st.Pos()), tok + " := verifsched.Spawn(); "})
					b := off(fl.Body.Lbrace) + 1
					edits = append(edits, edit{b, b, fmt.Sprintf(" defer verifsched.Exit(%s); verifsched.Enter(%s); ", tok, tok)})
				} else if goCalls {
					n++
					edits = append(edits, goCall(g, n, off, src)...)
				}
			}
		}
	}
	for _, d := range af.Decls {
		name := ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
		}
		ast.Inspect(d, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				for _, st := range x.List {
					switch st.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(name, x.List)
			case *ast.CaseClause:
				list(name, x.Body)
			case *ast.CommClause:
				list(name, x.Body)
			}
			return true
		})
	}
	for _, im := range af.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		t := map[string]string{"time": "vtime", "context": "vcontext"}[path]
		if realTime {
			t = ""
		}
		if path == "sync" && sync {
			t = "vsched"
		}
		if t == "" {
			continue
		}
		t = strconv.Quote("verifharness/" + t)
		if im.Name == nil {
			t = path + " " + t
		}
		edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), t})
	}
	if !used && len(edits) == 0 {
		return nil
	}
	if used {
		e := off(af.Name.End())
		edits = append(edits, edit{e, e, `; import verifsched "verifharness/vsched"`})
	}
	sort.SliceStable(edits, func(a, b int) bool { return edits[a].off < edits[b].off })
	var buf bytes.Buffer
	pos := 0
	for _, e := range edits {
		buf.Write(src[pos:e.off])
		buf.WriteString(e.text)
		pos = e.end
	}
	buf.Write(src[pos:])
	return buf.Bytes()
}

// chanOp: does the statement itself (not a block or function literal in it)
// operate on a channel in a way that may block?
func chanOp(st ast.Stmt) bool {
	if sel, ok := st.(*ast.SelectStmt); ok {
		for _, c := range sel.Body.List {
			if cc, ok := c.(*ast.CommClause); ok && cc.Comm == nil {
				return false // has a default clause
			}
		}
		return true
	}
	switch st.(type) {
	case *ast.LabeledStmt, *ast.BlockStmt:
		return false
	}
	found := false
	ast.Inspect(st, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(nd ast.Node) bool {
		switch nd.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		}
		return !found
	})
	return found
}

// chanNames: names that stand for channels somewhere in the file (a guess).
func chanNames(af *ast.File) map[string]bool {
	out := map[string]bool{}
	isChan := func(e ast.Expr) bool {
		if c, ok := e.(*ast.CallExpr); ok && len(c.Args) > 0 {
			if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "make" {
				e = c.Args[0]
			}
		}
		_, ok := e.(*ast.ChanType)
		return ok
	}
	ast.Inspect(af, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.AssignStmt:
			for i := range x.Lhs {
				if id, ok := x.Lhs[i].(*ast.Ident); ok && len(x.Lhs) == len(x.Rhs) && isChan(x.Rhs[i]) {
					out[id.Name] = true
				}
			}
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if (x.Type != nil && isChan(x.Type)) || (i < len(x.Values) && isChan(x.Values[i])) {
					out[id.Name] = true
				}
			}
		case *ast.Field:
			for _, id := range x.Names {
				if isChan(x.Type) {
					out[id.Name] = true
				}
			}
		}
		return true
	})
	return out
}

func rangesChan(rs *ast.RangeStmt, chans map[string]bool) bool {
	switch x := rs.X.(type) {
	case *ast.Ident:
		return chans[x.Name]
	case *ast.SelectorExpr:
		return chans[x.Sel.Name]
	}
	return false
}

// goCall turns "go X(a, b)" into
// "{ tok := Spawn(); f, a0, a1 := X, a, b; go func() { ...; f(a0, a1) }() }".
func goCall(g *ast.GoStmt, n int, off func(token.Pos) int, src []byte) []edit {
	c := g.Call
	tok := fmt.Sprintf("verifTok%d", n)
	lhs := "verifF"
	call := ""
	var edits []edit
	for i, a := range c.Args {
		v := fmt.Sprintf("verifA%d", i)
		lit := ""
		switch x := a.(type) {
		case *ast.BasicLit:
			lit = x.Value
		case *ast.Ident:
			if x.Name == "nil" {
				lit = "nil"
				edits = append(edits, edit{off(x.Pos()), off(x.End()), "0"})
			}
		}
		if i > 0 {
			call += ", "
		}
		if lit != "" {
			lhs += ", _"
			call += lit
		} else {
			lhs += ", " + v
			call += v
		}
	}
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	edits = append(edits, edit{off(g.Pos()), off(c.Fun.Pos()), "{ " + tok + " := verifsched.Spawn(); " + lhs + " := "})
	last := off(c.Lparen)
	if len(c.Args) > 0 {
		edits = append(edits, edit{last, last + 1, ", "})
		last = off(c.Args[len(c.Args)-1].End())
	}
	edits = append(edits, edit{last, off(c.Rparen) + 1,
		fmt.Sprintf("; go func() { defer verifsched.Exit(%s); verifsched.Enter(%s); verifF(%s) }() }", tok, tok, call)})
	return edits
}

func collect(af *ast.File, rel string, dc *dict, ints map[int64]bool, runes map[string]bool) {
	seen := map[string]bool{}
	ast.Inspect(af, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.ImportSpec, *ast.Field:
			if _, ok := x.(*ast.ImportSpec); ok {
				return false
			}
			return true
		case *ast.BinaryExpr:
			if v, ok := fold(x); ok {
				ints[v] = true
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, ok := fold(x); ok {
					ints[v] = true
				}
			case token.CHAR:
				if s, err := strconv.Unquote(x.Value); err == nil {
					runes[s] = true
				}
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil && s != "" && len(s) < 400 && utf8.ValidString(s) && !seen[s] {
					seen[s] = true
					dc.Strings[rel] = append(dc.Strings[rel], s)
				}
			}
		}
		return true
	})
}

// noImports stands in for packages that are not looked into.
type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
	if path == "math" {
		for n, v := range map[string]int64{"MaxInt8": math.MaxInt8, "MaxUint8": math.MaxUint8, "MaxInt16": math.MaxInt16, "MaxUint16": math.MaxUint16, "MaxInt32": math.MaxInt32, "MaxUint32": math.MaxUint32} {
			p.Scope().Insert(types.NewConst(token.NoPos, p, n, types.Typ[types.UntypedInt], constant.MakeInt64(v)))
		}
	}
	if path == "time" {
		d := types.NewNamed(types.NewTypeName(token.NoPos, p, "Duration", nil), types.Typ[types.Int64], nil)
		p.Scope().Insert(d.Obj())
		for n, v := range map[string]time.Duration{"Nanosecond": 1, "Microsecond": time.Microsecond, "Millisecond": time.Millisecond, "Second": time.Second, "Minute": time.Minute} {
			p.Scope().Insert(types.NewConst(token.NoPos, p, n, d, constant.MakeInt64(int64(v))))
		}
	}
	p.MarkComplete()
	return p, nil
}

// typed adds the values of all constant expressions that can be worked out
// without the imported packages, and the limits of the small integer types in
// use. Whatever goes wrong is ignored: this only steers inputs.
func typed(files []string, ints, durations map[int64]bool) {
	defer func() { recover() }()
	dirs := map[string][]*ast.File{}
	fset := token.NewFileSet()
	for _, f := range files {
		if af, err := parser.ParseFile(fset, f, nil, 0); err == nil {
			k := filepath.Dir(f) + "|" + af.Name.Name
			dirs[k] = append(dirs[k], af)
		}
	}
	small := map[types.BasicKind]int64{types.Int8: 1 << 7, types.Uint8: 1 << 8, types.Int16: 1 << 15, types.Uint16: 1 << 16}
	for _, afs := range dirs {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: noImports{}, Error: func(error) {}}
		conf.Check("p", fset, afs, info)
		for _, tv := range info.Types {
			if tv.Value != nil && tv.Value.Kind() == constant.Int {
				b, ok := tv.Type.Underlying().(*types.Basic)
				v, exact := constant.Int64Val(tv.Value)
				if n, named := tv.Type.(*types.Named); named && n.Obj().Name() == "Duration" {
					if exact && v >= int64(100*time.Microsecond) {
						durations[v] = true
					}
					continue
				}
				if ok && exact && b.Kind() != types.UntypedRune && b.Kind() != types.Int32 {
					ints[v] = true
				}
			}
			if b, ok := tv.Type.(*types.Basic); ok && tv.IsType() && small[b.Kind()] > 0 {
				ints[small[b.Kind()]] = true
			}
		}
	}
}

func fold(e ast.Expr) (int64, bool) {
	v := eval(e)
	if v == nil || v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

func eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			return constant.MakeFromLiteral(x.Value, x.Kind, 0)
		}
	case *ast.BinaryExpr:
		a, b := eval(x.X), eval(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(b)
			if !ok || s > 62 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(s))
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}
