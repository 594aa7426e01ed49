// mcrewrite rewrites the packages of the module under test so that everything
// that synchronizes, starts goroutines or talks to other processes goes through
// the controlled scheduler mc. It prints an overlay for go build.
//
// usage: mcrewrite REPO OUTDIR HARNESSDIR SHARED   (SHARED: 1 to report accesses of shared memory too)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type Pkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles, EmbedFiles           []string
	Standard                      bool
	Module                        *struct{ Path string }
}

func die(a ...interface{}) { fmt.Fprintln(os.Stderr, a...); os.Exit(1) }
func check(err error) {
	if err != nil {
		die(err)
	}
}

// What is replaced, selector by selector.
var shims = map[string]map[string]string{
	"os": {"File": "mos", "Pipe": "mos", "Open": "mos", "OpenFile": "mos", "Create": "mos", "NewFile": "mos", "Stdin": "mos", "Stdout": "mos", "Stderr": "mos",
		"StartProcess": "mos", "ProcAttr": "mos", "FindProcess": "mos", "Exit": "mos", "ReadDir": "mos", "Stat": "mos", "Lstat": "mos"},
	"golang.org/x/sys/unix": {"Wait4": "mos", "Kill": "mos", "IoctlGetInt": "mos", "IoctlSetPointerInt": "mos", "IoctlSetInt": "mos", "Setpgid": "mos", "Getpgid": "mos", "Umask": "mos"},
	"syscall":               {"Wait4": "mos", "Kill": "mos", "Setpgid": "mos", "Getpgid": "mos", "Umask": "mos"},
	"os/signal":             {"Notify": "mos", "Ignore": "mos", "Reset": "mos", "Stop": "mos"},
	"runtime":               {"SetFinalizer": "mc", "Gosched": "mc", "GC": "mc"},
	"github.com/michaelmacinnis/adapted": {"TempFifo": "mos"},
	"time":                  {"Sleep": "mc", "After": "mc"},
}

type edit struct {
	pos, end int
	text     string
	order    int
}

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	src    []byte
	edits  []edit
	base   int
	uses   map[string]bool
	shared bool
	writes map[ast.Expr]bool
	skip   map[ast.Expr]bool
	n      int
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) replace(p, e token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(e), s, len(r.edits)})
}
func (r *rewriter) insert(p token.Pos, s string) { r.replace(p, p, s) }
func (r *rewriter) mc(s string) string           { r.uses["mc"] = true; return "zzmc." + s }

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (r *rewriter) mapType(e ast.Expr) (*types.Map, bool) {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil, false
	}
	m, ok := t.Underlying().(*types.Map)
	return m, ok
}
func (r *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}
func (r *rewriter) recv(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// addr reports whether e is a variable or field whose accesses other tasks may race with.
func (r *rewriter) addr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		s, ok := r.info.Selections[x]
		if ok {
			if s.Kind() != types.FieldVal {
				return false
			}
			// The base has to be addressable: a pointer or itself a variable.
			t := r.info.TypeOf(x.X)
			if _, ok := t.Underlying().(*types.Pointer); !ok && !s.Indirect() {
				if !r.addressable(x.X) {
					return false
				}
			}
		} else {
			v, ok := r.info.Uses[x.Sel].(*types.Var)
			if !ok || v.Pkg() == nil || !strings.HasPrefix(v.Pkg().Path(), module) {
				return false
			}
		}
		return r.plain(r.info.TypeOf(e))
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		if !ok || v.IsField() || v.Pkg() != r.pkg || v.Parent() != r.pkg.Scope() {
			return false
		}
		return r.plain(v.Type())
	case *ast.StarExpr:
		return r.plain(r.info.TypeOf(e))
	}
	return false
}
func (r *rewriter) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		_, ok := r.info.Uses[x].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		s, ok := r.info.Selections[x]
		if !ok {
			return true
		}
		if _, p := r.info.TypeOf(x.X).Underlying().(*types.Pointer); p {
			return true
		}
		return s.Kind() == types.FieldVal && r.addressable(x.X)
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

// plain: not a lock, channel-free memory.
func (r *rewriter) plain(t types.Type) bool {
	if t == nil {
		return false
	}
	s := t.String()
	if strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "*sync.") {
		return false
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		_ = st
		return false
	}
	return true
}

func (r *rewriter) file(f *ast.File) {
	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = path
		switch path {
		case "sync":
			r.replaceImport(im, name, "msync")
		case "sync/atomic":
			r.replaceImport(im, name, "matomic")
		}
	}
	keep := map[string]bool{}
	commRecv := map[ast.Node]bool{}
	assignRecv := map[ast.Node]bool{}
	if r.shared {
		r.markWrites(f)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := r.info.Uses[id].(*types.PkgName)
			if !ok {
				break
			}
			if to, ok := shims[pn.Imported().Path()][x.Sel.Name]; ok {
				r.uses[to] = true
				r.replace(id.Pos(), id.End(), "zz"+to)
				keep[id.Name] = true
			}
		case *ast.SendStmt:
			if commRecv[n] {
				break
			}
			r.insert(x.Chan.Pos(), r.mc("SendTo("))
			r.replace(x.Arrow, x.Arrow+2, ")(")
			r.insert(x.End(), ")")
		case *ast.UnaryExpr:
			if x.Op != token.ARROW || commRecv[n] {
				break
			}
			fn := "Recv("
			if assignRecv[n] {
				fn = "Recv2("
			}
			r.replace(x.OpPos, x.OpPos+2, r.mc(fn))
			r.insert(x.End(), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := r.recv(x.Rhs[0]); u != nil {
					assignRecv[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := r.recv(x.Values[0]); u != nil {
					assignRecv[u] = true
				}
			}
		case *ast.CallExpr:
			for _, b := range []string{"close", "len", "cap"} {
				if r.builtin(x.Fun, b) && r.isChan(x.Args[0]) {
					r.replace(x.Fun.Pos(), x.Fun.End(), r.mc(strings.Title(b)))
				}
			}
		case *ast.GoStmt:
			c := x.Call
			fun := c.Fun
			r.replace(x.Go, x.Go+2, r.mc("Go(func() func() {"))
			if _, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
				r.insert(fun.Pos(), "zf := ")
				r.replace(c.Lparen, c.Rparen+1, "; return zf }())")
				break
			}
			r.n++
			names := []string{fmt.Sprintf("zf%d", r.n)}
			args := []string{}
			for i := range c.Args {
				names = append(names, fmt.Sprintf("z%d_%d", r.n, i))
				args = append(args, fmt.Sprintf("z%d_%d", r.n, i))
			}
			r.insert(fun.Pos(), strings.Join(names, ", ")+" := ")
			if len(c.Args) > 0 {
				r.replace(c.Lparen, c.Lparen+1, ", ")
			} else {
				r.replace(c.Lparen, c.Lparen+1, "")
			}
			dots := ""
			if c.Ellipsis.IsValid() {
				dots = "..."
				r.replace(c.Ellipsis, c.Ellipsis+3, "")
			}
			r.replace(c.Rparen, c.Rparen+1, fmt.Sprintf("; return func() { %s(%s%s) } }())", names[0], strings.Join(args, ", "), dots))
		case *ast.RangeStmt:
			if r.isChan(x.X) {
				die("range over a channel is not supported", r.fset.Position(x.Pos()))
			}
			if r.isMap(x.X) {
				r.rangeMap(x)
			}
		case *ast.SelectStmt:
			r.selectStmt(x, commRecv)
		case *ast.IndexExpr:
			if m, ok := r.mapType(x.X); ok {
				if _, ok := m.Key().Underlying().(*types.Pointer); ok {
					r.insert(x.Index.Pos(), r.mc("Key("))
					r.insert(x.Index.End(), ")")
				}
			}
		}
		if r.shared {
			r.access(n)
		}
		return true
	})
	// Imports that may have become unused.
	tail := ""
	names := []string{}
	for k := range keep {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		switch imports[k] {
		case "os":
			tail += "var _ = " + k + ".Getpid\n"
		case "os/signal":
			tail += "var _ = " + k + ".NotifyContext\n"
		case "runtime":
			tail += "var _ = " + k + ".NumCPU\n"
		case "github.com/michaelmacinnis/adapted":
			tail += "var _ = " + k + ".Match\n"
		case "time":
			tail += "var _ = " + k + ".Now\n"
		default:
			tail += "var _ = " + k + ".Getpid\n"
		}
	}
	head := ""
	us := []string{}
	for k := range r.uses {
		us = append(us, k)
	}
	sort.Strings(us)
	for _, k := range us {
		head += fmt.Sprintf("; import zz%s %q", k, module+"/internal/zzverif/"+k)
	}
	r.insert(f.Name.End(), head)
	r.edits = append(r.edits, edit{len(r.src), len(r.src), "\n" + tail, len(r.edits)})
}

func (r *rewriter) replaceImport(im *ast.ImportSpec, name, to string) {
	r.replace(im.Pos(), im.End(), fmt.Sprintf("%s %q", name, module+"/internal/zzverif/"+to))
}

// The order in which a map is walked is one Go leaves open: walk it in the order of its keys, or of their insertion.
func (r *rewriter) rangeMap(x *ast.RangeStmt) {
	// for k, v := range m { body } -> for _, zk := range mc.Keys(m) { k := zk; v, zok := m[zk]; if !zok { continue }; body }
	r.n++
	zk, zm := fmt.Sprintf("zk%d", r.n), fmt.Sprintf("zm%d", r.n)
	mapText := string(r.src[r.off(x.X.Pos()):r.off(x.X.End())])
	_ = mapText
	tok := ":="
	if x.Tok == token.ASSIGN {
		tok = "="
	}
	body := ""
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return string(r.src[r.off(e.Pos()):r.off(e.End())])
	}
	k, v := name(x.Key), name(x.Value)
	zv := fmt.Sprintf("zv%d", r.n)
	body += fmt.Sprintf("%s, zok%d := %s[%s]; if !zok%d { continue }; _ = %s; ", zv, r.n, zm, zk, r.n, zv)
	if k != "_" {
		body += fmt.Sprintf("%s %s %s; ", k, tok, zk)
	}
	if v != "_" {
		body += fmt.Sprintf("%s %s %s; ", v, tok, zv)
	}
	r.replace(x.For, x.X.Pos(), fmt.Sprintf("for %s, %s := ", "zks"+zk, zm)+r.mc("Keys("))
	_ = mapText
	r.insert(x.X.End(), fmt.Sprintf("); len(%s) > 0; %s = %s[1:] ", "zks"+zk, "zks"+zk, "zks"+zk))
	r.insert(x.Body.Lbrace+1, fmt.Sprintf(" %s := %s[0]; ", zk, "zks"+zk)+body)
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, comm map[ast.Node]bool) {
	r.n++
	z := fmt.Sprintf("zs%d", r.n)
	text := func(e ast.Node) string { return string(r.src[r.off(e.Pos()):r.off(e.End())]) }
	var cases []string
	def := "false"
	i := 0
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		switch y := c.Comm.(type) {
		case nil:
			def = "true"
			r.replace(c.Case, c.Case+token.Pos(len("default")), "default")
			continue
		case *ast.SendStmt:
			comm[y] = true
			cases = append(cases, r.mc("CaseSendTo(")+text(y.Chan)+")("+text(y.Value)+")")
			r.replace(c.Case, c.Colon, fmt.Sprintf("case %d", i))
		case *ast.ExprStmt:
			u := r.recv(y.X)
			comm[u] = true
			cases = append(cases, r.mc("CaseRecv(")+text(u.X)+")")
			r.replace(c.Case, c.Colon, fmt.Sprintf("case %d", i))
		case *ast.AssignStmt:
			u := r.recv(y.Rhs[0])
			comm[u] = true
			cases = append(cases, r.mc("CaseRecv(")+text(u.X)+")")
			r.replace(c.Case, c.Colon, fmt.Sprintf("case %d", i))
			lhs := text(y.Lhs[0])
			fn := "SelVal("
			if len(y.Lhs) == 2 {
				lhs += ", " + text(y.Lhs[1])
				fn = "SelVal2("
			}
			r.insert(c.Colon+1, " "+lhs+" "+y.Tok.String()+" "+r.mc(fn)+text(u.X)+", "+z+"); ")
		}
		i++
	}
	r.replace(x.Select, x.Select+token.Pos(len("select")), fmt.Sprintf("switch %s := ", z)+r.mc("Select(")+strings.Join(append([]string{def}, cases...), ", ")+"); "+z+".I ")
}

// ---- Accesses of shared memory.
func (r *rewriter) markWrites(f *ast.File) {
	r.writes, r.skip = map[ast.Expr]bool{}, map[ast.Expr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok && r.isMap(ix.X) {
					r.writes[ix.X] = true
				} else {
					r.writes[l] = true
				}
			}
		case *ast.IncDecStmt:
			r.writes[x.X] = true
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				r.skip[x.X] = true
			}
		case *ast.CallExpr:
			if r.builtin(x.Fun, "delete") {
				r.writes[x.Args[0]] = true
			}
		case *ast.RangeStmt:
			if x.Key != nil {
				r.skip[x.Key] = true
			}
			if x.Value != nil {
				r.skip[x.Value] = true
			}
			r.skip[x.X] = true
		case *ast.SelectStmt:
			for _, s := range x.Body.List {
				if c := s.(*ast.CommClause).Comm; c != nil {
					ast.Inspect(c, func(m ast.Node) bool {
						if e, ok := m.(ast.Expr); ok {
							r.skip[e] = true
						}
						return true
					})
				}
			}
		}
		return true
	})
}

func (r *rewriter) access(n ast.Node) {
	e, ok := n.(ast.Expr)
	if !ok || r.skip[e] || !r.addr(e) {
		return
	}
	tv, ok := r.info.Types[e]
	if ok && !tv.Addressable() {
		return
	}
	if _, ok := e.(*ast.StarExpr); ok && !tv.IsValue() {
		return
	}
	mapType := r.isMap(e)
	w := r.writes[e]
	switch {
	case mapType && w:
		// Either the map variable is assigned or an element is: report both as a write.
		r.insert(e.Pos(), "(*"+r.mc("Wr(&"))
		r.insert(e.End(), "))")
	case w:
		r.insert(e.Pos(), "(*"+r.mc("Wr(&"))
		r.insert(e.End(), "))")
	default:
		r.insert(e.Pos(), "(*"+r.mc("Rd(&"))
		r.insert(e.End(), "))")
	}
}

func (r *rewriter) render() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].pos != r.edits[j].pos {
			return r.edits[i].pos < r.edits[j].pos
		}
		// At one place: what closes (an insertion made for something that ends here) first.
		ci, cj := r.edits[i].closing(), r.edits[j].closing()
		if ci != cj {
			return ci
		}
		if ci {
			return r.edits[i].order > r.edits[j].order // inner ones close first
		}
		zi, zj := r.edits[i].pos == r.edits[i].end, r.edits[j].pos == r.edits[j].end
		if zi != zj {
			return zi
		}
		return r.edits[i].order < r.edits[j].order
	})
	var b bytes.Buffer
	at := 0
	for _, e := range r.edits {
		if e.pos < at {
			die("overlapping edits", e.pos, e.text)
		}
		b.Write(r.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(r.src[at:])
	return b.Bytes()
}
func (e edit) closing() bool { return e.pos == e.end && strings.HasPrefix(e.text, ")") }

var module string

func main() {
	repo, out, harness := os.Args[1], os.Args[2], os.Args[3]
	shared := os.Args[4] == "1"
	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "./internal/engine", "./internal/reader", "./internal/system/...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	check(err)
	dec := json.NewDecoder(bytes.NewReader(data))
	var pkgs []*Pkg
	exports := map[string]string{}
	for {
		p := &Pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			check(err)
		}
		pkgs = append(pkgs, p)
		exports[p.ImportPath] = p.Export
	}
	for _, p := range pkgs {
		if p.Module != nil && strings.HasSuffix(p.ImportPath, "/internal/engine") {
			module = p.Module.Path
		}
	}
	if module == "" {
		die("no module")
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	rep := map[string]string{}
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != module {
			continue
		}
		var files []*ast.File
		var srcs [][]byte
		for _, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(path)
			check(err)
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			check(err)
			files = append(files, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.21"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		check(err)
		for i, f := range files {
			r := &rewriter{fset: fset, info: info, pkg: tp, src: srcs[i], uses: map[string]bool{}, shared: shared}
			r.file(f)
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, module+"/"), "/", "_")+"_"+p.GoFiles[i])
			check(os.WriteFile(dst, r.render(), 0o644))
			rep[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
		// Package variables: put back between executions.
		var b bytes.Buffer
		names := []string{}
		for _, n := range tp.Scope().Names() {
			if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" {
				if strings.Contains(v.Type().String(), "func(") && !strings.Contains(v.Type().String(), "chan func(") {
					if _, isf := v.Type().Underlying().(*types.Signature); isf {
						continue
					}
				}
				names = append(names, n)
			}
		}
		if len(names) > 0 {
			fmt.Fprintf(&b, "package %s\n\nimport zzmc %q\n\nfunc init() {\n", tp.Name(), module+"/internal/zzverif/mc")
			for _, n := range names {
				fmt.Fprintf(&b, "\tzzmc.Global(%q, &%s)\n", tp.Name()+"."+n, n)
			}
			fmt.Fprintf(&b, "}\n")
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, module+"/"), "/", "_")+"_zzglobals.go")
			check(os.WriteFile(dst, b.Bytes(), 0o644))
			rep[filepath.Join(p.Dir, "zzglobals.go")] = dst
		}
	}
	for _, d := range []string{"mc", "mos", "msync", "matomic", "mcrun", "mcself", "mccache"} {
		fs, _ := filepath.Glob(filepath.Join(harness, d, "*.go"))
		for _, f := range fs {
			rep[filepath.Join(repo, "internal/zzverif", d, filepath.Base(f))] = f
		}
	}
	j, err := json.Marshal(map[string]interface{}{"Replace": rep})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}
