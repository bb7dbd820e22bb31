// Command instr copies the non-test packages of a Go module to another directory, rewritten so that every
// goroutine, channel operation, lock, timer, file and socket goes through the controlled scheduler.
//
//	instr SRC DST
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/mc/astutil"
)

var shimmed = map[string]bool{}

type pkg struct {
	dir, path string
	files     []*ast.File
	names     []string
	imports   []string
	tpkg      *types.Package
	info      *types.Info
	done      bool
}

var (
	fset    = token.NewFileSet()
	modPath string
	pkgs    = map[string]*pkg{}
	std     types.Importer
)

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p, ok := pkgs[path]; ok {
		check(p)
		return p.tpkg, nil
	}
	return std.Import(path)
}

func main() {
	src, dst, shimDir := os.Args[1], os.Args[2], os.Args[3]
	filepath.Walk(shimDir, func(p string, i os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(shimDir, filepath.Dir(p))
			shimmed[filepath.ToSlash(rel)] = true
		}
		return nil
	})
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		fail("%v", err)
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mod)
	if m == nil {
		fail("no module line")
	}
	modPath = strings.Trim(string(m[1]), `"`)
	std = importer.ForCompiler(fset, "source", nil)
	ctx := build.Default
	ctx.CgoEnabled = false

	filepath.Walk(src, func(p string, i os.FileInfo, err error) error {
		if err != nil || !i.IsDir() {
			return err
		}
		b := filepath.Base(p)
		if p != src && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
			return filepath.SkipDir
		}
		bp, err := ctx.ImportDir(p, 0)
		if err != nil {
			if _, none := err.(*build.NoGoError); none {
				return nil
			}
			fail("%v", err)
		}
		if len(bp.GoFiles) == 0 {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		path := modPath
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		q := &pkg{dir: rel, path: path}
		for _, f := range bp.GoFiles {
			data, err := os.ReadFile(filepath.Join(p, f))
			if err != nil {
				fail("%v", err)
			}
			af, err := parser.ParseFile(fset, f, data, parser.SkipObjectResolution)
			if err != nil {
				fail("%v", err)
			}
			q.files = append(q.files, af)
			q.names = append(q.names, f)
		}
		pkgs[path] = q
		return nil
	})
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		check(pkgs[p])
	}
	for _, p := range paths {
		emit(pkgs[p], dst)
	}
	gomod := "module " + modPath + "\n\ngo 1.21\n"
	if err := os.WriteFile(filepath.Join(dst, "go.mod"), []byte(gomod), 0644); err != nil {
		fail("%v", err)
	}
}

func check(p *pkg) {
	if p.done {
		return
	}
	p.done = true
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{}, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: type error:", err) }}
	p.tpkg, _ = conf.Check(p.path, fset, p.files, p.info)
}

type rewriter struct {
	p     *pkg
	n     int
	file  string
	twoV  map[ast.Expr]bool
	pv    map[types.Object]bool
	made  map[*ast.BlockStmt]bool
	extra map[string]string // import path -> alias added to the file
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func sel(x, s string) ast.Expr {
	return &ast.SelectorExpr{X: id(x), Sel: id(s)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func vsCall(name string, a ...ast.Expr) *ast.CallExpr {
	return call(sel("__vs", name), a...)
}
func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func num(n int) ast.Expr    { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func define(l []ast.Expr, tok token.Token, r ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: r}
}

func (w *rewriter) fresh(s string) string { w.n++; return fmt.Sprintf("__%s%d", s, w.n) }

func (w *rewriter) pos(n ast.Node) string {
	p := fset.Position(n.Pos())
	d := w.p.dir
	if d == "." {
		return fmt.Sprintf("%s:%d", p.Filename, p.Line)
	}
	return fmt.Sprintf("%s/%s:%d", d, p.Filename, p.Line)
}

func (w *rewriter) isBuiltin(e ast.Expr, name string) bool {
	i, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, b := w.p.info.Uses[i].(*types.Builtin)
	return b
}

func (w *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.p.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := w.p.info.Uses[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func arrow(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

// selects: pass A.
func (w *rewriter) selects(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.SelectStmt)
		if !ok {
			return true
		}
		var pre []ast.Stmt
		sw := &ast.SwitchStmt{Switch: s.Select, Body: &ast.BlockStmt{Lbrace: s.Body.Lbrace, Rbrace: s.Body.Rbrace}}
		var cases []ast.Expr
		hasDef := false
		for _, st := range s.Body.List {
			cc := st.(*ast.CommClause)
			nc := &ast.CaseClause{Case: cc.Case, Colon: cc.Colon, Body: cc.Body}
			if cc.Comm == nil {
				hasDef = true
				sw.Body.List = append(sw.Body.List, nc)
				continue
			}
			v := w.fresh("c")
			var mk ast.Expr
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				mk = call(vsCall("SendCaseTo", cm.Chan), cm.Value)
			case *ast.ExprStmt:
				u, _ := arrow(cm.X)
				mk = vsCall("RecvCase", u.X)
			case *ast.AssignStmt:
				u, _ := arrow(cm.Rhs[0])
				mk = vsCall("RecvCase", u.X)
				rhs := []ast.Expr{sel(v, "V")}
				if len(cm.Lhs) == 2 {
					rhs = append(rhs, sel(v, "OK"))
				}
				nc.Body = append([]ast.Stmt{define(cm.Lhs, cm.Tok, rhs...)}, nc.Body...)
			}
			pre = append(pre, define([]ast.Expr{id(v)}, token.DEFINE, mk))
			nc.List = []ast.Expr{num(len(cases))}
			cases = append(cases, id(v))
			sw.Body.List = append(sw.Body.List, nc)
		}
		if !hasDef {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), str("select"))}}})
		}
		d := "false"
		if hasDef {
			d = "true"
		}
		sw.Tag = vsCall("Select", append([]ast.Expr{id(d)}, cases...)...)
		c.Replace(w.block(append(pre, sw)...))
		return true
	})
}

// labels moves the label of a rewritten loop or select inside the block that replaced it.
func (w *rewriter) labels(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		l, ok := c.Node().(*ast.LabeledStmt)
		if !ok {
			return true
		}
		b, ok := l.Stmt.(*ast.BlockStmt)
		if !ok || len(b.List) == 0 {
			return true
		}
		last := b.List[len(b.List)-1]
		switch last.(type) {
		case *ast.SwitchStmt, *ast.ForStmt:
			if !w.made[b] {
				return true
			}
			b.List[len(b.List)-1] = &ast.LabeledStmt{Label: l.Label, Colon: l.Colon, Stmt: last}
			c.Replace(b)
		}
		return true
	})
}

func (w *rewriter) block(l ...ast.Stmt) *ast.BlockStmt {
	b := &ast.BlockStmt{List: l}
	w.made[b] = true
	return b
}

func blank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

// rest: pass B, everything else.
func (w *rewriter) rest(f ast.Node) {
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := arrow(n.Rhs[0]); ok {
					w.twoV[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := arrow(n.Values[0]); ok {
					w.twoV[u] = true
				}
			}
		}
		return true
	}, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				if w.twoV[n] {
					c.Replace(vsCall("Recv2", n.X))
				} else {
					c.Replace(vsCall("Recv", n.X))
				}
			}
		case *ast.SendStmt:
			c.Replace(&ast.ExprStmt{X: call(vsCall("SendTo", n.Chan), n.Value)})
		case *ast.CallExpr:
			if w.isBuiltin(n.Fun, "close") {
				n.Fun = sel("__vs", "Close")
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				if pn, ok := w.p.info.Uses[x].(*types.PkgName); ok {
					if pn.Imported().Path() == "os" && n.Sel.Name == "Args" {
						c.Replace(call(&ast.SelectorExpr{X: x, Sel: id("ProcArgs")}))
						return true
					}
					if o := w.p.info.Uses[n.Sel]; o != nil && w.isPV(o) {
						c.Replace(&ast.ParenExpr{X: &ast.StarExpr{X: call(&ast.SelectorExpr{X: n, Sel: id("P")})}})
					}
				}
			}
		case *ast.Ident:
			if o := w.p.info.Uses[n]; o != nil && o.Pkg() == w.p.tpkg && w.isPV(o) {
				if ss, ok := c.Parent().(*ast.SelectorExpr); ok && ss.Sel == n {
					return true
				}
				c.Replace(&ast.ParenExpr{X: &ast.StarExpr{X: call(&ast.SelectorExpr{X: id(n.Name), Sel: id("P")})}})
			}
		case *ast.GoStmt:
			c.Replace(w.goStmt(n))
		case *ast.RangeStmt:
			t := w.typeOf(n.X)
			if t == nil {
				return true
			}
			switch t.Underlying().(type) {
			case *types.Chan:
				c.Replace(w.rangeChan(n))
			case *types.Map:
				if b := w.rangeMap(n); b != nil {
					c.Replace(b)
				}
			}
		}
		return true
	})
}

func (w *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	name := str("go@" + w.pos(g))
	cl := g.Call
	fun := ast.Unparen(cl.Fun)
	if _, ok := fun.(*ast.FuncLit); ok && len(cl.Args) == 0 {
		return &ast.ExprStmt{X: vsCall("Go", name, fun)}
	}
	var pre []ast.Stmt
	inline := false
	switch x := fun.(type) {
	case *ast.Ident:
		switch w.p.info.Uses[x].(type) {
		case *types.Func, *types.Builtin:
			inline = true
		}
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if _, ok := w.p.info.Uses[i].(*types.PkgName); ok {
				inline = true
			}
			if i.Name == "__vs" {
				inline = true
			}
		}
	}
	if !inline {
		v := w.fresh("f")
		pre = append(pre, define([]ast.Expr{id(v)}, token.DEFINE, cl.Fun))
		cl.Fun = id(v)
	}
	for i, a := range cl.Args {
		if tv, ok := w.p.info.Types[a]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			continue
		}
		v := w.fresh("a")
		pre = append(pre, define([]ast.Expr{id(v)}, token.DEFINE, a))
		cl.Args[i] = id(v)
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cl}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: vsCall("Go", name, lit)})}
}

func (w *rewriter) rangeChan(n *ast.RangeStmt) ast.Stmt {
	cv, ok := w.fresh("c"), w.fresh("ok")
	pre := []ast.Stmt{define([]ast.Expr{id(cv)}, token.DEFINE, n.X)}
	key := n.Key
	if blank(key) {
		key = id("_")
	} else if n.Tok == token.DEFINE {
		pre = append(pre, define([]ast.Expr{key}, token.DEFINE, vsCall("ChanZero", id(cv))))
	}
	body := []ast.Stmt{
		&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}},
		define([]ast.Expr{key, id(ok)}, token.ASSIGN, vsCall("Recv2", id(cv))),
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	n.Body.List = append(body, n.Body.List...)
	return w.block(append(pre, &ast.ForStmt{For: n.For, Body: n.Body})...)
}

func (w *rewriter) rangeMap(n *ast.RangeStmt) ast.Stmt {
	if blank(n.Key) && blank(n.Value) {
		return nil
	}
	it := w.fresh("it")
	pre := []ast.Stmt{define([]ast.Expr{id(it)}, token.DEFINE, vsCall("MapIter", n.X))}
	var l, r []ast.Expr
	if !blank(n.Key) {
		l, r = append(l, n.Key), append(r, sel(it, "K"))
	}
	if !blank(n.Value) {
		l, r = append(l, n.Value), append(r, sel(it, "V"))
	}
	if n.Tok == token.DEFINE {
		pre = append(pre, define(l, token.DEFINE, r...))
		var l2 []ast.Expr
		for _, e := range l {
			l2 = append(l2, id(e.(*ast.Ident).Name))
		}
		l = l2
	}
	n.Body.List = append([]ast.Stmt{define(l, token.ASSIGN, r...)}, n.Body.List...)
	return w.block(append(pre, &ast.ForStmt{For: n.For, Cond: call(sel(it, "Next")), Body: n.Body})...)
}

/* package-level variables: one instance per virtual process */

var pvs = map[types.Object]bool{}
var notPV = map[types.Object]bool{}

// isPV reports whether o is a package-level variable of an instrumented package that was rewritten.
func (w *rewriter) isPV(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return false
	}
	p, ours := pkgs[v.Pkg().Path()]
	if !ours {
		return false
	}
	decidePVs(p)
	return pvs[o]
}

var decided = map[*pkg]bool{}

func nameable(t types.Type, from *types.Package) bool {
	ok := true
	types.TypeString(t, func(p *types.Package) string { return "" })
	seen := map[types.Type]bool{}
	var walk func(types.Type)
	walk = func(t types.Type) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t := t.(type) {
		case *types.Named:
			if t.Obj().Pkg() != nil && t.Obj().Pkg() != from && !t.Obj().Exported() {
				ok = false
			}
			for i := 0; i < t.TypeArgs().Len(); i++ {
				walk(t.TypeArgs().At(i))
			}
		case *types.Pointer:
			walk(t.Elem())
		case *types.Slice:
			walk(t.Elem())
		case *types.Array:
			walk(t.Elem())
		case *types.Map:
			walk(t.Key())
			walk(t.Elem())
		case *types.Chan:
			walk(t.Elem())
		case *types.Signature:
			for i := 0; i < t.Params().Len(); i++ {
				walk(t.Params().At(i).Type())
			}
			for i := 0; i < t.Results().Len(); i++ {
				walk(t.Results().At(i).Type())
			}
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				walk(t.Field(i).Type())
			}
		}
	}
	walk(t)
	return ok
}

func decidePVs(p *pkg) {
	if decided[p] {
		return
	}
	decided[p] = true
	for _, f := range p.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Values) != 0 && len(v.Values) != len(v.Names) {
					continue
				}
				for _, n := range v.Names {
					o := p.info.Defs[n]
					if n.Name == "_" || o == nil || !nameable(o.Type(), p.tpkg) {
						continue
					}
					pvs[o] = true
				}
			}
		}
	}
}

func (w *rewriter) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == w.p.tpkg {
			return ""
		}
		path := mapImport(p.Path())
		a, ok := w.extra[path]
		if !ok {
			a = fmt.Sprintf("__imp%d", len(w.extra))
			w.extra[path] = a
		}
		return a
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		fail("type %s: %v", s, err)
	}
	clearPos(e)
	return e
}

func clearPos(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			x.NamePos = token.NoPos
		case *ast.StructType:
			x.Struct = token.NoPos
		case *ast.FieldList:
			x.Opening, x.Closing = token.NoPos, token.NoPos
		case *ast.ArrayType:
			x.Lbrack = token.NoPos
		case *ast.MapType:
			x.Map = token.NoPos
		case *ast.StarExpr:
			x.Star = token.NoPos
		case *ast.FuncType:
			x.Func = token.NoPos
		case *ast.InterfaceType:
			x.Interface = token.NoPos
		case *ast.ChanType:
			x.Begin, x.Arrow = token.NoPos, token.NoPos
		case *ast.BasicLit:
			x.ValuePos = token.NoPos
		case *ast.IndexExpr:
			x.Lbrack, x.Rbrack = token.NoPos, token.NoPos
		case *ast.Ellipsis:
			x.Ellipsis = token.NoPos
		}
		return true
	})
}

// globals rewrites package-level variable declarations, after all other passes.
func (w *rewriter) globals(f *ast.File) {
	decidePVs(w.p)
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		var out []ast.Spec
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			all := true
			for _, n := range v.Names {
				all = all && pvs[w.p.info.Defs[n]]
			}
			if !all {
				out = append(out, v)
				continue
			}
			for i, n := range v.Names {
				t := w.typeExpr(w.p.info.Defs[n].Type())
				var body []ast.Stmt
				if len(v.Values) > 0 {
					body = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{v.Values[i]}}}
				} else {
					body = []ast.Stmt{&ast.ReturnStmt{}}
				}
				lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("__z")}, Type: t}}}}, Body: &ast.BlockStmt{List: body}}
				out = append(out, &ast.ValueSpec{Names: []*ast.Ident{id(n.Name)}, Values: []ast.Expr{vsCall("NewGlobal", lit)}})
			}
		}
		g.Specs = out
		if len(out) > 1 && !g.Lparen.IsValid() {
			g.Lparen, g.Rparen = g.TokPos, g.TokPos
		}
	}
}

func mapImport(path string) string {
	if shimmed[path] {
		return "verif/mc/shim/" + path
	}
	return path
}

func stripComments(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func emit(p *pkg, dst string) {
	dir := filepath.Join(dst, p.dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		fail("%v", err)
	}
	inits := 0
	isMain := p.tpkg.Name() == "main"
	hasMain := false
	for i, f := range p.files {
		w := &rewriter{p: p, file: p.names[i], twoV: map[ast.Expr]bool{}, made: map[*ast.BlockStmt]bool{}, extra: map[string]string{}, n: i * 100000}
		stripComments(f)
		w.selects(f)
		w.rest(f)
		w.labels(f)
		w.globals(f)
		var regs []ast.Stmt
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				if fd.Name.Name == "init" {
					inits++
					name := fmt.Sprintf("__userInit%d", inits)
					fd.Name = id(name)
					regs = append(regs, &ast.ExprStmt{X: vsCall("RegisterInit", id(name))})
				}
				if fd.Name.Name == "main" && isMain {
					hasMain = true
				}
			}
		}
		if len(regs) > 0 {
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: regs}})
		}
		if isMain {
			f.Name = id("fluclient")
		}
		// imports
		var decls []ast.Decl
		add := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1}
		add.Specs = append(add.Specs, &ast.ImportSpec{Name: id("__vs"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/mc/vs")}})
		for _, path := range sortedKeys(w.extra) {
			add.Specs = append(add.Specs, &ast.ImportSpec{Name: id(w.extra[path]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
		}
		decls = append(decls, add)
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				var keep []ast.Spec
				for _, s := range g.Specs {
					is := s.(*ast.ImportSpec)
					path, _ := strconv.Unquote(is.Path.Value)
					if is.Name != nil && is.Name.Name == "_" {
						continue // imported for side effects only (e.g. net/http/pprof)
					}
					is.Path.Value = strconv.Quote(mapImport(path))
					is.EndPos = token.NoPos
					keep = append(keep, is)
				}
				if len(keep) == 0 {
					continue
				}
				g.Specs = keep
			}
			decls = append(decls, d)
		}
		f.Decls = decls
		var b bytes.Buffer
		cfg := printer.Config{Mode: printer.SourcePos | printer.UseSpaces, Tabwidth: 4}
		if err := cfg.Fprint(&b, fset, f); err != nil {
			fail("printing %s: %v", p.names[i], err)
		}
		b.WriteString("\nvar _ = __vs.Now\n")
		if err := os.WriteFile(filepath.Join(dir, p.names[i]), b.Bytes(), 0644); err != nil {
			fail("%v", err)
		}
	}
	if hasMain {
		os.WriteFile(filepath.Join(dir, "zz_verif_main.go"), []byte("package fluclient\n\n// VerifMain runs the program's main function.\nfunc VerifMain() { main() }\n"), 0644)
	}
}

func sortedKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
