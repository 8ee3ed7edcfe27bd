// Command instr copies a Go module and turns the copy into simulated code: a
// preemption point before every statement, imports of nondeterministic standard
// packages redirected to their stand-ins, and go statements, channel operations
// and map iteration routed through the simulator runtime. Edits are made on the
// source text, so everything else in a file stays as it is.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var (
	src     = flag.String("src", "", "module to copy")
	dst     = flag.String("dst", "", "where to")
	light   = flag.Bool("light", false, "only redirect imports and instrument function entries")
	tests   = flag.Bool("tests", false, "copy test files too (not instrumented)")
	base    = flag.Int("base", 1, "first site number")
	mapFile = flag.String("sites", "", "where to write the site table")
	modName = flag.String("mod", "", "module path for a tree without go.mod")
	knob    = flag.String("knob", "", "OLD=>NEW literal source replacements, one per ;;")
)

var redirect = map[string]struct{ path, name string }{
	"sync":         {"verif.local/simrt/simsync", "sync"},
	"time":         {"verif.local/simrt/simtime", "time"},
	"math/rand":    {"verif.local/simrt/simrand", "rand"},
	"math/rand/v2": {"verif.local/simrt/simrandv2", "rand"},
	"os":           {"verif.local/simrt/simos", "os"},
	"io/ioutil":    {"verif.local/simrt/simioutil", "ioutil"},
}

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

type listPkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct{ Path, Dir, GoVersion string }
	Error                   *struct{ Err string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

var siteNo int
var siteTable []string

func main() {
	flag.Parse()
	siteNo = *base
	copyTree(*src, *dst)
	if _, err := os.Stat(filepath.Join(*dst, "go.mod")); err != nil && *modName != "" {
		if err := os.WriteFile(filepath.Join(*dst, "go.mod"), []byte("module "+*modName+"\n\ngo 1.15\n"), 0o644); err != nil {
			die("%v", err)
		}
	}
	pkgs := goList(*dst)
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	type job struct {
		path string
		text []byte
	}
	var jobs []job
	for _, p := range pkgs {
		if p.Standard || p.Module == nil || !strings.HasPrefix(p.Dir, *dst) || len(p.GoFiles) == 0 {
			continue
		}
		var files []*ast.File
		srcs := map[*ast.File][]byte{}
		names := map[*ast.File]string{}
		for _, gf := range p.GoFiles {
			fn := filepath.Join(p.Dir, gf)
			text, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			for _, k := range strings.Split(*knob, ";;") {
				if o, n, ok := strings.Cut(k, "=>"); ok {
					text = bytes.ReplaceAll(text, []byte(o), []byte(n))
				}
			}
			f, err := parser.ParseFile(fset, fn, text, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			srcs[f] = text
			names[f] = fn
		}
		gv := "go1.15"
		if p.Module.GoVersion != "" {
			gv = "go" + p.Module.GoVersion
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: gv, Error: func(err error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		for _, f := range files {
			rel, _ := filepath.Rel(*dst, names[f])
			in := &instrumenter{fset: fset, info: info, src: srcs[f], file: f, rel: rel}
			jobs = append(jobs, job{names[f], in.run()})
		}
	}
	for _, j := range jobs {
		if err := os.WriteFile(j.path, j.text, 0o644); err != nil {
			die("%v", err)
		}
	}
	fixGoMod(*dst)
	if *mapFile != "" {
		f, err := os.OpenFile(*mapFile, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		if err != nil {
			die("%v", err)
		}
		for _, s := range siteTable {
			fmt.Fprintln(f, s)
		}
		f.Close()
	}
	fmt.Println(siteNo)
}

// fixGoMod lifts the language version far enough for the helpers' generics
// (below the version that changed loop variables) and requires the runtime.
func fixGoMod(dir string) {
	fn := filepath.Join(dir, "go.mod")
	b, err := os.ReadFile(fn)
	if err != nil {
		die("%v", err)
	}
	re := regexp.MustCompile(`(?m)^go\s+1\.(\d+)(\.\d+)?\s*$`)
	m := re.FindSubmatch(b)
	if m == nil {
		b = append(b, []byte("\ngo 1.21\n")...)
	} else if n, _ := strconv.Atoi(string(m[1])); n < 21 {
		b = re.ReplaceAll(b, []byte("go 1.21"))
	}
	b = append(b, []byte("\nrequire verif.local/simrt v0.0.0\n")...)
	if err := os.WriteFile(fn, b, 0o644); err != nil {
		die("%v", err)
	}
}

func copyTree(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		if strings.HasSuffix(p, "_test.go") && !*tests {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
	if err != nil {
		die("copy: %v", err)
	}
}

func goList(dir string) []listPkg {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Error", "./...")
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, errb.String())
	}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
	}
	return pkgs
}

type instrumenter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *ast.File
	rel   string
	edits []edit
	used  bool
	tmp   int
}

func (in *instrumenter) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instrumenter) insert(p token.Pos, text string) { in.replace(p, p, text) }

func (in *instrumenter) replace(from, to token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(from), in.off(to), text, len(in.edits)})
}

func (in *instrumenter) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *instrumenter) site(p token.Pos) string {
	pos := in.fset.Position(p)
	s := siteNo
	siteNo++
	siteTable = append(siteTable, fmt.Sprintf("%d\t%s:%d", s, in.rel, pos.Line))
	in.used = true
	return fmt.Sprintf("simrt_.Y(%d);", s)
}

func (in *instrumenter) run() []byte {
	f := in.file
	// imports
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		r, ok := redirect[path]
		if !ok {
			continue
		}
		if is.Name != nil {
			in.replace(is.Path.Pos(), is.Path.End(), strconv.Quote(r.path))
		} else {
			in.replace(is.Path.Pos(), is.Path.End(), r.name+" "+strconv.Quote(r.path))
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				in.body(d.Body)
			}
		case *ast.GenDecl:
			ast.Inspect(d, in.visit)
		}
	}
	if in.used {
		in.insert(f.Name.End(), "; import simrt_ \"verif.local/simrt\"")
	}
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range in.edits {
		if e.off < at {
			die("%s: overlapping edits at offset %d", in.rel, e.off)
		}
		out.Write(in.src[at:e.off])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(in.src[at:])
	return out.Bytes()
}

// body instruments a function body.
func (in *instrumenter) body(b *ast.BlockStmt) {
	in.insert(b.Lbrace+1, in.site(b.Lbrace))
	in.stmts(b.List)
}

func (in *instrumenter) stmts(list []ast.Stmt) {
	for _, s := range list {
		in.stmt(s, true)
	}
}

func (in *instrumenter) yieldBefore(s ast.Stmt) {
	if !*light {
		in.insert(s.Pos(), in.site(s.Pos()))
	}
}

func (in *instrumenter) loopBody(b *ast.BlockStmt) {
	in.insert(b.Lbrace+1, in.site(b.Lbrace))
	in.stmts(b.List)
}

func (in *instrumenter) stmt(s ast.Stmt, y bool) {
	switch s := s.(type) {
	case nil:
		return
	case *ast.LabeledStmt:
		if y {
			in.yieldBefore(s)
		}
		in.stmt(s.Stmt, false)
		return
	case *ast.EmptyStmt:
		return
	}
	if _, isDecl := s.(*ast.DeclStmt); y && !isDecl {
		in.yieldBefore(s)
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.stmts(s.List)
	case *ast.IfStmt:
		in.simple(s.Init)
		in.expr(s.Cond)
		in.stmts(s.Body.List)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			in.stmts(e.List)
		case *ast.IfStmt:
			in.stmt(e, false)
		}
	case *ast.ForStmt:
		in.simple(s.Init)
		in.expr(s.Cond)
		in.simple(s.Post)
		in.loopBody(s.Body)
	case *ast.RangeStmt:
		in.rangeStmt(s)
	case *ast.SwitchStmt:
		in.simple(s.Init)
		in.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				in.expr(e)
			}
			in.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		in.simple(s.Init)
		in.simple(s.Assign)
		for _, c := range s.Body.List {
			in.stmts(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		in.selectStmt(s)
	case *ast.GoStmt:
		in.goStmt(s)
	case *ast.SendStmt:
		in.used = true
		in.expr(s.Chan)
		in.expr(s.Value)
		in.insert(s.Pos(), "simrt_.SendTo(")
		in.replace(s.Arrow, s.Arrow+2, ")(")
		in.insert(s.End(), ")")
	default:
		in.simple(s)
	}
}

// simple handles statements without nested statement lists.
func (in *instrumenter) simple(s ast.Stmt) {
	if s == nil {
		return
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		// v, ok := <-ch
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				in.used = true
				in.replace(u.OpPos, u.OpPos+2, "simrt_.Recv2(")
				in.expr(u.X)
				in.insert(u.X.End(), ")")
				return
			}
		}
	case *ast.SendStmt:
		in.stmt(s, false)
		return
	}
	ast.Inspect(s, in.visit)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *instrumenter) expr(e ast.Expr) {
	if e != nil {
		ast.Inspect(e, in.visit)
	}
}

// visit handles constructs inside expressions.
func (in *instrumenter) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.FuncLit:
		in.body(n.Body)
		return false
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			in.used = true
			in.replace(n.OpPos, n.OpPos+2, "simrt_.Recv(")
			in.expr(n.X)
			in.insert(n.X.End(), ")")
			return false
		}
	case *ast.CallExpr:
		if id, ok := unparen(n.Fun).(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
			if _, isB := in.info.Uses[id].(*types.Builtin); isB {
				in.used = true
				in.replace(id.Pos(), id.End(), "simrt_.Close")
			}
		}
		if sel, ok := unparen(n.Fun).(*ast.SelectorExpr); ok {
			if f, ok := in.info.Uses[sel.Sel].(*types.Func); ok && f.Pkg() != nil {
				switch {
				case f.Pkg().Path() == "runtime" && f.Name() == "Gosched":
					in.used = true
					in.insert(n.Pos(), "simrt_.Gosched(")
					in.replace(n.Lparen, n.Rparen, "")
				case f.Pkg().Path() == "sync/atomic" && strings.HasPrefix(f.Name(), "CompareAndSwap"):
					in.used = true
					in.insert(n.Pos(), "simrt_.CAS(")
					in.insert(n.End(), ")")
				}
			}
		}
	}
	return true
}

func (in *instrumenter) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
		return tv.Type.Underlying()
	}
	return nil
}

func (in *instrumenter) rangeStmt(s *ast.RangeStmt) {
	t := in.typeOf(s.X)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch t.(type) {
	case *types.Map:
		in.used = true
		in.tmp++
		m, k, ok := fmt.Sprintf("simm%d_", in.tmp), fmt.Sprintf("simk%d_", in.tmp), fmt.Sprintf("simo%d_", in.tmp)
		in.expr(s.X)
		// for k, v := range X {   =>   for m, once := X, true; once; once = false — kept
		// as one statement so that labels and continue still apply to the loop:
		// for _, k_ := range simrt_.MapKeys(X) { v, ok := X[k_] ... }
		// X is evaluated once when it is not a plain variable or selector.
		simpleX := isPlain(s.X)
		xs := in.text(s.X)
		from, to := s.For, s.X.Pos()
		if !simpleX {
			// (m_ := X) cannot be hoisted before a label; use a pair holder.
			in.replace(from, to, fmt.Sprintf("for _, %s := range simrt_.MapEntries(", k))
			in.insert(s.X.End(), ")")
			var b strings.Builder
			fmt.Fprintf(&b, "if !%s.Live() { continue };", k)
			assign := s.Tok.String()
			if !blank(s.Key) {
				fmt.Fprintf(&b, "%s %s %s.Key;", in.text(s.Key), assign, k)
			}
			if !blank(s.Value) {
				fmt.Fprintf(&b, "%s %s %s.Value();", in.text(s.Value), assign, k)
			}
			in.insert(s.Body.Lbrace+1, b.String())
		} else {
			in.replace(from, to, fmt.Sprintf("for _, %s := range simrt_.MapKeys(", k))
			in.insert(s.X.End(), ")")
			var b strings.Builder
			fmt.Fprintf(&b, "%s, %s := (%s)[%s]; _ = %s; if !%s { continue };", m, ok, xs, k, m, ok)
			assign := s.Tok.String()
			if !blank(s.Key) {
				fmt.Fprintf(&b, "%s %s %s;", in.text(s.Key), assign, k)
			}
			if !blank(s.Value) {
				fmt.Fprintf(&b, "%s %s %s;", in.text(s.Value), assign, m)
			}
			in.insert(s.Body.Lbrace+1, b.String())
		}
		in.loopBody(s.Body)
	case *types.Chan:
		in.used = true
		in.tmp++
		ok := fmt.Sprintf("simo%d_", in.tmp)
		in.expr(s.X)
		xs := in.text(s.X)
		v := "_"
		if !blank(s.Key) {
			v = in.text(s.Key)
		}
		if s.Tok == token.ASSIGN || v == "_" {
			vv := fmt.Sprintf("simv%d_", in.tmp)
			in.replace(s.For, s.X.End(), fmt.Sprintf("for %s, %s := simrt_.Recv2(%s); %s; %s, %s = simrt_.Recv2(%s) ", vv, ok, xs, ok, vv, ok, xs))
			if v != "_" {
				in.insert(s.Body.Lbrace+1, fmt.Sprintf("%s = %s;", v, vv))
			} else {
				in.insert(s.Body.Lbrace+1, fmt.Sprintf("_ = %s;", vv))
			}
		} else {
			in.replace(s.For, s.X.End(), fmt.Sprintf("for %s, %s := simrt_.Recv2(%s); %s; %s, %s = simrt_.Recv2(%s) ", v, ok, xs, ok, v, ok, xs))
		}
		in.loopBody(s.Body)
	default:
		in.expr(s.X)
		in.loopBody(s.Body)
	}
}

func isPlain(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return isPlain(e.X)
	case *ast.ParenExpr:
		return isPlain(e.X)
	case *ast.StarExpr:
		return isPlain(e.X)
	}
	return false
}

// selectStmt turns a select into a switch over the case the runtime chose:
//
//	select { case v, ok := <-a: … case b <- x: … default: … }
//	switch c0, c1 := simrt_.RecvCase(a), simrt_.SendCase(b, x); simrt_.Select(true, c0, c1) {
//	case 0: v, ok := c0.V, c0.OK; … case 1: … default: … }
func (in *instrumenter) selectStmt(s *ast.SelectStmt) {
	in.used = true
	def := "false"
	n := 0
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			def = "true"
		} else {
			n++
		}
	}
	if n == 0 && def == "true" {
		in.replace(s.Select, s.Select+6, "switch")
		in.stmts(s.Body.List[0].(*ast.CommClause).Body)
		return
	}
	in.tmp++
	id := in.tmp
	name := func(i int) string { return fmt.Sprintf("simc%d_%d_", id, i) }
	// The communications move to the head, in order.
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, name(i))
	}
	in.replace(s.Select, s.Select+6, "switch ")
	if n > 0 {
		in.insert(s.Select+6, strings.Join(names, ", ")+" := ")
	}
	k := 0
	var head []string
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			in.stmts(cc.Body)
			continue
		}
		set := ""
		var recv *ast.UnaryExpr
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			head = append(head, "simrt_.SendCase("+in.text(m.Chan)+")("+in.text(m.Value)+")")
		case *ast.ExprStmt:
			recv = unparen(m.X).(*ast.UnaryExpr)
		case *ast.AssignStmt:
			recv = unparen(m.Rhs[0]).(*ast.UnaryExpr)
			var l []string
			all := true
			for _, x := range m.Lhs {
				l = append(l, in.text(x))
				id, isID := x.(*ast.Ident)
				all = all && isID && id.Name == "_"
			}
			op := m.Tok.String()
			if all {
				op = "="
			}
			set = " " + strings.Join(l, ", ") + " " + op + " " + strings.Join([]string{name(k) + ".V", name(k) + ".OK"}[:len(l)], ", ") + ";"
		}
		if recv != nil {
			head = append(head, "simrt_.RecvCase("+in.text(recv.X)+")")
		}
		in.replace(cc.Case, cc.Colon, "case "+strconv.Itoa(k))
		in.insert(cc.Colon+1, set)
		in.stmts(cc.Body)
		k++
	}
	if def == "false" {
		// A select without default may end a function; so must the switch.
		in.insert(s.Body.Rbrace, "default: panic(\"select\")\n")
	}
	text := strings.Join(head, ", ")
	if n > 0 {
		text += "; "
	}
	in.insert(s.Select+6, text+"simrt_.Select("+strings.Join(append([]string{def}, names...), ", ")+")")
}

func (in *instrumenter) goStmt(s *ast.GoStmt) {
	in.used = true
	c := s.Call
	if len(c.Args) == 0 {
		// go f()  =>  simrt_.Go(f)
		in.expr(c.Fun)
		if sig, ok := in.typeOf(c.Fun).(*types.Signature); ok && sig.Results().Len() == 0 {
			in.replace(s.Go, c.Fun.Pos(), "simrt_.Go(")
			in.replace(c.Lparen, c.Rparen+1, ")")
			return
		}
		in.replace(s.Go, c.Fun.Pos(), "{ simf_ := ")
		in.replace(c.Lparen, c.Rparen+1, "; simrt_.Go(func() { simf_() }) }")
		return
	}
	// go f(a, b)  =>  { f_, a_, b_ evaluated now; simrt_.Go(func() { f_(a_, b_) }) }
	isBuiltinOrConv := false
	if tv, ok := in.info.Types[c.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		isBuiltinOrConv = true
	}
	in.replace(s.Go, c.Fun.Pos(), "{ ")
	fn := in.text(c.Fun)
	if !isBuiltinOrConv {
		in.insert(c.Fun.Pos(), "simf_ := ")
		in.expr(c.Fun)
		in.replace(c.Lparen, c.Lparen+1, "; ")
		fn = "simf_"
	} else {
		in.replace(c.Fun.Pos(), c.Lparen+1, "")
	}
	var names []string
	last := c.Lparen + 1
	for i, a := range c.Args {
		name := fmt.Sprintf("sima%d_", i)
		tv := in.info.Types[a]
		// drop separator text before the argument
		if in.off(a.Pos()) > in.off(last) {
			in.replace(last, a.Pos(), "")
		}
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			names = append(names, in.text(a))
			in.replace(a.Pos(), a.End(), "")
		} else {
			in.insert(a.Pos(), name+" := ")
			in.expr(a)
			in.insert(a.End(), "; ")
			names = append(names, name)
		}
		last = a.End()
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	in.replace(last, c.Rparen+1, fmt.Sprintf("simrt_.Go(func() { %s(%s%s) }) }", fn, strings.Join(names, ", "), dots))
}
