// Command simgen writes an instrumented copy of a Go module.
//
// The copy behaves like the original but routes every source of
// nondeterminism through the simulator runtime: statements become yield
// points, sync and sync/atomic become simulated ones, map iteration order and
// goroutine creation become simulator decisions, and all package-level state
// can be re-initialised on command. It knows nothing about the module beyond
// Go itself.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	dir, rel, path string
	files          []string
	imports        map[string]bool
	asts           []*ast.File
	src            map[string][]byte
	tp             *types.Package
	info           *types.Info
}

// Site describes one yield point for evidence and replay files.
type Site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	G    bool   `json:"g"`
}

// Output is what simgen reports about the instrumented module.
type Output struct {
	Module   string   `json:"module"`
	Packages []string `json:"packages"`
	Sites    []Site   `json:"sites"`
	Knobs    []string `json:"knobs"`
	Globals  []string `json:"globals"`
	MapLoops int      `json:"map_loops"`
	GoStmts  int      `json:"go_stmts"`
	Chans    int      `json:"chan_ops"`
}

var (
	repo   = flag.String("repo", "/repo", "module to read")
	out    = flag.String("out", "", "directory to write")
	level  = flag.Int("level", 0, "0 full, 1 without atomic/time/rand, 2 yields and sync only")
	knobN  = flag.Int("cachelimit", 0, "value for recognised cache limits (0 = leave)")
	sites  []Site
	o      Output
	skipRe = regexp.MustCompile(`^(examples?|testdata|vendor|scripts?|docs?|benchmarks?|fuzz|tests?)$`)
	knobRe = regexp.MustCompile(`(?i)(cache\w*(limit|size|max|cap)|(max|limit)\w*cache)`)
)

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if *out == "" {
		fail("-out required")
	}
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fail("%v", err)
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(gomod)
	if m == nil {
		fail("no module line")
	}
	o.Module = string(m[1])
	pkgs := load(o.Module)
	order := sortPkgs(pkgs)
	fset := token.NewFileSet()
	imp := &chainImporter{local: map[string]*types.Package{}, std: importer.ForCompiler(fset, "source", nil)}
	for _, p := range order {
		check(fset, p, imp)
		imp.local[p.path] = p.tp
	}
	for _, p := range order {
		instrument(fset, p)
		o.Packages = append(o.Packages, p.path)
	}
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), gomod, 0o644); err != nil {
		fail("%v", err)
	}
	if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		_ = os.WriteFile(filepath.Join(*out, "go.sum"), b, 0o644)
	}
	o.Sites = sites
	b, _ := json.Marshal(o)
	if err := os.WriteFile(filepath.Join(*out, "simgen.json"), b, 0o644); err != nil {
		fail("%v", err)
	}
	writeResetAll(order)
}

func load(module string) map[string]*pkg {
	pkgs := map[string]*pkg{}
	err := filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		if rel != "." {
			b := filepath.Base(p)
			if strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || skipRe.MatchString(b) {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		bp, err := build.Default.ImportDir(p, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				return nil
			}
			return err
		}
		if bp.Name == "main" || len(bp.GoFiles) == 0 {
			return nil
		}
		path := module
		if rel != "." {
			path = module + "/" + filepath.ToSlash(rel)
		}
		q := &pkg{dir: p, rel: rel, path: path, files: bp.GoFiles, imports: map[string]bool{}, src: map[string][]byte{}}
		for _, i := range bp.Imports {
			q.imports[i] = true
		}
		pkgs[path] = q
		return nil
	})
	if err != nil {
		fail("%v", err)
	}
	return pkgs
}

func sortPkgs(pkgs map[string]*pkg) []*pkg {
	var order []*pkg
	state := map[string]int{}
	var visit func(p *pkg)
	visit = func(p *pkg) {
		if state[p.path] == 2 {
			return
		}
		if state[p.path] == 1 {
			fail("import cycle at %s", p.path)
		}
		state[p.path] = 1
		var deps []string
		for i := range p.imports {
			if pkgs[i] != nil {
				deps = append(deps, i)
			}
		}
		sort.Strings(deps)
		for _, d := range deps {
			visit(pkgs[d])
		}
		state[p.path] = 2
		order = append(order, p)
	}
	var all []string
	for k := range pkgs {
		all = append(all, k)
	}
	sort.Strings(all)
	for _, k := range all {
		visit(pkgs[k])
	}
	return order
}

type chainImporter struct {
	local map[string]*types.Package
	std   types.Importer
}

func (c *chainImporter) Import(path string) (*types.Package, error) {
	if p := c.local[path]; p != nil {
		return p, nil
	}
	return c.std.Import(path)
}

func check(fset *token.FileSet, p *pkg, imp types.Importer) {
	for _, f := range p.files {
		full := filepath.Join(p.dir, f)
		b, err := os.ReadFile(full)
		if err != nil {
			fail("%v", err)
		}
		a, err := parser.ParseFile(fset, full, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fail("%v", err)
		}
		p.src[full] = b
		p.asts = append(p.asts, a)
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp}
	tp, err := conf.Check(p.path, fset, p.asts, p.info)
	if err != nil {
		fail("type check %s: %v", p.path, err)
	}
	p.tp = tp
}

type edit struct {
	off, end int
	text     string
	prio     int
}

func simPath(s string) string { return o.Module + "/internal/zzsim/" + s }

func instrument(fset *token.FileSet, p *pkg) {
	dst := filepath.Join(*out, p.rel)
	if err := os.MkdirAll(dst, 0o755); err != nil {
		fail("%v", err)
	}
	specFile := map[types.Object]*ast.File{}
	initN := 0
	var initCalls []string
	tails := map[*ast.File]*strings.Builder{}
	edits := map[*ast.File][]edit{}
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }

	// package-level variables, in source order per file
	type gvar struct {
		obj  types.Object
		spec *ast.ValueSpec
		file *ast.File
	}
	var gvars []gvar
	for _, f := range p.asts {
		tails[f] = &strings.Builder{}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || (gd.Tok != token.VAR && gd.Tok != token.CONST) {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if knobRe.MatchString(n.Name) && *knobN > 0 && i < len(vs.Values) {
						if tv, ok := p.info.Types[vs.Values[i]]; ok && tv.Value != nil {
							if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
								edits[f] = append(edits[f], edit{off(vs.Values[i].Pos()), off(vs.Values[i].End()), strconv.Itoa(*knobN), 0})
								o.Knobs = append(o.Knobs, p.path+"."+n.Name)
							}
						}
					}
					if gd.Tok == token.VAR && n.Name != "_" {
						obj := p.info.Defs[n]
						specFile[obj] = f
						gvars = append(gvars, gvar{obj, vs, f})
						o.Globals = append(o.Globals, p.path+"."+n.Name)
					}
				}
			}
		}
	}

	isGlobal := func(id *ast.Ident) bool {
		v, ok := p.info.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil {
			return false
		}
		if v.Parent() != v.Pkg().Scope() {
			return false
		}
		return strings.HasPrefix(v.Pkg().Path(), o.Module) && !isErrorVar(v)
	}
	// mentionsGlobal looks at a statement's own expressions, not at nested blocks.
	mentionsGlobal := func(s ast.Stmt) bool {
		found := false
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.Ident:
				if isGlobal(x) {
					found = true
				}
			}
			return !found
		})
		return found
	}

	for _, f := range p.asts {
		full := fset.Position(f.Pos()).Filename
		fn := ""
		var es []edit
		es = append(es, edits[f]...)
		ins := func(at int, text string, prio int) { es = append(es, edit{at, at, text, prio}) }
		yield := func(pos token.Pos, g bool) string {
			id := len(sites)
			ps := fset.Position(pos)
			rel, _ := filepath.Rel(*repo, ps.Filename)
			sites = append(sites, Site{id, rel, ps.Line, fn, g})
			if g {
				return fmt.Sprintf("simrt.G(%d); ", id)
			}
			return fmt.Sprintf("simrt.Y(%d); ", id)
		}
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				ins(off(s.Pos()), yield(s.Pos(), mentionsGlobal(s)), 5)
			}
		}
		usesRT := false
		two := map[ast.Expr]bool{}
		inSelect := map[ast.Node]bool{}
		for _, is := range f.Imports {
			path, _ := strconv.Unquote(is.Path.Value)
			to := ""
			switch path {
			case "sync":
				to = simPath("simsync")
			case "sync/atomic":
				if *level == 0 {
					to = simPath("simatomic")
				}
			case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
				if *level == 0 {
					to = simPath(map[string]string{"math/rand": "simrand", "math/rand/v2": "simrandv2", "crypto/rand": "simcrand", "hash/maphash": "simmaphash"}[path])
				}
			}
			if to != "" {
				name := path[strings.LastIndex(path, "/")+1:]
				if name == "v2" {
					name = "rand"
				}
				if is.Name != nil {
					name = is.Name.Name
				}
				end := off(is.Path.End())
				start := off(is.Path.Pos())
				if is.Name != nil {
					start = off(is.Name.Pos())
				}
				es = append(es, edit{start, end, name + " " + strconv.Quote(to), 0})
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok {
				fn = fd.Name.Name
				if fd.Recv == nil && fn == "init" && fd.Body != nil {
					name := fmt.Sprintf("zzSimInit%d", initN)
					initN++
					es = append(es, edit{off(fd.Name.Pos()), off(fd.Name.End()), name, 0})
					initCalls = append(initCalls, name)
				}
			} else {
				fn = "init"
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					usesRT = usesRT || len(x.List) > 0
					list(x.List)
				case *ast.CaseClause:
					usesRT = usesRT || len(x.Body) > 0
					list(x.Body)
				case *ast.CommClause:
					usesRT = usesRT || len(x.Body) > 0
					list(x.Body)
				case *ast.ForStmt:
					if len(x.Body.List) == 0 {
						usesRT = true
						ins(off(x.Body.Lbrace)+1, " "+yield(x.Body.Lbrace, false), 1)
					}
				case *ast.RangeStmt:
					t := p.info.TypeOf(x.X)
					if t != nil && isMap(t) && *level < 2 {
						usesRT = true
						o.MapLoops++
						ins(off(x.X.Pos()), "simrt.MapSeq(", 6)
						ins(off(x.X.End()), ")", 0)
					}
					if t != nil && isChan(t) {
						o.Chans++
						if *level < 2 {
							usesRT = true
							ins(off(x.X.Pos()), "simrt.ChanSeq(", 6)
							ins(off(x.X.End()), ")", 0)
						}
					}
				case *ast.GoStmt:
					usesRT = true
					o.GoStmts++
					if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
						es = append(es, edit{off(x.Pos()), off(fl.Pos()), "simrt.Go(", 6})
						es = append(es, edit{off(fl.End()), off(x.Call.End()), ")", 0})
					} else {
						es = append(es, edit{off(x.Pos()), off(x.Call.Pos()), "simrt.Go(func() { ", 6})
						ins(off(x.Call.End()), " })", 0)
					}
				case *ast.AssignStmt:
					if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
						two[ast.Unparen(x.Rhs[0])] = true
					}
				case *ast.ValueSpec:
					if len(x.Names) == 2 && len(x.Values) == 1 {
						two[ast.Unparen(x.Values[0])] = true
					}
				case *ast.SendStmt:
					o.Chans++
					if *level < 2 && !inSelect[x] {
						usesRT = true
						ins(off(x.Pos()), "simrt.ChanSend(", 6)
						es = append(es, edit{off(x.Arrow), off(x.Arrow) + 2, ")(", 6})
						ins(off(x.End()), ")", 0)
					}
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						o.Chans++
						if *level < 2 && !inSelect[x] {
							usesRT = true
							name := "simrt.ChanRecv("
							if two[x] {
								name = "simrt.ChanRecv2("
							}
							es = append(es, edit{off(x.OpPos), off(x.OpPos) + 2, name, 6})
							ins(off(x.X.End()), ")", 0)
						}
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && *level < 2 {
						if _, ok := p.info.Uses[id].(*types.Builtin); ok {
							usesRT = true
							es = append(es, edit{off(id.Pos()), off(id.End()), "simrt.ChanClose", 6})
						}
					}
				case *ast.SelectStmt:
					if *level < 2 {
						usesRT = true
						es = append(es, selectEdits(p, x, off, p.src[full], inSelect)...)
					}
				case *ast.SelectorExpr:
					id, ok := x.X.(*ast.Ident)
					if !ok || *level > 0 {
						return true
					}
					pn, ok := p.info.Uses[id].(*types.PkgName)
					if !ok {
						return true
					}
					repl := ""
					switch pn.Imported().Path() {
					case "time":
						switch x.Sel.Name {
						case "Now":
							repl = "simrt.TimeNow"
						case "Sleep":
							repl = "simrt.TimeSleep"
						case "Since":
							repl = "simrt.TimeSince"
						case "Until":
							repl = "simrt.TimeUntil"
						case "After":
							repl = "simrt.TimeAfter"
						case "Tick":
							repl = "simrt.TimeTick"
						case "NewTimer", "NewTicker", "AfterFunc", "Timer", "Ticker":
							repl = "simrt." + x.Sel.Name
						}
					case "runtime":
						switch x.Sel.Name {
						case "Gosched", "NumCPU", "GOMAXPROCS":
							repl = "simrt." + x.Sel.Name
						}
					case "os":
						if x.Sel.Name == "Getpid" {
							repl = "simrt.Getpid"
						}
					case "context":
						switch x.Sel.Name {
						case "WithTimeout", "WithDeadline", "WithTimeoutCause", "WithDeadlineCause":
							repl = "simrt." + x.Sel.Name
						}
					case "maps":
						switch x.Sel.Name {
						case "Keys":
							repl = "simrt.MapsKeys"
						case "Values":
							repl = "simrt.MapsValues"
						case "All":
							repl = "simrt.MapSeq"
						}
					}
					if repl != "" {
						usesRT = true
						es = append(es, edit{off(x.Pos()), off(x.End()), repl, 0})
						tails[f].WriteString(fmt.Sprintf("\nvar _ = %s.%s\n", id.Name, keep(pn.Imported().Path())))
					}
				}
				return true
			})
		}
		// initialisation-order reset functions for this file's variables
		usesRT = usesRT || false
		es = append(es, edit{off(f.Name.End()), off(f.Name.End()), importRT(usesRT), 9})
		text := apply(p.src[full], es)
		edits[f] = es
		p.src[full] = text
		_ = full
	}

	// Reset: zero variables without initialiser, then initialisers in order, then init functions.
	k := 0
	var calls []string
	emit := func(f *ast.File, body string) {
		name := fmt.Sprintf("zzSimReset%d", k)
		k++
		fmt.Fprintf(tails[f], "\nfunc %s() { %s }\n", name, body)
		calls = append(calls, name)
	}
	doneZero := map[*ast.ValueSpec]bool{}
	for _, g := range gvars {
		if len(g.spec.Values) == 0 && !doneZero[g.spec] {
			doneZero[g.spec] = true
			full := fset.Position(g.file.Pos()).Filename
			orig, _ := os.ReadFile(full)
			tt := string(orig[off(g.spec.Type.Pos()):off(g.spec.Type.End())])
			for _, n := range g.spec.Names {
				if n.Name != "_" {
					emit(g.file, fmt.Sprintf("var zzZero %s; %s = zzZero", tt, n.Name))
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		var names []string
		var f *ast.File
		for _, l := range in.Lhs {
			names = append(names, l.Name())
			if f == nil {
				f = specFile[l]
			}
		}
		if f == nil {
			continue
		}
		full := fset.Position(f.Pos()).Filename
		orig, _ := os.ReadFile(full)
		rs, re := off(in.Rhs.Pos()), off(in.Rhs.End())
		var sub []edit
		for _, e := range edits[f] {
			if e.off >= rs && e.end <= re {
				sub = append(sub, edit{e.off - rs, e.end - rs, e.text, e.prio})
			}
		}
		emit(f, fmt.Sprintf("%s = %s", strings.Join(names, ", "), apply(orig[rs:re], sub)))
	}
	for _, f := range p.asts {
		full := fset.Position(f.Pos()).Filename
		text := append(p.src[full], []byte(tails[f].String())...)
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(full)), text, 0o644); err != nil {
			fail("%v", err)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n", p.tp.Name())
	fmt.Fprintf(&b, "func init() {\n")
	for _, c := range initCalls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	fmt.Fprintf(&b, "}\n\n// ZZSimReset re-initialises all package-level state as at process start.\nfunc ZZSimReset() {\n")
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	for _, c := range initCalls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	fmt.Fprintf(&b, "}\n")
	if err := os.WriteFile(filepath.Join(dst, "zz_sim_reset.go"), []byte(b.String()), 0o644); err != nil {
		fail("%v", err)
	}
	// non-Go files needed by embed are copied verbatim
	ents, _ := os.ReadDir(p.dir)
	for _, e := range ents {
		n := e.Name()
		if e.Type().IsRegular() && !strings.HasSuffix(n, ".go") && n != "go.mod" && n != "go.sum" {
			if st, err := e.Info(); err == nil && st.Size() < 1<<20 {
				if bb, err := os.ReadFile(filepath.Join(p.dir, n)); err == nil {
					_ = os.WriteFile(filepath.Join(dst, n), bb, 0o644)
				}
			}
		}
	}
}

func isErrorVar(v *types.Var) bool {
	return types.Identical(v.Type(), types.Universe.Lookup("error").Type())
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// selectEdits turns a select into a switch over the case that happened. Channel
// and value expressions move to the head, where a select evaluates them as well.
func selectEdits(p *pkg, x *ast.SelectStmt, off func(token.Pos) int, src []byte, inSelect map[ast.Node]bool) []edit {
	var es []edit
	var vars, makes []string
	def := "false"
	text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
	n := 0
	last := -1
	for i, s := range x.Body.List {
		if c := s.(*ast.CommClause); c.Comm == nil {
			def = "true"
		} else {
			last = i
		}
	}
	for i, s := range x.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			continue
		}
		v := fmt.Sprintf("zzSel%d", n)
		head := fmt.Sprintf("case %d:", n)
		if def == "false" && i == last {
			head = "default:" // a select without default waits for a case
		}
		n++
		vars = append(vars, v)
		mark := func(e ast.Expr) ast.Expr {
			u, ok := ast.Unparen(e).(*ast.UnaryExpr)
			if !ok {
				fail("unknown form of receive in select")
			}
			inSelect[u] = true
			return u.X
		}
		switch y := c.Comm.(type) {
		case *ast.SendStmt:
			inSelect[y] = true
			makes = append(makes, fmt.Sprintf("simrt.CaseSend(%s)(%s)", text(y.Chan), text(y.Value)))
		case *ast.ExprStmt:
			makes = append(makes, fmt.Sprintf("simrt.CaseRecv(%s)", text(mark(y.X))))
		case *ast.AssignStmt:
			makes = append(makes, fmt.Sprintf("simrt.CaseRecv(%s)", text(mark(y.Rhs[0]))))
			head += " " + text(y.Lhs[0])
			if len(y.Lhs) == 2 {
				head += ", " + text(y.Lhs[1]) + " " + y.Tok.String() + " " + v + ".V, " + v + ".OK;"
			} else {
				head += " " + y.Tok.String() + " " + v + ".V;"
			}
		}
		es = append(es, edit{off(c.Case), off(c.Colon) + 1, head, 6})
	}
	h := "switch "
	if n > 0 {
		h += strings.Join(vars, ", ") + " := " + strings.Join(makes, ", ") + "; "
	}
	h += "simrt.Select(" + strings.Join(append([]string{def}, vars...), ", ") + ") "
	es = append(es, edit{off(x.Select), off(x.Body.Lbrace), h, 6})
	return es
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func keep(path string) string {
	switch path {
	case "time":
		return "Nanosecond"
	case "runtime":
		return "GC"
	case "os":
		return "Args"
	case "context":
		return "Background"
	}
	return "Clone[map[int]int]"
}

func importRT(uses bool) string {
	s := "; import simrt " + strconv.Quote(simPath("simrt"))
	if !uses {
		s = "; import _ " + strconv.Quote(simPath("simrt"))
	}
	return s
}

func apply(src []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		if es[i].prio != es[j].prio {
			return es[i].prio < es[j].prio
		}
		return false
	})
	var b []byte
	pos := 0
	for _, e := range es {
		if e.off < pos {
			// nested replacement inside an already replaced range
			continue
		}
		b = append(b, src[pos:e.off]...)
		b = append(b, e.text...)
		pos = e.end
	}
	return append(b, src[pos:]...)
}

func writeResetAll(order []*pkg) {
	dir := filepath.Join(*out, "internal", "zzsim", "simreset")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fail("%v", err)
	}
	var b strings.Builder
	b.WriteString("// Package simreset restarts the simulated process.\npackage simreset\n\nimport (\n")
	for i, p := range order {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p.path)
	}
	fmt.Fprintf(&b, "\t%q\n", simPath("simrt"))
	b.WriteString(")\n\n// Restart re-initialises the state of every package of the module.\nfunc Restart() {\n\tsimrt.OnRestart()\n")
	for i := range order {
		fmt.Fprintf(&b, "\tp%d.ZZSimReset()\n", i)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "simreset.go"), []byte(b.String()), 0o644); err != nil {
		fail("%v", err)
	}
}
