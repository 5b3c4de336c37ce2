// Command instr writes instrumented copies of the repository's packages and a build overlay that
// makes `go build` use them. It only inserts or replaces small pieces of text; constructs it does
// not know are left alone.
//
//	-profile time  package time is virtual (clock), nothing else changes
//	-profile sys   like full, for the whole program: pkg/kache and signals too, and net.Listen can be hooked
//	-profile full  locks, atomics, channels, go statements and statements become scheduling points
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, del int
	ins     string
	seq     int
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	out     = flag.String("out", "", "output directory")
	profile = flag.String("profile", "time", "time, full or sys")
	export  = flag.String("export", "", "directory with files to add to packages (export/<pkg path>/*.go)")
	steps   = flag.Bool("steps", true, "insert statement-level scheduling points (full)")
	skip    = flag.String("skip", "pkg/kache,pkg/api,pkg/utils/version,pkg/utils/logger", "packages left alone in the full profile")
)

func main() {
	flag.Parse()
	replace := map[string]string{}
	fset := token.NewFileSet()
	var dirs []string
	filepath.Walk(filepath.Join(*repo, "pkg"), func(p string, st os.FileInfo, err error) error {
		if err == nil && st.IsDir() {
			dirs = append(dirs, p)
		}
		return nil
	})
	skipped := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skipped[s] = true
	}
	sys := *profile == "sys"
	full := *profile == "full" || sys
	if sys {
		delete(skipped, "pkg/kache")
		hookListen(replace)
	}
	var imp types.Importer
	if full {
		imp = exportImporter(fset)
	}
	for _, d := range dirs {
		rel, _ := filepath.Rel(*repo, d)
		if full && skipped[rel] {
			continue
		}
		ents, _ := os.ReadDir(d)
		var files []*file
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(d, n)
			src, err := os.ReadFile(p)
			if err != nil {
				fatal(err)
			}
			a, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			files = append(files, &file{path: p, src: src, ast: a})
		}
		if len(files) == 0 {
			continue
		}
		var info *types.Info
		if full {
			info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
			var as []*ast.File
			for _, f := range files {
				as = append(as, f.ast)
			}
			conf := types.Config{Importer: imp, Error: func(error) {}}
			conf.Check("github.com/kacheio/kache/"+rel, fset, as, info)
		}
		for _, f := range files {
			instrument(fset, f, info, full, sys)
			if len(f.edits) == 0 {
				continue
			}
			o := filepath.Join(*out, "src", rel, filepath.Base(f.path))
			os.MkdirAll(filepath.Dir(o), 0o755)
			if err := os.WriteFile(o, apply(f), 0o644); err != nil {
				fatal(err)
			}
			replace[f.path] = o
		}
	}
	if *export != "" {
		filepath.Walk(*export, func(p string, st os.FileInfo, err error) error {
			if err == nil && !st.IsDir() && strings.HasSuffix(p, ".go.txt") {
				rel, _ := filepath.Rel(*export, p)
				replace[filepath.Join(*repo, filepath.Dir(rel), "zz_verif_"+strings.TrimSuffix(filepath.Base(rel), ".txt"))] = p
			}
			return nil
		})
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

// hookListen adds hooks to the standard library: net.VerifListen, and http.VerifServe,
// VerifShutdown, VerifClose, VerifTimeout and VerifSend, which replace the methods when they are set and say so.
func hookListen(replace map[string]string) {
	o, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal(err)
	}
	std := filepath.Join(strings.TrimSpace(string(o)), "src")
	hook := func(file string, add string, at ...string) {
		p := filepath.Join(std, file)
		src, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		t := string(src)
		for i := 0; i+1 < len(at); i += 2 {
			j := strings.Index(t, at[i]+"\n")
			if j < 0 {
				fatal(fmt.Errorf("%s: %s not found", file, at[i]))
			}
			j += len(at[i]) + 1
			t = t[:j] + at[i+1] + t[j:]
		}
		q := filepath.Join(*out, strings.ReplaceAll(file, "/", "_"))
		if err := os.WriteFile(q, []byte(t+add), 0o644); err != nil {
			fatal(err)
		}
		replace[p] = q
	}
	hook("net/dial.go", "\n// VerifListen replaces listening when set.\nvar VerifListen func(network, address string) (Listener, error)\n",
		"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {",
		"\tif VerifListen != nil {\n\t\tif l, err := VerifListen(network, address); l != nil || err != nil {\n\t\t\treturn l, err\n\t\t}\n\t}\n")
	hook("net/http/server.go", `
// Hooks of the verification harness.
var (
	VerifServe    func(s *Server, l net.Listener) (error, bool)
	VerifShutdown func(s *Server, ctx context.Context) (error, bool)
	VerifClose    func(s *Server) (error, bool)
	VerifTimeout  func(h Handler, dt time.Duration, w ResponseWriter, r *Request) bool
	VerifSend     func(t *Transport, r *Request) (*Response, error, bool)
)
`,
		"func (s *Server) Serve(l net.Listener) error {",
		"\tif VerifServe != nil {\n\t\tif err, ok := VerifServe(s, l); ok {\n\t\t\treturn err\n\t\t}\n\t}\n",
		"func (s *Server) Shutdown(ctx context.Context) error {",
		"\tif VerifShutdown != nil {\n\t\tif err, ok := VerifShutdown(s, ctx); ok {\n\t\t\treturn err\n\t\t}\n\t}\n",
		"func (s *Server) Close() error {",
		"\tif VerifClose != nil {\n\t\tif err, ok := VerifClose(s); ok {\n\t\t\treturn err\n\t\t}\n\t}\n",
		"func (h *timeoutHandler) ServeHTTP(w ResponseWriter, r *Request) {",
		"\tif VerifTimeout != nil && VerifTimeout(h.handler, h.dt, w, r) {\n\t\treturn\n\t}\n")
	hook("net/http/roundtrip.go", "",
		"func (t *Transport) RoundTrip(req *Request) (*Response, error) {",
		"\tif VerifSend != nil {\n\t\tif res, err, ok := VerifSend(t, req); ok {\n\t\t\treturn res, err\n\t\t}\n\t}\n")
}

func fatal(err error) { fmt.Fprintln(os.Stderr, "instr:", err); os.Exit(2) }

func exportImporter(fset *token.FileSet) types.Importer {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export", "./pkg/...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal(err)
	}
	m := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var x struct{ ImportPath, Export string }
		if err := dec.Decode(&x); err != nil {
			break
		}
		m[x.ImportPath] = x.Export
	}
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m[path] == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(m[path])
	})
}

func apply(f *file) []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].at != f.edits[j].at {
			return f.edits[i].at < f.edits[j].at
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.at > pos {
			b.Write(f.src[pos:e.at])
			pos = e.at
		}
		b.WriteString(e.ins)
		if e.at+e.del > pos {
			pos = e.at + e.del
		}
	}
	b.Write(f.src[pos:])
	return b.Bytes()
}

type inst struct {
	sorted bool // maps are ranged over in order
	fset   *token.FileSet
	f      *file
	info   *types.Info
	n      int
	seq    int
	sched  bool // vsched import needed
	names  map[string]bool
}

func (x *inst) off(p token.Pos) int { return x.fset.Position(p).Offset }
func (x *inst) ins(p token.Pos, s string) {
	x.seq++
	x.f.edits = append(x.f.edits, edit{x.off(p), 0, s, x.seq})
}
func (x *inst) rep(p token.Pos, n int, s string) {
	x.seq++
	x.f.edits = append(x.f.edits, edit{x.off(p), n, s, x.seq})
}
func (x *inst) text(n ast.Node) string { return string(x.f.src[x.off(n.Pos()):x.off(n.End())]) }

func instrument(fset *token.FileSet, f *file, info *types.Info, full, sys bool) {
	x := &inst{fset: fset, f: f, info: info, sorted: sys}
	repl := map[string]string{"time": "kverif/vtime"}
	if full {
		repl["sync"] = "kverif/vsync"
		repl["context"] = "kverif/vcontext"
		repl["sync/atomic"] = "kverif/vatomic"
	}
	if sys {
		repl["os/signal"] = "kverif/vsignal"
	}
	for _, im := range f.ast.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np, ok := repl[p]
		if !ok {
			continue
		}
		name := ""
		if im.Name == nil {
			name = p[strings.LastIndex(p, "/")+1:] + " "
		}
		x.rep(im.Path.Pos(), len(im.Path.Value), name+strconv.Quote(np))
	}
	if full {
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
				x.block(fd.Body)
			} else if gd, ok := d.(*ast.GenDecl); ok {
				ast.Inspect(gd, func(n ast.Node) bool {
					if fl, ok := n.(*ast.FuncLit); ok {
						x.block(fl.Body)
						return false
					}
					return true
				})
			}
		}
		if x.sched {
			x.rep(f.ast.Name.End(), 0, "; import vsched_ \"kverif/vsched\"")
		}
	}
}

func (x *inst) loc(p token.Pos) string {
	ps := x.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

func (x *inst) block(b *ast.BlockStmt) { x.list(b.List) }

func (x *inst) list(l []ast.Stmt) {
	for _, s := range l {
		x.step(s)
		x.stmt(s, "")
	}
}

func (x *inst) step(s ast.Stmt) {
	if !*steps {
		return
	}
	switch s.(type) {
	case *ast.EmptyStmt, *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
		return
	case *ast.DeclStmt:
		return
	case *ast.DeferStmt:
		return
	}
	x.sched = true
	x.ins(s.Pos(), fmt.Sprintf("vsched_.Step(%q); ", x.loc(s.Pos())))
}

func (x *inst) isChan(e ast.Expr) bool {
	if x.info == nil {
		return false
	}
	tv, ok := x.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// isMap: a plain expression for a map with string keys.
func (x *inst) isMap(e ast.Expr) bool {
	if x.info == nil {
		return false
	}
	for p := e; ; {
		if s, ok := p.(*ast.SelectorExpr); ok {
			p = s.X
			continue
		}
		if _, ok := p.(*ast.Ident); !ok {
			return false
		}
		break
	}
	tv, ok := x.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *inst) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch e := m.(type) {
		case *ast.FuncLit:
			x.block(e.Body)
			return false
		case *ast.UnaryExpr:
			if e.Op == token.ARROW {
				x.sched = true
				x.rep(e.OpPos, 2, "vsched_.Recv(")
				x.exprs(e.X)
				x.ins(e.End(), ")")
				return false
			}
		case *ast.CallExpr:
			if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "close" && len(e.Args) == 1 && x.isChan(e.Args[0]) {
				x.sched = true
				x.rep(id.Pos(), len("close"), "vsched_.Close")
			}
		}
		return true
	})
}

func (x *inst) stmt(s ast.Stmt, label string) {
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		x.block(s)
	case *ast.LabeledStmt:
		x.stmt(s.Stmt, s.Label.Name)
	case *ast.IfStmt:
		x.simple(s.Init)
		x.exprs(s.Cond)
		x.block(s.Body)
		if s.Else != nil {
			x.stmt(s.Else, "")
		}
	case *ast.ForStmt:
		x.simple(s.Init)
		if s.Cond != nil {
			x.exprs(s.Cond)
		}
		x.simple(s.Post)
		x.block(s.Body)
	case *ast.RangeStmt:
		if x.isChan(s.X) && s.Value == nil && (s.Key == nil || s.Tok == token.DEFINE) {
			x.n++
			x.sched = true
			ok := fmt.Sprintf("ok%d_", x.n)
			v := "_"
			if s.Key != nil {
				v = x.text(s.Key)
			}
			ch := x.text(s.X)
			x.rep(s.For, x.off(s.Body.Lbrace)-x.off(s.For),
				fmt.Sprintf("for %s, %s := vsched_.Recv2(%s); %s; %s, %s = vsched_.Recv2(%s) ", v, ok, ch, ok, v, ok, ch))
		} else if x.sorted && s.Key != nil && s.Tok == token.DEFINE && x.isMap(s.X) {
			// in the order of the keys: executions are repeatable
			x.n++
			x.sched = true
			m, k, v := x.text(s.X), x.text(s.Key), ""
			if k == "_" {
				k = fmt.Sprintf("key%d_", x.n)
			}
			if s.Value != nil && x.text(s.Value) != "_" {
				v = x.text(s.Value)
			}
			x.rep(s.For, x.off(s.Body.Lbrace)-x.off(s.For), fmt.Sprintf("for _, %s := range vsched_.Keys(%s) ", k, m))
			ins := fmt.Sprintf(" if _, in%d_ := %s[%s]; !in%d_ { continue };", x.n, m, k, x.n)
			if v != "" {
				ins += fmt.Sprintf(" %s := %s[%s];", v, m, k)
			}
			x.rep(s.Body.Lbrace+1, 0, ins)
		} else {
			x.exprs(s.X)
		}
		x.block(s.Body)
	case *ast.SwitchStmt:
		x.simple(s.Init)
		if s.Tag != nil {
			x.exprs(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				x.exprs(e)
			}
			x.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		x.simple(s.Init)
		x.simple(s.Assign)
		for _, c := range s.Body.List {
			x.list(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		x.sel(s)
	case *ast.GoStmt:
		x.gostmt(s)
	case *ast.DeferStmt:
		x.exprs(s.Call)
	default:
		x.simple(s)
	}
}

// simple handles statements without nested statements.
func (x *inst) simple(s ast.Stmt) {
	switch s := s.(type) {
	case nil:
	case *ast.SendStmt:
		x.sched = true
		x.ins(s.Pos(), "vsched_.NewSend(")
		x.exprs(s.Chan)
		x.rep(s.Arrow, 2, ").Do(")
		// the text between channel and arrow stays as it is (white space)
		x.exprs(s.Value)
		x.ins(s.End(), ")")
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.sched = true
				x.rep(u.OpPos, 2, "vsched_.Recv2(")
				x.exprs(u.X)
				x.ins(u.End(), ")")
				for _, l := range s.Lhs {
					x.exprs(l)
				}
				return
			}
		}
		x.exprs(s)
	default:
		x.exprs(s)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *inst) gostmt(s *ast.GoStmt) {
	x.sched = true
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		x.rep(s.Go, 2, "vsched_.Go(")
		x.block(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			x.rep(c.Lparen, x.off(c.Rparen)-x.off(c.Lparen)+1, ")")
		} else {
			x.ins(fl.Pos(), "func() { ")
			x.ins(c.End(), " })")
		}
		return
	}
	var sig *types.Signature
	if x.info != nil {
		if tv, ok := x.info.Types[c.Fun]; ok && tv.Type != nil {
			sig, _ = tv.Type.Underlying().(*types.Signature)
		}
	}
	if sig != nil && !sig.Variadic() && sig.Results().Len() == 0 && sig.Params().Len() == len(c.Args) && len(c.Args) <= 4 {
		if len(c.Args) == 0 {
			// go recv.method(): the receiver is evaluated now
			x.rep(s.Go, 2, "vsched_.Go(")
			x.exprs(c.Fun)
			x.rep(c.Lparen, x.off(c.Rparen)-x.off(c.Lparen)+1, ")")
			return
		}
		x.rep(s.Go, 2, fmt.Sprintf("vsched_.NewG%d(", len(c.Args)))
		x.exprs(c.Fun)
		x.ins(c.Lparen, ").Go")
		for _, a := range c.Args {
			x.exprs(a)
		}
		return
	}
	// Anything else: evaluated inside the new thread.
	x.rep(s.Go, 2, "vsched_.Go(func() {")
	x.exprs(c)
	x.ins(c.End(), " })")
}

func (x *inst) sel(s *ast.SelectStmt) {
	x.sched = true
	x.n++
	id := x.n
	var names, news []string
	hasDefault := false
	i := 0
	type todo struct {
		cc *ast.CommClause
		i  int
	}
	var ts []todo
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			x.rep(cc.Case, x.off(cc.Colon)-x.off(cc.Case)+1, "case -1:")
			x.list(cc.Body)
			continue
		}
		name := fmt.Sprintf("s%d_%d", id, i)
		names = append(names, name)
		pre := fmt.Sprintf("case %d:", i)
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			news = append(news, fmt.Sprintf("vsched_.NewSend(%s).Of(%s)", x.text(cm.Chan), x.text(cm.Value)))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			news = append(news, fmt.Sprintf("vsched_.NewRecv(%s)", x.text(u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			news = append(news, fmt.Sprintf("vsched_.NewRecv(%s)", x.text(u.X)))
			var l []string
			for _, e := range cm.Lhs {
				l = append(l, x.text(e))
			}
			r := name + ".Val"
			if len(l) == 2 {
				r += ", " + name + ".Ok"
			}
			pre += fmt.Sprintf(" %s %s %s;", strings.Join(l, ", "), cm.Tok, r)
		}
		x.rep(cc.Case, x.off(cc.Colon)-x.off(cc.Case)+1, pre)
		ts = append(ts, todo{cc, i})
		i++
	}
	head := fmt.Sprintf("vsched_.Select(%v", hasDefault)
	for _, n := range names {
		head += ", " + n
	}
	head += ")"
	if len(names) > 0 {
		head = strings.Join(names, ", ") + " := " + strings.Join(news, ", ") + "; " + head
	}
	x.rep(s.Select, len("select"), "switch "+head)
	for _, t := range ts {
		x.list(t.cc.Body)
	}
	x.ins(s.Body.Rbrace, "default: panic(\"unreachable\"); ")
}
