// Command instr copies a Go source tree and rewrites the listed packages so that every visible
// operation of them becomes a scheduling point of zzv/vsched.
//
//	instr -src /repo -dst DIR -pkgs lock,hashmap,... -zzv /verif/zzv
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const mod = "github.com/donnie4w/gofer"
const zz = mod + "/zzv/"

var wholeImports = map[string]string{
	"sync":         zz + "vsync",
	"sync/atomic":  zz + "vatomic",
	"hash/maphash": zz + "vmaphash",
}

var depCopies = map[string]string{
	"container/list":                   zz + "dep/list",
	"github.com/golang/groupcache/lru": zz + "dep/lru",
	"github.com/google/btree":          zz + "dep/btree",
}

type selRule struct {
	shim  string
	names map[string]bool
	dummy string
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

var selRules = map[string]selRule{
	"time":                       {"vtime", set("Now Since Until After AfterFunc NewTimer Timer NewTicker Ticker Tick Sleep"), "var _ %s.Duration"},
	"context":                    {"vctx", set("WithTimeout WithDeadline"), "var _ %s.Context"},
	"runtime":                    {"vsched", set("Gosched"), "var _ = %s.NumCPU"},
	"os/signal":                  {"vsignal", set("Notify Stop Reset Ignore Ignored"), "var _ = %s.Notify"},
	"golang.org/x/sys/unix":      {"vunix", set("Syscall6 Syscall Msync"), "var _ = %s.Getpagesize"},
	"golang.org/x/net/websocket": {"vws", set("Config Conn Codec Message DialConfig Dial NewConfig ProtocolVersionHybi13 ProtocolVersionHybi SupportedProtocolVersion TextFrame BinaryFrame DefaultMaxPayloadBytes ErrFrameTooLarge"), "var _ %s.Config"},
	"os":                         {"vos", set("File OpenFile Open Create CreateTemp ReadFile WriteFile Rename Remove Truncate Mkdir MkdirAll"), "var _ = %s.Getpid"},
}

// packages in which the os selectors are rewritten
var osPkgs = map[string]bool{"fastio": true, "keystore": true}

type pkgInfo struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(3) }

func main() {
	src := flag.String("src", "/repo", "")
	dst := flag.String("dst", "", "")
	pk := flag.String("pkgs", "", "")
	deps := flag.Bool("deps", true, "")
	flag.Parse()
	pkgs := strings.Split(*pk, ",")
	// list with export data
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard"}
	for _, p := range pkgs {
		args = append(args, "./"+p)
	}
	if *deps {
		for d := range depCopies {
			args = append(args, d)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	all := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("json: %v", err)
		}
		all[p.ImportPath] = &p
	}
	lookup := func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			if strings.HasPrefix(path, "vendor/") {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	type job struct{ path, out, rel string }
	var jobs []job
	for _, p := range pkgs {
		jobs = append(jobs, job{mod + "/" + p, filepath.Join(*dst, p), p})
	}
	if *deps {
		for d, t := range depCopies {
			jobs = append(jobs, job{d, filepath.Join(*dst, strings.TrimPrefix(t, mod+"/")), d})
		}
	}
	var loaded []*pkg
	mut := map[string]bool{}
	for _, j := range jobs {
		pi := all[j.path]
		if pi == nil {
			die("package %s not found", j.path)
		}
		p := load(pi, lookup)
		p.out, p.rel = j.out, j.rel
		p.collectMutated(mut)
		loaded = append(loaded, p)
	}
	for _, p := range loaded {
		os.MkdirAll(p.out, 0o755)
		for i, f := range p.files {
			p.mut = mut
			s := p.rewriteFile(f, p.src[i])
			if err := os.WriteFile(filepath.Join(p.out, filepath.Base(p.names[i])), []byte(s), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
}

type pkg struct {
	fset  *token.FileSet
	files []*ast.File
	names []string
	src   [][]byte
	info  *types.Info
	out   string
	rel   string
	mut   map[string]bool
	// per file
	cur     []byte
	base    int
	inList  map[ast.Stmt]bool
	capt    map[types.Object]bool
	labeled map[ast.Stmt]bool
	used    map[string]bool
	n       int
	skipRd  map[ast.Node]bool
}

func load(pi *pkgInfo, lookup func(string) (io.ReadCloser, error)) *pkg {
	p := &pkg{fset: token.NewFileSet()}
	for _, f := range pi.GoFiles {
		fn := filepath.Join(pi.Dir, f)
		b, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(p.fset, fn, b, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		p.files = append(p.files, af)
		p.names = append(p.names, fn)
		p.src = append(p.src, b)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(p.fset, "gc", lookup), Error: func(error) {}}
	if _, err := conf.Check(pi.ImportPath, p.fset, p.files, p.info); err != nil {
		die("typecheck %s: %v", pi.ImportPath, err)
	}
	return p
}

// ---------- which fields and variables change after initialisation ----------

func (p *pkg) fieldKey(se *ast.SelectorExpr) string {
	s := p.info.Selections[se]
	if s == nil || s.Kind() != types.FieldVal {
		return ""
	}
	v := s.Obj()
	pk := ""
	if v.Pkg() != nil {
		pk = v.Pkg().Path()
	}
	recv := s.Recv()
	for {
		if pt, ok := recv.(*types.Pointer); ok {
			recv = pt.Elem()
			continue
		}
		break
	}
	return pk + "." + v.Name()
}

func (p *pkg) collectMutated(mut map[string]bool) {
	for _, f := range p.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fresh := map[types.Object]bool{}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if x.Tok == token.DEFINE && len(x.Lhs) == len(x.Rhs) {
						for i, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok && isFresh(x.Rhs[i]) {
								fresh[p.info.Defs[id]] = true
							}
						}
					}
					for _, l := range x.Lhs {
						p.markMut(l, fresh, mut)
					}
				case *ast.IncDecStmt:
					p.markMut(x.X, fresh, mut)
				case *ast.RangeStmt:
					if x.Tok == token.ASSIGN {
						p.markMut(x.Key, fresh, mut)
						p.markMut(x.Value, fresh, mut)
					}
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						p.markMut(x.X, nil, mut)
					}
				}
				return true
			})
		}
	}
}

func isFresh(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		_, ok := x.X.(*ast.CompositeLit)
		return x.Op == token.AND && ok
	case *ast.CompositeLit:
		return true
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		return ok && id.Name == "new"
	}
	return false
}

func (p *pkg) markMut(e ast.Expr, fresh map[types.Object]bool, mut map[string]bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		p.markMut(x.X, fresh, mut)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && fresh != nil {
			if o := p.info.Uses[id]; o != nil && fresh[o] {
				return
			}
		}
		if k := p.fieldKey(x); k != "" {
			mut[k] = true
		} else if o := p.info.Uses[x.Sel]; o != nil {
			mut["var:"+o.Id()] = true
		}
	case *ast.IndexExpr:
		p.markMut(x.X, fresh, mut)
	case *ast.Ident:
		if o := p.info.Uses[x]; o != nil && o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			mut["var:"+o.Pkg().Path()+"."+o.Name()] = true
		}
	}
}

// capturedMut finds local variables assigned more than once and captured by a closure.
func (p *pkg) capturedMut(f *ast.File) map[types.Object]bool {
	assigned := map[types.Object]int{}
	captured := map[types.Object]bool{}
	var walk func(n ast.Node, lit *ast.FuncLit)
	walk = func(n ast.Node, lit *ast.FuncLit) {
		ast.Inspect(n, func(c ast.Node) bool {
			switch x := c.(type) {
			case *ast.FuncLit:
				if x != n {
					walk(x.Body, x)
					return false
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						if o := p.info.Uses[id]; o != nil {
							assigned[o]++
						}
					}
				}
			case *ast.IncDecStmt:
				if id, ok := x.X.(*ast.Ident); ok {
					if o := p.info.Uses[id]; o != nil {
						assigned[o]++
					}
				}
			case *ast.Ident:
				if o, ok := p.info.Uses[x].(*types.Var); ok && lit != nil && !o.IsField() {
					if o.Pos() < lit.Pos() || o.Pos() > lit.End() {
						captured[o] = true
					}
				}
			}
			return true
		})
	}
	walk(f, nil)
	r := map[types.Object]bool{}
	for o := range captured {
		if assigned[o] > 0 {
			r[o] = true
		}
	}
	return r
}

// ---------- rewriting ----------

func (p *pkg) rewriteFile(f *ast.File, src []byte) string {
	p.cur = src
	p.base = p.fset.File(f.Pos()).Base()
	p.inList = map[ast.Stmt]bool{}
	p.labeled = map[ast.Stmt]bool{}
	p.used = map[string]bool{}
	p.skipRd = map[ast.Node]bool{}
	p.capt = p.capturedMut(f)
	ast.Inspect(f, func(n ast.Node) bool {
		var l []ast.Stmt
		switch x := n.(type) {
		case *ast.BlockStmt:
			l = x.List
		case *ast.CaseClause:
			l = x.Body
		case *ast.CommClause:
			l = x.Body
		}
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
			default:
				p.inList[s] = true
			}
		}
		return true
	})
	var b strings.Builder
	end := f.Name.End()
	b.WriteString(string(src[:p.off(end)]))
	b.WriteString("\n\nimport vsched \"" + zz + "vsched\"\nvar _ = vsched.Y\n")
	body := p.spliceRange(f, end, token.Pos(p.base+len(src)))
	// imports must come first: emit shim imports right after the package clause
	var imp strings.Builder
	dummies := ""
	for path, r := range selRules {
		if r.shim != "vsched" && p.used[r.shim] {
			imp.WriteString("import " + r.shim + " \"" + zz + r.shim + "\"\n")
		}
		for _, is := range f.Imports {
			if strings.Trim(is.Path.Value, "\"") == path && p.used[r.shim] {
				name := filepath.Base(path)
				if is.Name != nil {
					name = is.Name.Name
				}
				dummies += fmt.Sprintf(r.dummy, name) + "\n"
			}
		}
	}
	head := string(src[:p.off(end)]) + "\n\nimport vsched \"" + zz + "vsched\"\n" + imp.String()
	return head + body + "\nvar _ = vsched.Y\n" + dummies
}

func (p *pkg) off(x token.Pos) int { return int(x) - p.base }

func children(n ast.Node) []ast.Node {
	var cs []ast.Node
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return c == n
		}
		cs = append(cs, c)
		return false
	})
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].Pos() < cs[j].Pos() })
	return cs
}

func (p *pkg) spliceRange(n ast.Node, from, to token.Pos) string {
	var b strings.Builder
	at := from
	for _, c := range children(n) {
		if c.Pos() < at || c.End() > to || c.Pos() == c.End() && !isEmptyable(c) {
			continue
		}
		b.Write(p.cur[p.off(at):p.off(c.Pos())])
		b.WriteString(p.txt(c))
		at = c.End()
	}
	b.Write(p.cur[p.off(at):p.off(to)])
	return b.String()
}

func isEmptyable(n ast.Node) bool { return false }

func (p *pkg) raw(n ast.Node) string { return string(p.cur[p.off(n.Pos()):p.off(n.End())]) }

func (p *pkg) dflt(n ast.Node) string { return p.spliceRange(n, n.Pos(), n.End()) }

func (p *pkg) fresh(s string) string { p.n++; return fmt.Sprintf("%s_v%d", s, p.n) }

func (p *pkg) txt(n ast.Node) string {
	if s, ok := n.(ast.Stmt); ok {
		t := p.stmt(s)
		if p.inList[s] {
			if ls, ok := s.(*ast.LabeledStmt); ok {
				_ = ls
				return t
			}
			if pre := p.prefix(s); pre != "" {
				return pre + t
			}
		}
		return t
	}
	if e, ok := n.(ast.Expr); ok {
		return p.expr(e)
	}
	if is, ok := n.(*ast.ImportSpec); ok {
		path := strings.Trim(is.Path.Value, "\"")
		t := wholeImports[path]
		if t == "" {
			t = depCopies[path]
		}
		if t != "" {
			name := filepath.Base(path)
			if is.Name != nil {
				name = is.Name.Name
			}
			return name + " \"" + t + "\""
		}
		return p.raw(n)
	}
	return p.dflt(n)
}

// prefix returns the scheduling point (and map read checks) to put before s.
func (p *pkg) prefix(s ast.Stmt) string {
	var hdr []ast.Node
	switch x := s.(type) {
	case *ast.IfStmt:
		if x.Init != nil {
			hdr = append(hdr, x.Init)
		}
		hdr = append(hdr, x.Cond)
	case *ast.ForStmt:
		if x.Init != nil {
			hdr = append(hdr, x.Init)
		}
	case *ast.RangeStmt:
		hdr = append(hdr, x.X)
	case *ast.SwitchStmt:
		if x.Init != nil {
			hdr = append(hdr, x.Init)
		}
		if x.Tag != nil {
			hdr = append(hdr, x.Tag)
		}
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				hdr = append(hdr, e)
			}
		}
	case *ast.TypeSwitchStmt:
		hdr = append(hdr, x.Assign)
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.SelectStmt, *ast.BranchStmt, *ast.EmptyStmt:
		return ""
	default:
		hdr = append(hdr, s)
	}
	pre := ""
	t := false
	for _, h := range hdr {
		if p.touches(h) {
			t = true
		}
		pre += p.mapReads(h)
	}
	if t || pre != "" {
		return "vsched.Y(); " + pre
	}
	return ""
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.BasicLit:
		return true
	}
	return false
}

func (p *pkg) isMap(e ast.Expr) bool {
	t := p.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (p *pkg) isChan(e ast.Expr) bool {
	t := p.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// mapReads returns the read checks for maps read directly in n.
func (p *pkg) mapReads(n ast.Node) string {
	s := ""
	lhs := map[ast.Expr]bool{}
	ast.Inspect(n, func(c ast.Node) bool {
		switch x := c.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				lhs[l] = true
			}
		case *ast.DeferStmt, *ast.GoStmt:
			return false
		case *ast.IndexExpr:
			if !lhs[x] && p.isMap(x.X) && pure(x.X) && p.sharedExpr(x.X) && !p.declaredIn(x.X, n) {
				s += "vsched.MapR(" + p.raw(x.X) + "); "
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" && len(x.Args) == 1 && p.isMap(x.Args[0]) && pure(x.Args[0]) && p.sharedExpr(x.Args[0]) && !p.declaredIn(x.Args[0], n) {
				s += "vsched.MapR(" + p.raw(x.Args[0]) + "); "
			}
		}
		return true
	})
	return s
}

// declaredIn reports whether the root identifier of e is declared inside n.
func (p *pkg) declaredIn(e ast.Expr, n ast.Node) bool {
	for {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			e = x.X
			continue
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.StarExpr:
			e = x.X
			continue
		case *ast.Ident:
			o := p.info.Uses[x]
			return o != nil && o.Pos() >= n.Pos() && o.Pos() < n.End()
		}
		return false
	}
}

// sharedExpr: e denotes memory that other goroutines may access (anything but a plain local).
func (p *pkg) sharedExpr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		o, ok := p.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		if p.capt[o] {
			return true
		}
		return o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
	case *ast.ParenExpr:
		return p.sharedExpr(x.X)
	case *ast.SelectorExpr:
		if p.info.Selections[x] != nil {
			// field of a local struct value is local
			if id, ok := x.X.(*ast.Ident); ok {
				if t := p.info.TypeOf(id); t != nil {
					if _, isS := t.Underlying().(*types.Struct); isS && !p.sharedExpr(id) {
						return false
					}
				}
			}
			return true
		}
		_, ok := p.info.Uses[x.Sel].(*types.Var)
		return ok
	case *ast.IndexExpr:
		if t := p.info.TypeOf(x.X); t != nil {
			if _, isA := t.Underlying().(*types.Array); isA {
				return p.sharedExpr(x.X)
			}
		}
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

// touches: evaluating n directly reads or writes shared mutable memory.
func (p *pkg) touches(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(c ast.Node) bool {
		if r {
			return false
		}
		switch x := c.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.DeferStmt:
			for _, a := range x.Call.Args {
				if p.touches(a) {
					r = true
				}
			}
			return false
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" && len(x.Args) == 1 && p.isChan(x.Args[0]) {
				r = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				// taking an address is not an access (indices inside may be)
				switch y := x.X.(type) {
				case *ast.SelectorExpr:
					if p.touches(y.X) {
						r = true
					}
					return false
				case *ast.CompositeLit:
					return true
				}
			}
		case *ast.SelectorExpr:
			if k := p.fieldKey(x); k != "" {
				if p.mut[k] && p.sharedExpr(x) && !isSyncType(p.info.TypeOf(x)) {
					r = true
				}
				return true
			}
			if v, ok := p.info.Uses[x.Sel].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && p.mut["var:"+v.Pkg().Path()+"."+v.Name()] {
				r = true
			}
		case *ast.IndexExpr:
			if t := p.info.TypeOf(x.X); t != nil {
				switch t.Underlying().(type) {
				case *types.Slice, *types.Map, *types.Array, *types.Pointer:
					if p.sharedExpr(x) && p.info.Types[x].IsValue() {
						r = true
					}
				}
			}
		case *ast.StarExpr:
			if p.info.Types[x].IsValue() {
				r = true
			}
		case *ast.Ident:
			if v, ok := p.info.Uses[x].(*types.Var); ok && !v.IsField() {
				if p.capt[v] {
					r = true
				} else if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && p.mut["var:"+v.Pkg().Path()+"."+v.Name()] {
					r = true
				}
			}
		}
		return !r
	})
	return r
}

func isSyncType(t types.Type) bool {
	for {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			continue
		}
		break
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		pp := n.Obj().Pkg().Path()
		return pp == "sync" || pp == "sync/atomic"
	}
	return false
}

func (p *pkg) stmt(s ast.Stmt) string {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		p.labeled[x.Stmt] = true
		lab := x.Label.Name + ":\n"
		switch x.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			return p.prefix(x.Stmt) + lab + p.stmt(x.Stmt)
		}
		pre := p.prefix(x.Stmt)
		if pre == "" {
			pre = "vsched.Y(); "
		}
		if _, ok := x.Stmt.(*ast.EmptyStmt); ok {
			return lab
		}
		return lab + pre + p.stmt(x.Stmt)
	case *ast.IfStmt:
		t := "if "
		if x.Init != nil {
			t += p.stmt(x.Init) + "; "
		}
		cond := p.expr(x.Cond)
		if x.Init != nil && p.touches(x.Cond) {
			cond = "vsched.T() && (" + cond + ")"
		}
		t += cond + " " + p.txt(x.Body)
		if x.Else != nil {
			if ei, ok := x.Else.(*ast.IfStmt); ok {
				t += " else { " + p.prefix(ei) + p.stmt(ei) + "\n}"
			} else {
				t += " else " + p.txt(x.Else)
			}
		}
		return t
	case *ast.ForStmt:
		t := "for "
		if x.Init != nil {
			t += p.stmt(x.Init)
		}
		body := p.txt(x.Body)
		if x.Cond != nil {
			if c := p.expr(x.Cond); p.touches(x.Cond) {
				t += "; vsched.T() && (" + c + ")"
			} else {
				t += "; " + c
			}
		} else {
			t += "; "
			if !strings.Contains(body, "vsched.") && !strings.Contains(body, "(") {
				body = "{ vsched.Y(); " + strings.TrimPrefix(body, "{")
			}
		}
		t += "; "
		if x.Post != nil {
			t += p.simple(x.Post)
		}
		return t + " " + body
	case *ast.RangeStmt:
		return p.rangeStmt(x)
	case *ast.GoStmt:
		return p.goStmt(x)
	case *ast.SendStmt:
		return "vsched.Send(" + p.expr(x.Chan) + ")(" + p.expr(x.Value) + ")"
	case *ast.SelectStmt:
		return p.selectStmt(x)
	case *ast.AssignStmt:
		if !p.inList[s] && !p.labeled[s] {
			return p.assignPlain(x)
		}
		return p.assign(x)
	case *ast.IncDecStmt:
		if !p.inList[s] && !p.labeled[s] {
			return p.dflt(x)
		}
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		return p.opAssign(x.X, op, "1", p.raw(x))
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			return p.call(c)
		}
		return p.dflt(x)
	}
	return p.dflt(s)
}

// simple statements in for-post position cannot be blocks
func (p *pkg) simple(s ast.Stmt) string { return p.stmt(s) }

func (p *pkg) assignPlain(x *ast.AssignStmt) string {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return p.expr(x.Lhs[0]) + ", " + p.expr(x.Lhs[1]) + " " + x.Tok.String() + " vsched.Recv2(" + p.expr(u.X) + ")"
		}
	}
	return p.dflt(x)
}

func (p *pkg) assign(x *ast.AssignStmt) string {
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		l, r := x.Lhs[0], x.Rhs[0]
		if ix, ok := l.(*ast.IndexExpr); ok && p.isMap(ix.X) {
			if x.Tok == token.ASSIGN {
				return "vsched.MapSet(" + p.expr(ix.X) + ")(" + p.expr(ix.Index) + ", " + p.expr(r) + ")"
			}
			op := strings.TrimSuffix(x.Tok.String(), "=")
			return "vsched.MapSet(" + p.expr(ix.X) + ")(" + p.expr(ix.Index) + ", " + p.expr(ix.X) + "[" + p.expr(ix.Index) + "] " + op + " (" + p.expr(r) + "))"
		}
		if x.Tok == token.ASSIGN {
			if p.sharedExpr(l) && p.touches(r) && p.splittable(l, r) {
				t := p.fresh("t")
				return "{ " + t + " := " + p.expr(r) + "; vsched.Y(); " + p.expr(l) + " = " + t + " }"
			}
		} else if x.Tok != token.DEFINE {
			op := strings.TrimSuffix(x.Tok.String(), "=")
			return p.opAssign(l, op, "("+p.expr(r)+")", "")
		}
	}
	return p.assignPlain(x)
}

func (p *pkg) splittable(l, r ast.Expr) bool {
	tl, tr := p.info.TypeOf(l), p.info.TypeOf(r)
	if tl == nil || tr == nil || !types.Identical(tl, tr) {
		return false
	}
	if p.info.Types[r].Value != nil || p.info.Types[r].IsNil() {
		return false
	}
	if b, ok := r.(*ast.BinaryExpr); ok {
		switch b.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ, token.LAND, token.LOR:
			bt, ok := tl.(*types.Basic)
			return ok && bt.Kind() == types.Bool
		}
	}
	if b, ok := tr.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	return true
}

func (p *pkg) opAssign(l ast.Expr, op, r, raw string) string {
	if ix, ok := l.(*ast.IndexExpr); ok && p.isMap(ix.X) {
		return "vsched.MapSet(" + p.expr(ix.X) + ")(" + p.expr(ix.Index) + ", " + p.expr(ix.X) + "[" + p.expr(ix.Index) + "] " + op + " " + r + ")"
	}
	if !p.sharedExpr(l) {
		return p.expr(l) + " " + op + "= " + r
	}
	a, t := p.fresh("p"), p.fresh("t")
	return "{ " + a + " := &" + p.expr(l) + "; " + t + " := *" + a + " " + op + " " + r + "; vsched.Y(); *" + a + " = " + t + " }"
}

func (p *pkg) rangeStmt(x *ast.RangeStmt) string {
	body := p.txt(x.Body)
	if p.isChan(x.X) {
		c, ok := p.fresh("c"), p.fresh("ok")
		k := "_"
		if x.Key != nil {
			k = p.expr(x.Key)
		}
		var rcv string
		if x.Tok == token.ASSIGN {
			rcv = "var " + ok + " bool; " + k + ", " + ok + " = vsched.Recv2(" + c + ")"
		} else {
			rcv = k + ", " + ok + " := vsched.Recv2(" + c + ")"
		}
		return "for " + c + " := " + p.expr(x.X) + "; ; { " + rcv + "; if !" + ok + " { break }; " + strings.TrimPrefix(body, "{")
	}
	kv := ""
	if x.Key != nil {
		kv = p.expr(x.Key)
		if x.Value != nil {
			kv += ", " + p.expr(x.Value)
		}
		kv += " " + x.Tok.String() + " "
	}
	rng := p.expr(x.X)
	if p.isMap(x.X) {
		if x.Key == nil {
			kv = "_, _ = "
		} else if x.Value == nil {
			kv = p.expr(x.Key) + ", _ " + x.Tok.String() + " "
		}
		rng = "vsched.RangeMap(" + rng + ")"
	}
	return "for " + kv + "range " + rng + " " + body
}

func (p *pkg) goStmt(x *ast.GoStmt) string {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return "vsched.Go(" + p.expr(fl) + ")"
	}
	pre := ""
	f := p.fresh("f")
	if id, ok := c.Fun.(*ast.Ident); ok && p.info.Types[c.Fun].IsBuiltin() {
		return "vsched.Go(func() { " + p.call(c) + " })" + id.Name[:0]
	}
	pre += f + " := " + p.expr(c.Fun) + "; "
	var as []string
	for _, a := range c.Args {
		tv := p.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			as = append(as, p.expr(a))
			continue
		}
		v := p.fresh("a")
		pre += v + " := " + p.expr(a) + "; "
		as = append(as, v)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	return "{ " + pre + "vsched.Go(func() { " + f + "(" + strings.Join(as, ", ") + ell + ") }) }"
}

func (p *pkg) selectStmt(x *ast.SelectStmt) string {
	var names, exprs []string
	var body strings.Builder
	hasDef := "false"
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			body.WriteString("default:\n")
		} else {
			nm := p.fresh("c")
			i := len(names)
			names = append(names, nm)
			bind := ""
			switch y := cc.Comm.(type) {
			case *ast.SendStmt:
				exprs = append(exprs, "vsched.CaseSend("+p.expr(y.Chan)+")("+p.expr(y.Value)+")")
			case *ast.ExprStmt:
				exprs = append(exprs, "vsched.CaseRecv("+p.expr(arrow(y.X))+")")
			case *ast.AssignStmt:
				exprs = append(exprs, "vsched.CaseRecv("+p.expr(arrow(y.Rhs[0]))+")")
				bind = p.expr(y.Lhs[0])
				vals := nm + ".V"
				if len(y.Lhs) == 2 {
					bind += ", " + p.expr(y.Lhs[1])
					vals += ", " + nm + ".OK"
				}
				bind += " " + y.Tok.String() + " " + vals + "\n"
			}
			fmt.Fprintf(&body, "case %d:\n%s", i, bind)
		}
		for _, s := range cc.Body {
			body.WriteString(p.txt(s) + "\n")
		}
	}
	if hasDef == "false" { // keeps a select that ends a function a terminating statement
		body.WriteString("default:\npanic(\"vsched: select\")\n")
	}
	init := ""
	if len(names) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(exprs, ", ") + "; "
	}
	args := hasDef
	for _, n := range names {
		args += ", " + n
	}
	return "switch " + init + "vsched.Select(" + args + ") {\n" + body.String() + "}"
}

func arrow(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			return x.X
		}
		return e
	}
}

func (p *pkg) call(c *ast.CallExpr) string {
	if id, ok := c.Fun.(*ast.Ident); ok && p.info.Types[c.Fun].IsBuiltin() {
		switch id.Name {
		case "close":
			return "vsched.Close(" + p.expr(c.Args[0]) + ")"
		case "delete":
			return "vsched.MapDel(" + p.expr(c.Args[0]) + ")(" + p.expr(c.Args[1]) + ")"
		case "clear":
			if p.isMap(c.Args[0]) {
				return "vsched.MapClear(" + p.expr(c.Args[0]) + ")"
			}
		}
	}
	return p.dflt(c)
}

func (p *pkg) expr(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return "vsched.Recv(" + p.expr(x.X) + ")"
		}
	case *ast.CallExpr:
		return p.call(x)
	case *ast.BinaryExpr:
		if (x.Op == token.LAND || x.Op == token.LOR) && p.touches(x.Y) {
			return p.expr(x.X) + " " + x.Op.String() + " (vsched.T() && (" + p.expr(x.Y) + "))"
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := p.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if r, ok := selRules[path]; ok && r.names[x.Sel.Name] && (path != "os" || osPkgs[p.rel]) {
					p.used[r.shim] = true
					return r.shim + "." + x.Sel.Name
				}
			}
		}
	}
	return p.dflt(e)
}
