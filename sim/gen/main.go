// Command gen builds the overlay under which the code in /repo runs inside the
// simulator. It never changes /repo: it writes rewritten copies of the source
// files into a build directory, and an overlay file that maps them (and the
// simulator's own packages) over the repository's module.
//
// What it rewrites, by byte offset and without adding line breaks:
//
//   - imports of sync, os, fmt, maps, path/filepath, time, ... go to the
//     simulator's stand-ins (the seams for pools, locks, files, terminal, clock);
//   - ranges over maps take their order from the simulator;
//   - every statement, function body and loop turn is a scheduling point;
//   - go statements go through the simulator;
//   - package variables and init functions can be set up anew for each run.
//
// The rewriting works on the syntax tree and the types, so it follows whatever
// the current source looks like.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Module     *struct{ Path, Dir string }
}

var (
	repo  = flag.String("repo", "/repo/src", "module under test")
	sim   = flag.String("sim", "/verif/sim", "simulator sources")
	out   = flag.String("out", "/verif/build", "build directory")
	mod   = flag.String("modfile", "", "go.mod copy")
	plain = flag.Bool("plain", false, "no rewriting, only the simulator packages")
)

// stand-ins by import path
var standins = map[string]string{
	"sync":                         "simsync",
	"os":                           "simos",
	"fmt":                          "simfmt",
	"maps":                         "simmaps",
	"golang.org/x/exp/maps":        "simxmaps",
	"path/filepath":                "simfilepath",
	"io/ioutil":                    "simioutil",
	"time":                         "simtime",
	"math/rand":                    "simrand",
	"math/rand/v2":                 "simrand2",
	"github.com/ergochat/readline": "simreadline",
}

// Stand-ins completed with everything else the real package offers.
var completed = map[string]string{
	"simsync": "sync", "simos": "os", "simfmt": "fmt", "simmaps": "maps",
	"simfilepath": "path/filepath", "simioutil": "io/ioutil", "simtime": "time",
	"simrand": "math/rand", "simrand2": "math/rand/v2",
}

const root = "verifsim/"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gen: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	args := []string{"list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,Standard,GoFiles,Imports,Module"}
	if *mod != "" {
		args = append(args, "-modfile", *mod)
	}
	std := []string{}
	for _, real := range completed {
		std = append(std, real)
	}
	sort.Strings(std)
	args = append(append(args, "./..."), std...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	text, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*pkgInfo{}
	order := []*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(text))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	repl := map[string]string{}
	modPath := ""
	fset := token.NewFileSet()
	checked := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p := checked[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})
	for _, p := range order {
		if p.Module != nil && p.Module.Dir == *repo {
			modPath = p.Module.Path
		}
	}
	stats := map[string]int{}
	resetOrder := []string{}
	for _, p := range order {
		if p.Module == nil || p.Module.Dir != *repo || p.Name == "main" || strings.HasSuffix(p.ImportPath, "/benchmarks") ||
			strings.HasPrefix(p.ImportPath, modPath+"/"+root) {
			continue
		}
		files := []*ast.File{}
		names := []string{}
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, path, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			names = append(names, path)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("%v", err)
		}
		checked[p.ImportPath] = tp
		if *plain {
			continue
		}
		g := &gen{fset: fset, info: info, pkg: tp, stats: stats, mod: modPath}
		for i, f := range files {
			src, err := os.ReadFile(names[i])
			if err != nil {
				die("%v", err)
			}
			g.file(i, f, src, i == 0)
		}
		g.finish()
		resetOrder = append(resetOrder, p.ImportPath)
		for i := range files {
			dst := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+filepath.Base(names[i]))
			write(dst, g.texts[i])
			repl[names[i]] = dst
		}
	}
	// the simulator's packages
	ents, err := os.ReadDir(*sim)
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		if !e.IsDir() || e.Name() == "gen" {
			continue
		}
		dir := filepath.Join(*sim, e.Name())
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			repl[filepath.Join(*repo, root, e.Name(), filepath.Base(f))] = f
		}
		if real := completed[e.Name()]; real != "" {
			dst := filepath.Join(*out, "src", e.Name()+"_rest.go")
			write(dst, complete(dir, e.Name(), real, imp))
			repl[filepath.Join(*repo, root, e.Name(), "rest__.go")] = dst
		}
	}
	// what the harness links
	var b strings.Builder
	b.WriteString("package rt\n\nvar Packages = []string{\n")
	for _, p := range resetOrder {
		fmt.Fprintf(&b, "\t%q,\n", p)
	}
	b.WriteString("}\n")
	fmt.Fprintf(&b, "\nvar Points = %d\nvar MapRanges = %d\nvar Seams = %d\n", stats["points"], stats["ranges"], stats["imports"])
	dst := filepath.Join(*out, "src", "rt_packages.go")
	write(dst, []byte(b.String()))
	repl[filepath.Join(*repo, root, "rt", "packages__.go")] = dst
	js, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	write(filepath.Join(*out, "overlay.json"), js)
	ks := []string{}
	for k := range stats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("gen: %s=%d\n", k, stats[k])
	}
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func write(path string, data []byte) {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, data) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		die("%v", err)
	}
}

// complete re-exports from a stand-in everything it does not define itself.
func complete(dir, name, real string, imp types.Importer) []byte {
	fset := token.NewFileSet()
	own := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	pname := ""
	for _, f := range fs {
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			die("%v", err)
		}
		pname = af.Name.Name
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					own[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						own[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							own[n.Name] = true
						}
					}
				}
			}
		}
	}
	tp, err := imp.Import(real)
	if err != nil {
		die("%v", err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport real__ %q\n\nvar _ = real__.%s\n", pname, real, firstFunc(tp))
	for _, n := range tp.Scope().Names() {
		o := tp.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real__.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real__.%s\n", n, n)
		case *types.TypeName:
			if nt, is := o.Type().(*types.Named); is && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real__.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real__.%s\n", n, n)
		}
	}
	return []byte(b.String())
}
func firstFunc(tp *types.Package) string {
	for _, n := range tp.Scope().Names() {
		o := tp.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		if f, is := o.(*types.Func); is {
			if f.Type().(*types.Signature).TypeParams().Len() == 0 {
				return n
			}
			s := f.Type().(*types.Signature)
			_ = s
		}
	}
	// only generic functions: instantiate one well-known
	if tp.Path() == "maps" {
		return "Keys[map[int]int]"
	}
	die("nothing to refer to in %s", tp.Path())
	return ""
}

type edit struct {
	off  int
	end  int
	text string
	seq  int
}
type gen struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	mod   string
	stats map[string]int
	texts [][]byte
	// reset functions in order
	inits   []string
	fileOf  map[string]int
	edits   []edit
	used    bool
	base    int
	src     []byte
	tails   []string
	uinits  []string
	varFile map[types.Object]int
	specs   map[types.Object]valueSpec
}
type valueSpec struct {
	file int
	id   int
}

func (g *gen) off(p token.Pos) int { return g.fset.Position(p).Offset }
func (g *gen) ins(p token.Pos, s string) {
	g.edits = append(g.edits, edit{g.off(p), g.off(p), s, len(g.edits)})
}
func (g *gen) repl(p, e token.Pos, s string) {
	g.edits = append(g.edits, edit{g.off(p), g.off(e), s, len(g.edits)})
}

// apply gives the text of src[from:to] with the edits inside it.
func (g *gen) apply(from, to int) string {
	var b strings.Builder
	pos := from
	for _, e := range g.edits {
		if e.off < from || e.end > to || (e.off == to && e.end == to && to != len(g.src)) {
			continue
		}
		if e.off < pos {
			continue
		}
		b.Write(g.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(g.src[pos:to])
	return b.String()
}

func (g *gen) file(idx int, f *ast.File, src []byte, first bool) {
	g.edits = nil
	g.src = src
	g.used = false
	point := func(list []ast.Stmt) {
		for _, s := range list {
			if _, is := s.(*ast.EmptyStmt); is {
				continue
			}
			g.ins(s.Pos(), "rt__.P(); ")
			g.stats["points"]++
			g.used = true
		}
	}
	for _, d := range f.Decls {
		if fd, is := d.(*ast.FuncDecl); is && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
			n := fmt.Sprintf("rt__uinit_%d_%d", idx, len(g.uinits))
			g.repl(fd.Name.Pos(), fd.Name.End(), n)
			g.uinits = append(g.uinits, n)
		}
	}
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		st, has := standins[path]
		if !has {
			continue
		}
		if _, err := os.Stat(filepath.Join(*sim, st)); err != nil {
			continue
		}
		name := ""
		if is.Name == nil {
			name = path[strings.LastIndex(path, "/")+1:]
			if name == "v2" {
				name = "rand"
			}
			name += " "
		}
		g.repl(is.Path.Pos(), is.Path.End(), name+strconv.Quote(g.mod+"/"+root+st))
		g.stats["imports"]++
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil && len(x.Body.List) == 0 {
				return false
			}
		case *ast.BlockStmt:
			// the bodies of switch and select hold clauses, not statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			point(x.List)
		case *ast.CaseClause:
			point(x.Body)
		case *ast.CommClause:
			point(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				g.ins(x.Body.Lbrace+1, "rt__.P();")
				g.used = true
			}
		case *ast.GoStmt:
			g.stats["go statements"]++
			g.used = true
			g.repl(x.Go, x.Go+2, "rt__.Go(func() { ")
			g.ins(x.End(), " })")
		case *ast.RangeStmt:
			tv, has := g.info.Types[x.X]
			if has {
				if _, is := under(tv.Type).(*types.Map); is {
					g.stats["ranges"]++
					g.used = true
					g.ins(x.X.Pos(), "rt__.RangeMap(")
					g.ins(x.X.End(), ")")
				}
			}
		}
		return true
	})
	sort.SliceStable(g.edits, func(i, j int) bool {
		if g.edits[i].off != g.edits[j].off {
			return g.edits[i].off < g.edits[j].off
		}
		return g.edits[i].seq < g.edits[j].seq
	})
	// package variables
	var tail strings.Builder
	for _, d := range f.Decls {
		gd, is := d.(*ast.GenDecl)
		if !is || gd.Tok != token.VAR {
			continue
		}
		if embedded(gd.Doc) {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			if embedded(vs.Doc) {
				continue
			}
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					fn := fmt.Sprintf("rt__zero_%d_%d", idx, g.base)
					g.base++
					t := g.apply(g.off(vs.Type.Pos()), g.off(vs.Type.End()))
					fmt.Fprintf(&tail, "\nfunc %s() { var rt__z %s; %s = rt__z }", fn, t, n.Name)
					g.uinitZero(fn)
				}
				continue
			}
			if len(vs.Values) == len(vs.Names) {
				for i, n := range vs.Names {
					g.initFn(&tail, idx, n.Name, vs.Values[i], g.info.Defs[n])
				}
			} else {
				names := []string{}
				for _, n := range vs.Names {
					names = append(names, n.Name)
				}
				var o types.Object
				for _, n := range vs.Names {
					if x := g.info.Defs[n]; x != nil {
						o = x
					}
				}
				g.initFn(&tail, idx, strings.Join(names, ", "), vs.Values[0], o)
			}
		}
	}
	g.tails = append(g.tails, tail.String())
	g.stats["files"]++
	// package line
	body := g.apply(0, len(src))
	// the package clause keeps its place: insert after the name
	end := g.off(f.Name.End())
	add := ""
	if g.used || first {
		add = "; import rt__ " + strconv.Quote(g.mod+"/"+root+"rt")
	}
	// no edit precedes the package clause, so the offset is unchanged
	body = body[:end] + add + body[end:]
	if !strings.HasSuffix(body, "\n") {
		body += "\n"
	}
	g.texts = append(g.texts, []byte(body))
}

var zeros = map[*gen][]string{}

func (g *gen) uinitZero(fn string) { zeros[g] = append(zeros[g], fn) }

var fnOf = map[*gen]map[ast.Expr]string{}

func (g *gen) initFn(tail *strings.Builder, idx int, names string, val ast.Expr, _ types.Object) {
	fn := fmt.Sprintf("rt__init_%d_%d", idx, g.base)
	g.base++
	fmt.Fprintf(tail, "\nfunc %s() { %s = %s }", fn, names, strings.TrimSpace(g.apply(g.off(val.Pos()), g.off(val.End()))))
	if fnOf[g] == nil {
		fnOf[g] = map[ast.Expr]string{}
	}
	fnOf[g][val] = fn
}

func (g *gen) finish() {
	order := []string{}
	seen := map[string]bool{}
	for _, in := range initOrder(g) {
		if fn := fnOf[g][in]; fn != "" && !seen[fn] {
			seen[fn] = true
			order = append(order, fn)
		}
	}
	rest := []string{}
	for _, fn := range fnOf[g] {
		if !seen[fn] {
			rest = append(rest, fn)
		}
	}
	sort.Strings(rest)
	order = append(append(append([]string{}, zeros[g]...), order...), rest...)
	order = append(order, g.uinits...)
	var b strings.Builder
	b.WriteString("\nfunc rt__reset() {")
	for _, fn := range order {
		b.WriteString(" " + fn + "();")
	}
	b.WriteString(" }\nfunc init() { rt__.Register(" + strconv.Quote(g.pkg.Path()) + ", rt__reset)")
	for _, u := range g.uinits {
		b.WriteString("; " + u + "()")
	}
	b.WriteString(" }\n")
	for i := range g.texts {
		g.texts[i] = append(g.texts[i], g.tails[i]...)
		if i == 0 {
			g.texts[i] = append(g.texts[i], b.String()...)
		}
		g.texts[i] = append(g.texts[i], '\n')
	}
	g.stats["package variables"] += len(order) - len(g.uinits)
}

func initOrder(g *gen) []ast.Expr {
	out := []ast.Expr{}
	for _, i := range g.info.InitOrder {
		out = append(out, i.Rhs)
	}
	return out
}
func under(t types.Type) types.Type {
	if tp, is := t.(*types.TypeParam); is {
		return tp.Constraint().Underlying()
	}
	return t.Underlying()
}
func embedded(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}
