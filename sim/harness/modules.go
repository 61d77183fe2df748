package main

import (
	"fmt"
	"helena/verifsim/model"
	"helena/verifsim/rt"
	simos "helena/verifsim/simos"
	"io/fs"
	"path"
	"strings"
	"syscall"

	. "helena/verifsim/model"
)

// Simulated module files, with faults. Each side (model, real) reads them
// through a view of its own, and both are given the same faults at the same
// reads and the same changes at the same points.

type fileKind int

const (
	fGood fileKind = iota
	fGone
	fDenied
	fIO
	fDir
	fTorn    // cut inside a word group: rejected
	fCut     // cut between sentences: a shorter script
	fCorrupt // a stray closing bracket: rejected
	fEmpty
	nFileKinds
)

var fileKindNames = [...]string{"intact", "missing", "permission denied", "I/O error", "a directory", "torn", "cut short", "corrupted", "empty"}

type modFile struct {
	path  string
	dir   string
	ver   []*model.Script // versions of the content
	text  []string
	names []string // exports
}
type fileState struct {
	kind fileKind
	ver  int
	at   int // where it is cut
}
type disk struct {
	r      *Run
	files  map[string]*modFile
	m, s   map[string]fileState // state seen by the model and the real side
	nm, ns map[string]int       // reads so far
	memo   map[string]fileState
	rate   int // one read in so many is faulty (0: none)
	reads  int
}

func newDisk(r *Run) *disk {
	return &disk{r: r, files: map[string]*modFile{}, m: map[string]fileState{}, s: map[string]fileState{},
		nm: map[string]int{}, ns: map[string]int{}, memo: map[string]fileState{}}
}

// drawState draws a faulty state of a file.
func (d *disk) drawState(f *modFile) fileState {
	st := fileState{kind: fileKind(1 + d.r.C.N(rt.Fault, int(nFileKinds)-1)), ver: d.r.C.N(rt.Fault, len(f.ver))}
	st.at = d.r.C.N(rt.Fault, len(f.text[st.ver]))
	return st
}

// read decides the state a read finds: the same for both sides.
func (d *disk) read(f *modFile, st fileState, n int) fileState {
	if d.rate == 0 {
		return st
	}
	key := fmt.Sprintf("%s#%d", f.path, n)
	x, is := d.memo[key]
	if !is {
		x.kind = -1
		if d.r.C.Is(rt.Fault, d.rate) {
			x = d.drawState(f)
			if x.kind == fGone || x.kind == fDir {
				x.kind = fIO
			}
			x.ver = st.ver
			d.r.count("fault: read finds the file " + fileKindNames[x.kind])
			d.r.logf("    fault: read %d of %s finds it %s", n, f.path, fileKindNames[x.kind])
		}
		d.memo[key] = x
	}
	if x.kind < 0 || st.kind != fGood {
		return st
	}
	if x.at >= len(f.text[x.ver]) {
		x.at = 0
	}
	return x
}

// cutAt gives the sentences wholly before a position, and the position of the
// end of the last of them.
func cutAt(s *model.Script, text string, at int) int {
	n := 0
	off := offsets(text)
	for i, t := range s.Sents {
		if i > 0 && off[t.Line]+t.Col <= at {
			n = i
		}
	}
	return n
}
func offsets(text string) []int {
	out := []int{0}
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			out = append(out, i+1)
		}
	}
	return out
}

// content is what a read of a file in a state delivers: data or an error, and
// what it means to the model.
func (d *disk) content(f *modFile, st fileState) (data []byte, err error, sc *model.Script, msg string) {
	text, script := f.text[st.ver], f.ver[st.ver]
	reading := func(e error) (data []byte, err error, sc *model.Script, msg string) {
		op := "open"
		if e == syscall.EISDIR {
			op = "read"
		}
		return nil, e, nil, "error reading module: " + (&fs.PathError{Op: op, Path: f.path, Err: e}).Error()
	}
	switch st.kind {
	case fGone:
		return reading(syscall.ENOENT)
	case fDenied:
		return reading(syscall.EACCES)
	case fIO:
		return reading(syscall.EIO)
	case fDir:
		return reading(syscall.EISDIR)
	case fEmpty:
		return []byte{}, nil, &model.Script{}, ""
	case fCut:
		n := cutAt(script, text, st.at)
		off := offsets(text)
		end := off[script.Sents[n].Line] + script.Sents[n].Col
		return []byte(text[:end]), nil, &model.Script{Sents: script.Sents[:n]}, ""
	case fTorn:
		// just after an opening bracket: something is always left open
		at := -1
		for i := 0; i < len(text); i++ {
			if strings.IndexByte("{([", text[i]) >= 0 && (at < 0 || i <= st.at) {
				at = i
			}
		}
		if at < 0 {
			break
		}
		t := text[:at+1]
		return []byte(t), nil, nil, parserSays(t)
	case fCorrupt:
		off := offsets(text)
		s := script.Sents[cutAt(script, text, st.at)]
		at := off[s.Line] + s.Col
		t := text[:at] + string("}])"[st.at%3]) + text[at:]
		return []byte(t), nil, nil, parserSays(t)
	}
	return []byte(text), nil, script, ""
}

// parserSays is the parser's message about a text it has to reject.
func parserSays(t string) string {
	p := parse(t, false, "")
	if p.Success {
		return "(the text is accepted)"
	}
	return p.Message
}

// ReadFile is the model's read.
func (d *disk) ReadFile(p string) (*model.Script, string) {
	f := d.files[p]
	if f == nil {
		return nil, "error reading module: open " + p + ": no such file or directory"
	}
	d.nm[p]++
	_, _, sc, msg := d.content(f, d.read(f, d.m[p], d.nm[p]))
	return sc, msg
}

// fault is the real side's read.
func (d *disk) fault(op, p string, data []byte) ([]byte, error) {
	f := d.files[p]
	if f == nil {
		return data, nil
	}
	d.ns[p]++
	d.reads++
	x, err, _, _ := d.content(f, d.read(f, d.s[p], d.ns[p]))
	return x, err
}

// change puts a file into another state, on both sides or on one.
func (d *disk) change(p string, st fileState, m, s bool) {
	if m {
		d.m[p] = st
	}
	if s {
		d.s[p] = st
	}
}

// graph is a set of module files.
type graph struct {
	r    *Run
	d    *disk
	mods []*modFile
	n    int
	env  map[string]func(m, s bool) // changes of the disk while scripts run
	tick bool
	bad  bool // modules export commands that fail
}

// from gives a path of a module as written in a file of a directory.
func (g *graph) from(dir string, m *modFile) string {
	up := 0
	rel := ""
	for d := dir; ; d = path.Dir(d) {
		if d == "/sim" || strings.HasPrefix(m.path, d+"/") {
			rel = strings.TrimPrefix(m.path, d+"/")
			break
		}
		up++
	}
	rel = strings.Repeat("../", up) + rel
	switch g.r.N(8) {
	case 0:
		rel = "./" + rel
	case 1:
		rel = "lib/../" + rel
	case 2:
		rel = path.Base(dir) + "/../" + rel
	case 3:
		rel = ".//" + rel
	}
	return rel
}
func (g *graph) label() string { g.n++; return fmt.Sprintf("L%d", g.n) }

// imp is an import of a module, some calls to what it gives, or both.
func (g *graph) imp(dir string, m *modFile, top bool) []*Sentence {
	r := g.r
	i := strings.TrimSuffix(path.Base(m.path), ".lna")
	p := Lit(g.from(dir, m))
	inc, get := "inc"+i, "get"+i
	var out []*Sentence
	add := func(s ...*Sentence) { out = append(out, s...) }
	use := func(c string) *Sentence { return Cmd("emit", Lit(g.label()), ExprC(c)) }
	switch r.N(7) {
	case 0:
		add(Cmd("import", p))
	case 1:
		add(Cmd("import", p, Lit("m"+i)), Cmd("m"+i, Lit("import"), Lit(inc)), use(inc))
	case 2:
		add(Cmd("import", p, Tup(Lit(inc), Tup(Lit(get), Lit("x"+get)))), use(inc), use("x"+get))
	case 3:
		add(Cmd("import", p, ExprC("list", Tup(Lit(inc)))), use(inc))
	case 4:
		add(Cmd("import", p, Blk(Scr(Sen(Lit(inc), Lit(get))))), use(inc), use(get))
	case 5:
		add(Cmd("set", Lit("h"), ExprC("import", p)), Sen(Expr(Scr(Sen(Var("h")))), Lit("import"), Lit(inc), Lit("y"+inc)), use("y"+inc))
	case 6:
		add(Cmd("import", p, Tup(Lit(inc), Lit("missing"))), use(inc))
	}
	if g.bad && r.Is(2) {
		b := "bad" + i
		if r.Is(2) {
			add(Cmd("import", p, Tup(Lit(b))), Cmd("emit", Lit(g.label())), Cmd(b))
		} else {
			add(Cmd("import", p, Lit("m"+i)), Cmd("m"+i, Lit("import"), Lit(b), Lit("x"+b)), use("x"+b))
		}
	}
	switch r.N(4) {
	case 0, 1:
		// answered
		out = []*Sentence{Cmd("emit", Lit("R"), Lit(g.label()), ExprC("catch", Blk(Scr(out...)), Lit("error"), Lit("msg"), BlkC(Cmd("emit", Lit("failed"), Var("msg")))))}
	case 2:
		if top {
			out = []*Sentence{Cmd("catch", Blk(Scr(out...)), Lit("finally"), BlkC(Cmd("emit", Lit(g.label()))))}
		}
	}
	if r.Is(6) {
		out = append(out, Cmd("catch", BlkC(Cmd("emit", ExprC("list", ExprC("list", Tup(ExprC("import", p))), Lit("length")))), Lit("error"), Lit("msg"), BlkC(Cmd("emit", Lit("again"), Var("msg")))))
	}
	return out
}

func (g *graph) fault(in bool) []*Sentence {
	r := g.r
	switch {
	case g.tick && r.Is(3):
		return []*Sentence{Cmd("emit", Lit(g.label()), ExprC("tick", Lit(g.label()), Lit("0")))}
	case g.tick && r.Is(4):
		l := g.label()
		m := g.mods[r.N(len(g.mods))]
		st := g.d.drawState(m)
		if r.C.Is(rt.Fault, 2) {
			st = fileState{ver: st.ver}
		}
		g.env[l] = func(x, s bool) {
			if s {
				r.count("fault: file changed while scripts run: " + fileKindNames[st.kind])
			}
			g.d.change(m.path, st, x, s)
		}
		return []*Sentence{Cmd("env", Lit(l))}
	}
	return nil
}

// body is a version of a module's content.
func (g *graph) body(m *modFile, k, ver int, deps []*modFile) *model.Script {
	r := g.r
	i := strings.TrimSuffix(path.Base(m.path), ".lna")
	s := &model.Script{}
	add := func(t ...*Sentence) { s.Sents = append(s.Sents, t...) }
	add(Cmd("import", Lit("host"), Tup(Lit("emit"), Lit("tick"), Lit("steps"), Lit("env"))))
	add(Cmd("emit", Lit("load"), Lit(i), lit("%d", ver)))
	early := r.Is(2)
	exports := func() {
		add(Cmd("set", Lit("count"), lit("%d", 100*k)))
		// closures share the state of the module
		add(Cmd("closure", Lit("inc"+i), Tup(), BlkC(Cmd("set", Lit("count"), Expr(Scr(Sen(Var("count"), Lit("+"), Lit("1"))))), Cmd("idem", Var("count")))))
		add(Cmd("export", Lit("inc"+i)))
		if r.Is(3) && len(deps) > 0 {
			// imports when it is called
			d := deps[r.N(len(deps))]
			b := g.imp(m.dir, d, false)
			add(Cmd("closure", Lit("get"+i), Tup(), Blk(Scr(append(b, Cmd("idem", Var("count")))...))))
		} else {
			add(Cmd("closure", Lit("get"+i), Tup(), BlkC(Cmd("idem", Var("count")))))
		}
		add(Cmd("export", Lit("get"+i)))
	}
	if g.bad {
		// fails where it is called
		b := []*Sentence{Cmd("emit", Lit(g.label())), Cmd("error", Str(Lit("bad "+i)))}
		if g.tick {
			b[0] = Cmd("tick", Lit(g.label()), Lit("0"))
		}
		if r.Is(3) {
			b[1] = Cmd("nothing"+i, Lit("a"))
		}
		if r.Is(3) {
			b = []*Sentence{Cmd("if", Lit("true"), Blk(Scr(b...)))}
		}
		add(Cmd("set", Lit("count"), lit("%d", 100*k)))
		add(Cmd([]string{"closure", "proc", "macro"}[r.N(3)], Lit("bad"+i), Tup(Lit("?x")), Blk(Scr(b...))), Cmd("export", Lit("bad"+i)))
	}
	if early {
		exports()
	}
	add(g.fault(true)...)
	for _, d := range deps {
		add(g.imp(m.dir, d, false)...)
		if r.Is(3) {
			add(g.fault(true)...)
		}
	}
	if !early {
		exports()
	}
	add(g.fault(true)...)
	if r.Is(8) {
		add(Cmd("import", Lit(g.from(m.dir, m)))) // itself
	}
	if r.Is(5) {
		add(Cmd("export", Lit("nothing")))
	}
	add(Cmd("emit", Lit("loaded"), Lit(i)))
	return s
}

// moduleRun is the simulation of P09 and P10.
func moduleRun(r *Run, faulty bool) *Violation {
	prof := TickProfile{OK: 1}
	if faulty {
		prof = TickProfile{OK: 8, Yield: 2, Error: 4, Return: 1, Break: 1, Continue: 1}
	}
	if r.P.ID == "P14" || r.Is(4) {
		r.Ctl.Maps = rt.Shuffled
	}
	p := NewPair(r, prof, r.P.ID == "P16" || r.Is(4), false)
	defer p.m.Close()
	d := newDisk(r)
	p.w.disk = d
	g := &graph{r: r, d: d, env: map[string]func(m, s bool){}, tick: faulty, bad: r.P.ID == "P16" || r.Is(4)}
	dirs := []string{"/sim", "/sim/lib", "/sim/lib/sub", "/sim/opt"}
	n := 2 + r.N(5)
	for i := 0; i < n; i++ {
		dir := dirs[r.N(len(dirs))]
		name := fmt.Sprintf("m%d", i)
		if r.Is(3) {
			name += ".lna"
		}
		if i > 0 && r.Is(6) {
			// the same name in another directory
			dir = dirs[(r.N(3)+1)%4]
			name = path.Base(g.mods[i-1].path)
			if d.files[dir+"/"+name] != nil {
				name = fmt.Sprintf("m%d", i)
			}
		}
		m := &modFile{path: dir + "/" + name, dir: dir}
		if d.files[m.path] != nil {
			continue
		}
		d.files[m.path] = m
		g.mods = append(g.mods, m)
	}
	p.w.onEnv = func(l string) {
		if f := g.env[l]; f != nil {
			f(false, true)
		}
	}
	p.h.onEnv = func(l string) {
		if f := g.env[l]; f != nil {
			f(true, false)
		}
	}
	// files first, so that faults drawn for their text can be
	for _, m := range g.mods {
		for v := 0; v < 1+r.N(2); v++ {
			m.ver = append(m.ver, nil)
			m.text = append(m.text, "x")
		}
	}
	for k, m := range g.mods {
		for v := range m.ver {
			var deps []*modFile
			for j, o := range g.mods {
				// mostly acyclic
				if o != m && (j > k && r.Is(2) || j < k && r.Is(8)) {
					deps = append(deps, o)
				}
			}
			if len(deps) > 1 && r.Is(2) {
				deps[0], deps[1] = deps[1], deps[0]
			}
			s := g.body(m, k+1, v, deps).Clone()
			m.ver[v], m.text[v] = s, model.Render(s, model.Style{Newlines: true, File: m.path})
			r.logf("%s version %d:\n%s", m.path, v, indent(m.text[v]))
		}
		simos.S.Files[m.path] = &simos.Node{Data: []byte("x")}
	}
	simos.S.Fault = d.fault
	// the simulated disk answers for every state
	if faulty {
		if r.Is(2) {
			d.rate = 3 + r.N(8)
		}
		for _, m := range g.mods {
			if r.C.Is(rt.Fault, 4) {
				st := d.drawState(m)
				d.change(m.path, st, true, true)
				r.logf("%s is %s", m.path, fileKindNames[st.kind])
				r.count("fault: file " + fileKindNames[st.kind] + " from the start")
			}
		}
	}
	free := func() *Violation {
		for _, m := range g.mods {
			if p.s.Reg.IsReserved(m.path) {
				return fail("left behind", "%s is still being loaded, although no import is in progress", m.path)
			}
			if p.s.Reg.IsRegistered(m.path) != p.m.Loaded(m.path) {
				return fail("registered", "%s: registered is %v, expected %v", m.path, p.s.Reg.IsRegistered(m.path), p.m.Loaded(m.path))
			}
		}
		return nil
	}
	id := 0
	step := func(s *model.Script) *Violation {
		id++
		a, v := p.Start(id, s)
		if v != nil {
			return v
		}
		for k := 0; !a.done && k < 20; k++ {
			if v := p.Step(a, nil); v != nil {
				return v
			}
			if v := free(); v != nil {
				return v
			}
		}
		return nil
	}
	script := func() *model.Script {
		s := &model.Script{}
		for k, n := 0, 1+r.N(3); k < n; k++ {
			m := g.mods[r.N(len(g.mods))]
			b := g.imp("/sim", m, true)
			switch r.N(8) {
			case 0:
				// a module without a file
				x := fmt.Sprintf("mem%d", g.n)
				in := append([]*Sentence{Cmd("import", Lit("host"), Tup(Lit("emit"), Lit("tick"), Lit("steps"), Lit("env"))), Cmd("emit", Lit("load"), Lit(x))}, b...)
				in = append(in, Cmd("export", Lit("inc"+strings.TrimSuffix(path.Base(m.path), ".lna"))))
				b = []*Sentence{Cmd("module", Lit(x), Blk(Scr(in...))), Cmd(x, Lit("import"), Lit("inc"+strings.TrimSuffix(path.Base(m.path), ".lna")))}
			case 1:
				b = []*Sentence{Cmd("proc", Lit("loader"), Tup(), Blk(Scr(b...))), Cmd("loader")}
			case 2:
				b = []*Sentence{Cmd("scope", Blk(Scr(b...)))}
			case 3:
				b = []*Sentence{Cmd("set", Lit("co"), ExprC("coroutine", Blk(Scr(append([]*Sentence{Cmd("yield", Lit("1"))}, b...)...)))),
					Sen(ExprC("idem", Var("co")), Lit("wait")), Sen(ExprC("idem", Var("co")), Lit("wait"))}
			}
			s.Sents = append(s.Sents, b...)
			if r.Is(3) {
				s.Sents = append(s.Sents, g.fault(false)...)
			}
		}
		s.Sents = append(s.Sents, Cmd("emit", Lit("end")))
		return s
	}
	for k, n := 0, 3+r.N(5); k < n; k++ {
		if faulty && r.C.Is(rt.Fault, 2) {
			m := g.mods[r.C.N(rt.Fault, len(g.mods))]
			st := fileState{ver: r.C.N(rt.Fault, len(m.ver))}
			if r.C.Is(rt.Fault, 2) {
				st = d.drawState(m)
			}
			d.change(m.path, st, true, true)
			r.count("fault: file changed between scripts: " + fileKindNames[st.kind])
			r.logf("%s is now %s (version %d)", m.path, fileKindNames[st.kind], st.ver)
		}
		if v := step(script()); v != nil {
			return v
		}
	}
	// the causes are gone: everything loads
	p.w.prof = TickProfile{OK: 1}
	d.rate = 0
	p.w.memo = map[string][]model.Outcome{}
	p.h.n, p.s.n = map[string]int{}, map[string]int{}
	g.env = nil
	g.tick = false
	for _, m := range g.mods {
		d.change(m.path, fileState{ver: d.s[m.path].ver}, true, true)
	}
	r.logf("faults end")
	if faulty {
		for _, m := range g.mods {
			if v := step(Scr(Cmd("import", Lit(strings.TrimPrefix(m.path, "/sim/"))), Cmd("emit", Lit("whole")))); v != nil {
				return v
			}
		}
	}
	if d.reads > 1 {
		r.Nontrivial = true
	}
	r.Stats["module files read"] += int64(d.reads)
	return nil
}

func init() {
	real := "helena_dialect (module registry, import, and all else), core parser and compiler"
	stub := "file system (os, path), sync.Pool, map enumeration; host commands emit, tick, env"
	register(&Prop{ID: "P09", Quick: 12000, Deep: 400000, Real: real, Stub: stub,
		Rule: "runs with a different sequence of step outcomes, counting only runs that read more than one module file",
		Run:  func(r *Run) *Violation { return moduleRun(r, false) }})
	register(&Prop{ID: "P10", Quick: 12000, Deep: 400000, Real: real, Stub: stub,
		Rule: "runs with a different sequence of step outcomes, counting only runs that read more than one module file",
		Run:  func(r *Run) *Violation { return moduleRun(r, true) }})
}
