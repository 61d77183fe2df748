// Package model is an independent, deliberately small reference model of the
// Helena dialect: its own syntax tree, its own tree-walking interpreter with
// stackful coroutines, and nothing taken from the code under test.
package model

import "strings"

// Syntax tree. Programs are generated as trees and rendered to text for the
// real interpreter, so the model does not depend on the real parser.

type Script struct{ Sents []*Sentence }

type Sentence struct {
	Words     []*Word
	Line, Col int // position in the rendered text (0-based)
	NoPos     bool
	File      string
}

type WKind int

const (
	WLit  WKind = iota // bare literal
	WVar               // $name with selectors
	WExpr              // [script] with selectors (prefixed by $ when selected or expanded)
	WBlk               // {script}
	WTup               // (words)
	WStr               // "interpolated"
	WCmp               // compound of literals and substitutions
	WQual              // name with selectors, unresolved
	WVal               // a value (in scripts made from tuples)
	WTVar              // $(a b) tuple substitution
	WBad               // a word that means nothing
	WRaw               // text standing for a value, in a string
	WHere              // """text"""
	WTag               // ""TAG text TAG""
)

type Sel struct {
	Key bool
	Sub *Script // index script, or keys
}

type Word struct {
	Kind   WKind
	Text   string
	Sub    *Script
	Parts  []*Word
	Sel    []Sel
	Val    Value   // of a WVal
	Src    *string // text of a WBlk
	Expand bool
	Lev    int  // further $
	Brace  bool // ${name}
	Multi  bool // render blocks over several lines
}

func Lit(s string) *Word          { return &Word{Kind: WLit, Text: s} }
func Var(s string) *Word          { return &Word{Kind: WVar, Text: s} }
func Expr(s *Script) *Word        { return &Word{Kind: WExpr, Sub: s} }
func Blk(s *Script) *Word         { return &Word{Kind: WBlk, Sub: s} }
func Tup(ws ...*Word) *Word       { return &Word{Kind: WTup, Sub: &Script{[]*Sentence{{Words: ws}}}} }
func Str(ps ...*Word) *Word       { return &Word{Kind: WStr, Parts: ps} }
func Cmp(ps ...*Word) *Word       { return &Word{Kind: WCmp, Parts: ps} }
func Sen(ws ...*Word) *Sentence   { return &Sentence{Words: ws} }
func Scr(ss ...*Sentence) *Script { return &Script{ss} }
func Cmd(n string, a ...*Word) *Sentence {
	return &Sentence{Words: append([]*Word{Lit(n)}, a...)}
}
func ExprC(n string, a ...*Word) *Word { return Expr(Scr(Cmd(n, a...))) }
func BlkC(ss ...*Sentence) *Word       { return Blk(Scr(ss...)) }

type Style struct {
	Newlines bool // separate sentences with newlines instead of semicolons
	File     string
	Gap      func(depth int) string // between words
	Sep      func(depth int) string // between sentences
}

type renderer struct {
	b         strings.Builder
	line, col int
	depth     int
	quoted    bool
	style     Style
}

func (r *renderer) w(s string) {
	for _, c := range s {
		if c == '\n' {
			r.line++
			r.col = 0
		} else {
			r.col++
		}
	}
	r.b.WriteString(s)
}
func (r *renderer) script(s *Script) {
	for i, t := range s.Sents {
		if i > 0 {
			if r.style.Sep != nil && !r.quoted {
				r.w(r.style.Sep(r.depth))
			} else if r.style.Newlines {
				r.w("\n")
			} else {
				r.w("; ")
			}
		}
		r.sentence(t)
	}
}
func (r *renderer) sentence(t *Sentence) {
	t.Line, t.Col, t.File = r.line, r.col, r.style.File
	for i, w := range t.Words {
		if i > 0 {
			if r.style.Gap != nil && !r.quoted {
				r.w(r.style.Gap(r.depth))
			} else {
				r.w(" ")
			}
		}
		r.word(w)
	}
}
func (r *renderer) sels(ss []Sel) {
	for _, s := range ss {
		if s.Key {
			r.w("(")
			r.script(s.Sub)
			r.w(")")
		} else {
			r.w("[")
			r.script(s.Sub)
			r.w("]")
		}
	}
}
func (r *renderer) word(w *Word) {
	r.depth++
	defer func() { r.depth-- }()
	switch w.Kind {
	case WLit, WBad, WRaw:
		r.w(w.Text)
	case WVar:
		r.w("$")
		if w.Expand {
			r.w("*")
		}
		r.w(strings.Repeat("$", w.Lev))
		if w.Brace {
			r.w("{" + w.Text + "}")
		} else {
			r.w(w.Text)
		}
		r.sels(w.Sel)
	case WTVar:
		r.w("$")
		if w.Expand {
			r.w("*")
		}
		r.w(strings.Repeat("$", w.Lev))
		r.w("(")
		r.script(w.Sub)
		r.w(")")
		r.sels(w.Sel)
	case WQual:
		if w.Sub != nil {
			r.w("(")
			r.script(w.Sub)
			r.w(")")
		} else {
			r.w(w.Text)
		}
		r.sels(w.Sel)
	case WHere:
		r.w(`"""` + w.Text + `"""`)
	case WTag:
		r.w("\"\"END\n" + w.Text + "\nEND\"\"")
	case WExpr:
		if w.Expand {
			r.w("$*")
		} else if len(w.Sel) > 0 || w.Lev > 0 {
			r.w("$")
		}
		r.w(strings.Repeat("$", w.Lev))
		r.w("[")
		r.script(w.Sub)
		r.w("]")
		r.sels(w.Sel)
	case WBlk:
		r.w("{")
		from := r.b.Len()
		if w.Multi && r.style.Newlines {
			r.w("\n")
			r.script(w.Sub)
			r.w("\n")
		} else {
			r.script(w.Sub)
		}
		src := r.b.String()[from:]
		if strings.Contains(src, "\\\n") {
			// a continued line reads as a space
			t, _ := lex(src)
			src = ""
			for _, k := range t {
				src += k.lit
			}
		}
		w.Src = &src
		r.w("}")
	case WTup:
		r.w("(")
		r.script(w.Sub)
		r.w(")")
	case WStr:
		q := r.quoted
		r.quoted = true
		r.w(`"`)
		for _, p := range w.Parts {
			r.word(p)
		}
		r.quoted = q
		r.w(`"`)
	case WCmp:
		for _, p := range w.Parts {
			r.word(p)
		}
	}
}

// Render gives the text of a script and records the positions of its sentences.
func Render(s *Script, st Style) string {
	r := &renderer{style: st}
	r.script(s)
	return r.b.String()
}

// Words counts the words of a script, recursively.
func (s *Script) Count() int {
	n := 0
	for _, t := range s.Sents {
		for _, w := range t.Words {
			n += w.Count()
		}
	}
	return n
}
func (w *Word) Count() int {
	n := 1
	if w.Sub != nil {
		n += w.Sub.Count()
	}
	for _, p := range w.Parts {
		n += p.Count()
	}
	for _, s := range w.Sel {
		n += s.Sub.Count()
	}
	return n
}

// Clone copies a script, so that no part of it is shared: each sentence has a
// position of its own.
func (s *Script) Clone() *Script {
	if s == nil {
		return nil
	}
	out := &Script{}
	for _, t := range s.Sents {
		u := *t
		u.Words = cloneWords(t.Words)
		out.Sents = append(out.Sents, &u)
	}
	return out
}
func cloneWords(ws []*Word) []*Word {
	out := make([]*Word, len(ws))
	for i, w := range ws {
		x := *w
		x.Sub = w.Sub.Clone()
		x.Parts = cloneWords(w.Parts)
		x.Sel = append([]Sel{}, w.Sel...)
		for j := range x.Sel {
			x.Sel[j].Sub = x.Sel[j].Sub.Clone()
		}
		out[i] = &x
	}
	return out
}
