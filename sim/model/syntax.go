package model

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Reference reader of script texts: which texts are scripts, which are
// rejected, and which lack an end; and what a script consists of.

type Status int

const (
	Accepted Status = iota
	Incomplete
	Rejected
)

func (s Status) String() string { return [...]string{"accepted", "incomplete", "rejected"}[s] }

type At struct{ Line, Col int }

type SNode struct {
	Kind byte // L literal, T tuple, B block, E expression, S string, H here-string, G tagged string, C line comment, D block comment, $ substitution
	Val  string
	N    int
	Tag  string
	Exp  bool
	Sub  *SScript
	Kids []*SNode
}
type SWord struct {
	M  []*SNode
	At At
}
type SSent struct {
	Words []*SWord
	At    At
}
type SScript struct{ Sents []*SSent }

type token struct {
	k        byte // ' ', '\n', '\\' continuation, 't', 'e', '#', '(', ')', '{', '}', '[', ']', '"', '$', ';', '*'
	at       At
	seq, lit string
}

func blank(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\f' }

// lex divides a text. odd reports an escaped byte outside ASCII.
func lex(src string) (out []token, odd bool) {
	at := At{}
	i := 0
	take := func(k byte, n int, lit string) {
		out = append(out, token{k, at, src[i : i+n], lit})
		for _, c := range []byte(src[i : i+n]) {
			if c == '\n' {
				at.Line++
				at.Col = 0
			} else {
				at.Col++
			}
		}
		i += n
	}
	run := func(from int, is func(c byte) bool, most int) int {
		n := 0
		for from+n < len(src) && n < most && is(src[from+n]) {
			n++
		}
		return n
	}
	const many = 1 << 30
	hex := func(c byte) bool { return strings.IndexByte("0123456789abcdefABCDEF", c) >= 0 }
	number := func(s string, base rune) string {
		var v rune
		for _, c := range []byte(s) {
			v = v*base + rune(strings.IndexByte("0123456789abcdef", c|0x20))
			if c <= '9' {
				v += rune(c-'0') - rune(strings.IndexByte("0123456789abcdef", c|0x20))
			}
		}
		return string(v)
	}
	for i < len(src) {
		c := src[i]
		switch {
		case blank(c):
			n := run(i, blank, many)
			take(' ', n, src[i:i+n])
		case c == '\n':
			take('\n', 1, "\n")
		case c == '\\' && i+1 == len(src):
			take('t', 1, "\\")
		case c == '\\':
			e := src[i+1]
			switch {
			case e == '\n':
				take('\\', 2+run(i+2, blank, many), " ")
			case strings.IndexByte("abfnrtv\\", e) >= 0:
				take('e', 2, string("\a\b\f\n\r\t\v\\"[strings.IndexByte("abfnrtv\\", e)]))
			case e >= '0' && e <= '7':
				n := run(i+1, func(c byte) bool { return c >= '0' && c <= '7' }, 3)
				take('e', 1+n, number(src[i+1:i+1+n], 8))
			case e == 'x' || e == 'u' || e == 'U':
				n := run(i+2, hex, map[byte]int{'x': 2, 'u': 4, 'U': 8}[e])
				if n == 0 {
					take('e', 2, string(e))
				} else {
					take('e', 2+n, number(src[i+2:i+2+n], 16))
				}
			default:
				if e >= utf8.RuneSelf {
					odd = true
				}
				take('e', 2, string(e))
			}
		case c == '#' || c == '"':
			n := run(i, func(x byte) bool { return x == c }, many)
			take(c, n, src[i:i+n])
		case strings.IndexByte("(){}[]$;*", c) >= 0:
			take(c, 1, string(c))
		default:
			n := run(i, func(c byte) bool { return !blank(c) && strings.IndexByte("\n\\#\"(){}[]$;*", c) < 0 }, many)
			take('t', n, src[i:i+n])
		}
	}
	return out, odd
}

type reader struct {
	t []token
	i int
}
type stop struct{ s Status }

// Read reads a text.
func Read(src string) (s *SScript, st Status, odd bool) {
	ts, odd := lex(src)
	r := &reader{t: ts}
	defer func() {
		if x := recover(); x != nil {
			e, is := x.(stop)
			if !is {
				panic(x)
			}
			s, st = nil, e.s
		}
	}()
	return r.script(0), Accepted, odd
}
func (r *reader) peek() byte {
	if r.i < len(r.t) {
		return r.t[r.i].k
	}
	return 0
}
func (r *reader) next() token {
	if r.i >= len(r.t) {
		panic(stop{Incomplete})
	}
	r.i++
	return r.t[r.i-1]
}

// substitution state of a sequence of morphemes
const (
	plain = iota
	wantSource
	wantSelector
)

type seq struct {
	m    []*SNode
	mode int
}

func (q *seq) last() *SNode {
	if len(q.m) == 0 {
		return nil
	}
	return q.m[len(q.m)-1]
}
func (q *seq) went() { // after a source or selector
	if q.mode == wantSource {
		q.mode = wantSelector
	} else {
		q.mode = plain
	}
}
func (q *seq) literal(v string) {
	if l := q.last(); l != nil && l.Kind == 'L' && q.mode == plain {
		l.Val += v
		return
	}
	q.m = append(q.m, &SNode{Kind: 'L', Val: v})
	q.went()
}

// settle turns substitution signs without a source into text.
func (q *seq) settle() {
	if q.mode != wantSource {
		return
	}
	q.mode = plain
	v := ""
	for l := q.last(); l != nil && l.Kind == '$'; l = q.last() {
		v = l.Val + v
		q.m = q.m[:len(q.m)-1]
	}
	q.literal(v)
}
func (r *reader) dollar(q *seq) {
	n := &SNode{Kind: '$', Val: "$"}
	if r.peek() == '*' {
		r.next()
		n.Val = "$*"
		n.Exp = q.last() == nil || q.last().Kind != '$'
	}
	q.m = append(q.m, n)
	q.mode = wantSource
}
func (r *reader) group(q *seq, k byte) {
	switch k {
	case '(':
		q.m = append(q.m, &SNode{Kind: 'T', Sub: r.script(')')})
		if q.mode == wantSource {
			q.mode = wantSelector
		}
	case '{':
		from := r.i
		s := r.script('}')
		v := ""
		for _, t := range r.t[from : r.i-1] {
			v += t.lit
		}
		q.m = append(q.m, &SNode{Kind: 'B', Sub: s, Val: v})
		if q.mode == wantSource {
			q.mode = wantSelector
		}
	case '[':
		q.m = append(q.m, &SNode{Kind: 'E', Sub: r.script(']')})
		q.went()
	}
}

func (r *reader) script(until byte) *SScript {
	out := &SScript{}
	var sent *SSent
	var word *SWord
	var q *seq
	endWord := func() {
		if word != nil {
			q.settle()
			word.M = q.m
			word = nil
		}
	}
	endSent := func() { endWord(); sent = nil }
	for {
		if until == 0 && r.i >= len(r.t) {
			endSent()
			return out
		}
		t := r.next()
		begins := false
		switch t.k {
		case ')', '}', ']':
			if t.k != until {
				panic(stop{Rejected})
			}
			endSent()
			return out
		case ' ', '\\':
			endWord()
			continue
		case '\n', ';':
			endSent()
			continue
		case '#':
			if word != nil && q.mode == wantSource {
				panic(stop{Rejected})
			}
		case '"':
			if word != nil {
				panic(stop{Rejected})
			}
		}
		if word == nil {
			begins = true
			if sent == nil {
				sent = &SSent{At: t.at}
				out.Sents = append(out.Sents, sent)
			}
			word = &SWord{At: t.at}
			q = &seq{}
			sent.Words = append(sent.Words, word)
		}
		switch t.k {
		case 't', 'e', '*':
			q.literal(t.lit)
		case '$':
			r.dollar(q)
		case '(', '{', '[':
			r.group(q, t.k)
		case '#':
			switch {
			case !begins:
				q.literal(t.lit)
			case r.peek() == '{':
				r.next()
				q.m = append(q.m, &SNode{Kind: 'D', N: len(t.lit), Val: r.remark(len(t.lit))})
			default:
				v := ""
				for r.i < len(r.t) && r.peek() != '\n' {
					v += r.next().lit
				}
				q.m = append(q.m, &SNode{Kind: 'C', N: len(t.lit), Val: v})
			}
		case '"':
			q.m = append(q.m, r.str(len(t.lit)))
		}
	}
}

// remark reads a block comment.
func (r *reader) remark(n int) string {
	v, depth := "", 1
	for {
		t := r.next()
		switch {
		case t.k == '#' && len(t.lit) == n && r.peek() == '{':
			depth++
		case t.k == '}' && r.peek() == '#' && len(r.t[r.i].lit) == n:
			depth--
			if depth == 0 {
				r.next()
				return v
			}
		}
		v += t.seq
	}
}

func (r *reader) str(n int) *SNode {
	switch {
	case n == 1:
		q := &seq{}
		for {
			t := r.next()
			if q.mode == wantSource && t.k != 't' && t.k != '$' && t.k != '{' && t.k != '[' {
				q.settle()
			}
			switch {
			case t.k == '"' && len(t.lit) == 1:
				q.settle()
				return &SNode{Kind: 'S', Kids: q.m}
			case t.k == '"':
				panic(stop{Rejected})
			case t.k == '$':
				r.dollar(q)
			case t.k == '[', (t.k == '(' || t.k == '{') && q.mode != plain:
				r.group(q, t.k)
			default:
				q.literal(t.lit)
			}
		}
	case n == 2 && r.peek() == 't':
		tag := r.t[r.i].lit
		for r.i < len(r.t) && r.next().k != '\n' {
		}
		v := ""
		for {
			t := r.next()
			if t.k == 't' && t.lit == tag && r.peek() == '"' && len(r.t[r.i].lit) == 2 {
				r.next()
				break
			}
			v += t.seq
		}
		lines := strings.SplitAfter(v, "\n")
		indent := len(lines[len(lines)-1])
		w := ""
		for _, l := range lines {
			body := strings.TrimSuffix(l, "\n")
			w += body[min(indent, len(body)):]
			if len(body) < len(l) {
				w += "\n"
			}
		}
		return &SNode{Kind: 'G', Tag: tag, Val: w}
	case n == 2:
		return &SNode{Kind: 'S'}
	}
	v := ""
	for {
		t := r.next()
		if t.k == '"' && len(t.lit) == n {
			return &SNode{Kind: 'H', N: n, Val: v}
		}
		v += t.seq
	}
}

// Sound reports whether every word is one the language knows, in everything
// compiled together with the script (all but its blocks).
func (s *SScript) Sound() bool {
	for _, t := range s.Sents {
		for _, w := range t.Words {
			if !w.sound() {
				return false
			}
		}
	}
	return true
}
func (w *SWord) sound() bool {
	m := w.M
	for _, n := range m {
		if n.Kind == 'T' || n.Kind == 'E' {
			if !n.Sub.Sound() {
				return false
			}
		}
		if n.Kind == 'S' {
			for i, k := range n.Kids {
				sel := i > 0 && n.Kids[i-1].Kind != '$' && k.Kind == 'B'
				if k.Sub != nil && (k.Kind != 'B' || sel) && !k.Sub.Sound() {
					return false
				}
			}
		}
	}
	selector := func(n *SNode) bool { return n.Kind == 'T' || n.Kind == 'B' || n.Kind == 'E' }
	// blocks used as selectors are compiled
	for i := 1; i < len(m); i++ {
		if m[i].Kind == 'B' && m[i-1].Kind != '$' && !m[i].Sub.Sound() {
			return false
		}
	}
	qualified := func() bool {
		for _, n := range m[1:] {
			if !selector(n) {
				return false
			}
		}
		return true
	}
	stems := func() bool {
		count, tuples := 0, false
		for i := 0; i < len(m); {
			switch m[i].Kind {
			case 'L', 'E':
				count++
				i++
			case '$':
				count++
				for i < len(m) && m[i].Kind == '$' {
					i++
				}
				if i == len(m) {
					return true
				}
				switch m[i].Kind {
				case 'T':
					tuples = true
				case 'L', 'B', 'E':
				default:
					return false
				}
				i++
				for i < len(m) && selector(m[i]) {
					i++
				}
			default:
				return false
			}
		}
		return !(tuples && count > 1)
	}
	switch m[0].Kind {
	case 'L':
		return qualified() || stems()
	case 'E', '$':
		return stems()
	case 'T', 'B':
		return qualified()
	}
	return len(m) == 1
}

// String displays a script in full.
func (s *SScript) String() string {
	var b strings.Builder
	s.show(&b)
	return b.String()
}
func (s *SScript) show(b *strings.Builder) {
	b.WriteString("<")
	for _, t := range s.Sents {
		fmt.Fprintf(b, "@%d:%d", t.At.Line, t.At.Col)
		for _, w := range t.Words {
			fmt.Fprintf(b, " %d:%d", w.At.Line, w.At.Col)
			for _, n := range w.M {
				n.show(b)
			}
		}
		b.WriteString(";")
	}
	b.WriteString(">")
}
func (n *SNode) show(b *strings.Builder) {
	switch n.Kind {
	case 'L', 'H', 'G', 'C', 'D':
		fmt.Fprintf(b, " %c%d%s%q", n.Kind, n.N, n.Tag, n.Val)
	case 'T', 'E':
		fmt.Fprintf(b, " %c", n.Kind)
		n.Sub.show(b)
	case 'B':
		fmt.Fprintf(b, " B%q", n.Val)
		n.Sub.show(b)
	case 'S':
		b.WriteString(" S(")
		for _, k := range n.Kids {
			k.show(b)
		}
		b.WriteString(")")
	case '$':
		fmt.Fprintf(b, " %s%t", n.Val, n.Exp)
	}
}
