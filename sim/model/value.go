package model

import (
	"sort"
	"strconv"
	"strings"
)

type Value interface{}
type Nil struct{}
type Bool bool
type Int int64
type Real float64
type String string
type List struct{ V []Value }
type Dict struct{ M map[string]Value }
type Tuple struct{ V []Value }
type Block struct {
	S   *Script
	Src *string // nil: made by a command
}
type CmdV struct{ C *Command }
type SpecV struct{ A *Argspec }
type QualV struct {
	Src  Value
	Sels []QSel
}
type QSel struct {
	Key bool
	V   []Value
}

type Code int

const (
	OK Code = iota
	RETURN
	YIELD
	ERROR
	BREAK
	CONTINUE
	PASS
)

func (c Code) String() string {
	return [...]string{"ok", "return", "yield", "error", "break", "continue", "pass"}[c]
}

// Level of an error trace
type Level struct {
	Args      []Value
	Line, Col int
	File      string
	Unknown   bool // arguments not predicted
	NoPos     bool
	AnyPos    bool // position not predicted
}
type Res struct {
	Code  Code
	V     Value
	Trace []Level
}

func ok(v Value) Res        { return Res{Code: OK, V: v} }
func fail(m string) Res     { return Res{Code: ERROR, V: String(m)} }
func (r Res) isErr() bool   { return r.Code == ERROR }
func okb(b bool) Res        { return ok(Bool(b)) }
func arity(sig string) Res  { return fail(`wrong # args: should be "` + sig + `"`) }
func unexpected(c Code) Res { return fail("unexpected " + c.String()) }

// toStr converts a value to its string form, if it has one.
func toStr(v Value) (string, bool) {
	switch x := v.(type) {
	case String:
		return string(x), true
	case Bool:
		if x {
			return "true", true
		}
		return "false", true
	case Int:
		return strconv.FormatInt(int64(x), 10), true
	case Real:
		return strconv.FormatFloat(float64(x), 'g', -1, 64), true
	case Block:
		if x.Src != nil {
			return *x.Src, true
		}
	}
	return "", false
}

const noStr = "value has no string representation"

func toBool(v Value) (bool, Res) {
	if b, is := v.(Bool); is {
		return bool(b), ok(Nil{})
	}
	s, is := toStr(v)
	if !is {
		return false, fail(noStr)
	}
	switch s {
	case "true":
		return true, ok(Nil{})
	case "false":
		return false, ok(Nil{})
	}
	return false, fail(`invalid boolean "` + s + `"`)
}
func toFloat(v Value) (float64, Res) {
	switch x := v.(type) {
	case Int:
		return float64(x), ok(Nil{})
	case Real:
		return float64(x), ok(Nil{})
	}
	s, is := toStr(v)
	if !is {
		return 0, fail(noStr)
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || s == "" {
		return 0, fail(`invalid number "` + s + `"`)
	}
	return f, ok(Nil{})
}
func toInt(v Value) (int64, Res) {
	if x, is := v.(Int); is {
		return int64(x), ok(Nil{})
	}
	s, is := toStr(v)
	if !is {
		return 0, fail(noStr)
	}
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, fail(`invalid integer "` + s + `"`)
	}
	return i, ok(Nil{})
}
func num(f float64) Value {
	if f == float64(int64(f)) {
		return Int(int64(f))
	}
	return Real(f)
}
func isNumStr(s string) bool {
	if s == "" {
		return false
	}
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

// Show is the canonical display used to compare model and real values.
// Dictionary entries are sorted because dictionaries are unordered.
func Show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case Nil:
		return "nil"
	case Bool:
		if x {
			return "b:true"
		}
		return "b:false"
	case Int:
		return "i:" + strconv.FormatInt(int64(x), 10)
	case Real:
		return "r:" + strconv.FormatFloat(float64(x), 'g', -1, 64)
	case String:
		return strconv.Quote(string(x))
	case List:
		return "L[" + ShowAll(x.V) + "]"
	case Tuple:
		return "(" + ShowAll(x.V) + ")"
	case Dict:
		ks := make([]string, 0, len(x.M))
		for k := range x.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		p := []string{}
		for _, k := range ks {
			p = append(p, strconv.Quote(k)+"="+Show(x.M[k]))
		}
		return "D{" + strings.Join(p, " ") + "}"
	case Block:
		return "{script}"
	case CmdV:
		return "<command>"
	case SpecV:
		return "<argspec>"
	case QualV:
		return "<qualified>"
	case Native:
		return "<custom>"
	}
	return "?"
}
func ShowAll(vs []Value) string {
	p := make([]string, len(vs))
	for i, v := range vs {
		p[i] = Show(v)
	}
	return strings.Join(p, " ")
}
