package main

import (
	. "helena/verifsim/model"
	"strings"
)

// forms are the commands of the language with the kinds of their arguments:
// N a number, Q a boolean, S a string, L a list, D a dictionary, K a key, T a
// tuple, B a body, V a name, P a specification, M a command, X anything.
var forms = func() (out [][]string) {
	for _, l := range strings.Split(`idem X
return X
yield X
error S
break
continue
pass
eval B
eval T
set V X
set T T
let V X
get V
get V X
exists V
unset V
if Q B
if Q B else B
if Q B elseif Q B else B
if Q B else
if Q B elseif
if Q B elseif Q
if Q B elseif Q B elseif
when (Q B Q B B)
when M (Q B B)
while false B
while true {break}
loop {break}
loop V {break}
loop V L B
loop V V L B
loop V V L V D B
loop L V L B
loop T L B
catch B
catch B error V B
catch B return V B yield V B
catch B break B continue B
catch B finally B
catch B error
catch B error V
catch B yield V
catch B finally
catch B error T B
catch X
! Q
&& Q Q
|| Q Q
&& B B
+ N N
- N N
* N N
/ N N
+ N
- N
bool Q
bool Q subcommands
int N
int N subcommands
real N
real N subcommands
true
true ? X
true ? X X
true !? X
true !? X X
true subcommands
false
false ? X
false ? X X
false !? X
false !? X X
false subcommands
N
N + N
N - N * N
N == N
N < N
N >= N
N != N
N <= N
N subcommands
list L
list L length
list L at N
list L at N X
list L range N
list L range N N
list L append L L
list L remove N N
list L insert N L
list L replace N N L
list L sort
list L foreach V B
list L foreach V V B
list L foreach L V B
dict D foreach L V B
list L subcommands
list subcommands
dict D
dict D size
dict D has K
dict D get K
dict D get K X
dict D get T
dict D add K X
dict D remove K
dict D remove K K
dict D remove
dict D merge
dict D merge D
dict D merge D D
dict D keys
dict D values
dict D entries
dict D foreach T B
dict D foreach V B
dict D subcommands
string S
string S length
string S at N
string S at N X
string S range N
string S range N N
string S append S S
string S remove N N
string S insert N S
string S replace N N S
string S == S
string S != S
string S > S
string S <= S
string S subcommands
tuple T
tuple T length
tuple T at N
tuple T at N X
tuple T subcommands
script B
script T length
script B append B
script T split
script B subcommands
script [parse B]
script [parse K] length
argspec P
argspec P usage
argspec P set T
argspec P subcommands
proc P B
closure P B
macro P B
proc V P B
closure V P B
macro V P B
proc P (M B)
closure P (M B)
macro P (M B)
scope {B}
scope V {B}
namespace {B}
namespace V {B}
ensemble P {B}
ensemble V P {B}
coroutine B
alias V A
module B
module V B
import S
import S V
import S T
[closure P B]
[closure P B] argspec
[closure P B] subcommands
[proc P B] argspec
[proc P B] subcommands
[macro P B] argspec
[macro P B] subcommands
[scope B] eval B
[scope B] eval T
[scope B] call M N
[scope B] subcommands
[namespace B] eval B
[namespace B] eval T
[namespace B] call M N
[namespace B] import V
[namespace B] import V V
[namespace {proc zz1 () {idem 1}}] import zz1
[namespace {proc zz1 () {idem 1}}] import zz1 V
[namespace B] subcommands
[ensemble P B] eval B
[ensemble P B] eval T
[ensemble P B] call M N
[ensemble P B] argspec
[ensemble P B] subcommands
[alias V A]
[alias V A] command
[alias V A] subcommands
[coroutine B] wait
[coroutine B] active
[coroutine B] done
[coroutine B] yield X
[coroutine B] subcommands
[module B] exports
[module B] import V
[module B] import V V
[module {proc zz1 () {idem 1}; export zz1}] import zz1
[module {proc zz1 () {idem 1}; export zz1}] import zz1 V
[module {proc zz1 () {idem 1}; export zz1}] exports
[module B] subcommands
M
M N
M N N`, "\n") {
		out = append(out, strings.Fields(strings.NewReplacer("[", "[ ", "]", " ]", "(", "( ", ")", " )", "{", "{ ", "}", " }", ";", " ; ").Replace(l)))
	}
	return
}()

// misuse calls commands with arguments missing, added, or of other kinds, and
// shows what comes of it.
func (g *G) misuse(s *gs) []*Sentence {
	f := pick(g, forms)
	bad := g.N(4)
	var at int
	words := func(string) []*Word { return nil }
	arg := func(k string) *Word {
		if bad > 0 && g.Is(6) {
			bad--
			return g.odd(s)
		}
		if k == "parse" || k == "remove" {
			bad = 0
		}
		switch k {
		case "N":
			return pick(g, []*Word{g.Num(s, 3), lit("%d", g.N(4)), lit("-%d", g.N(4))})
		case "Q":
			return pick(g, []*Word{Lit("true"), Lit("false"), g.Cond(s, 3)})
		case "S":
			return g.Str(s, 3)
		case "L":
			return g.List(s, 3)
		case "D":
			return g.Dict(s, 3)
		case "K":
			return Lit(pick(g, []string{"p", "q", "nokey"}))
		case "T":
			return g.Tuple(s, 3)
		case "B":
			return BlkC(Cmd("emit", Lit(g.label())), Cmd("idem", g.Num(s, 3)))
		case "V":
			return Lit(pick(g, []string{"zz1", "zz2", "zz3"}))
		case "P":
			return Tup(pick(g, [][]*Word{{}, {Lit("zz4")}, {Lit("zz4"), Lit("?zz5")}, {Lit("*zz6")}, {Lit("-o"), Lit("zz4"), Lit("?zz5")}})...)
		case "M":
			return pick(g, []*Word{Lit("idem"), Lit("zz1"), Lit("zz2"), Lit("emit"), Tup(Lit("list")), Tup(Lit("emit"), Lit(g.label())), Lit("+")})
		case "A":
			return pick(g, []*Word{Lit("idem"), Lit("emit"), Tup(Lit("list")), Tup(Lit("emit"), Lit(g.label())), Lit("zz9")})
		case "X":
			return g.Any(s, 3)
		}
		return Lit(k)
	}
	words = func(end string) (out []*Word) {
		for at < len(f) && f[at] != end {
			k := f[at]
			at++
			switch k {
			case "[":
				out = append(out, Expr(Scr(Sen(words("]")...))))
				at++
				continue
			case "(":
				out = append(out, Tup(words(")")...))
				at++
				continue
			case "{":
				var sents []*Sentence
				var ws []*Word
				for _, w := range words("}") {
					if w.Kind == WLit && w.Text == ";" {
						sents, ws = append(sents, Sen(ws...)), nil
						continue
					}
					ws = append(ws, w)
				}
				at++
				if len(ws) > 0 {
					sents = append(sents, Sen(ws...))
				}
				out = append(out, Blk(Scr(sents...)))
				continue
			}
			if bad > 0 && len(out) > 0 && k != ";" && g.Is(8) {
				bad--
				continue
			}
			out = append(out, arg(k))
		}
		if bad > 0 && end == "" && g.Is(3) {
			bad--
			out = append(out, g.odd(s))
		}
		return
	}
	c := Sen(words("")...)
	if len(c.Words) == 0 {
		return nil
	}
	shown := Expr(Scr(c))
	switch f[len(f)-1] {
	case "subcommands", "exports", "keys":
		shown = ExprC("list", shown, Lit("sort"))
	case "entries", "values":
		shown = ExprC("list", shown, Lit("length"))
	}
	body := BlkC(Cmd("emit", Lit(g.label()), shown))
	ws := []*Word{body, Lit("return"), Lit("h"), BlkC(Cmd("emit", Lit("r"), Var("h"))), Lit("error"), Lit("h"), BlkC(Cmd("emit", Lit(g.label()), Var("h")))}
	if !s.loop {
		ws = append(ws, Lit("break"), BlkC(Cmd("emit", Lit("b"))), Lit("continue"), BlkC(Cmd("emit", Lit("c"))))
	}
	return []*Sentence{Cmd("catch", ws...)}
}

// odd is a word that is unlikely to be expected.
func (g *G) odd(s *gs) *Word {
	switch g.N(8) {
	case 0:
		return Lit("unexpected")
	case 1:
		return Tup()
	case 2:
		return Tup(Lit("zz7"), Tup(Lit("zz8"), g.Num(s, 3)))
	case 3:
		return BlkC(Cmd("idem", lit("%d", g.N(9))))
	case 4:
		return Expr(Scr())
	case 5:
		return Str(Lit(pick(g, []string{"", " ", "1 ", "a b"})))
	default:
		return g.Any(s, 3)
	}
}
