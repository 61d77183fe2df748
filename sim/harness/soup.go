package main

import (
	"fmt"
	"strings"
)

// Soup writes scripts of arbitrary commands with arbitrary arguments: most make
// sense, many do not. The model does not follow them; they are compared with
// other executions of the same script, or only have to be survived.
type Soup struct {
	r      *Run
	labels int
	left   int  // sentences left
	Order  bool // results may depend on the order of unordered collections
	Wild   int  // once in so many arguments one of another kind
	Regexp bool // native regular expressions
	CLI    bool // commands of the command line tool
	Mods   []string
	pre    string // prefix of command and variable names
	noTick bool
}

func NewSoup(r *Run) *Soup { return &Soup{r: r, left: 40, Order: true, Wild: 14} }

func (u *Soup) N(n int) int   { return u.r.N(n) }
func (u *Soup) Is(n int) bool { return u.r.Is(n) }

// templates of sentences; words of one capital letter are classes of arguments
var soupTemplates = strings.Split(strings.TrimSpace(`
emit X
emit X X
emit [tick L X]
tick L X
idem X
set V X
set (V V) T
set (V (V V)) ((X X) (X X))
set (V V) (X X)
let V X
let W X
let (W W) (X X)
get V
get V X
get (V V) (X X)
exists V
unset V
unset (V V)
+ N N N
- N N
* N N
/ N N
N + N * N
N - N / N
N == N
N > N
+ N
bool K
bool K ! 
bool K ? X X
K ? X X
! K
&& K K K
|| K K K
&& K {emit L; K} K
int N
int N + N
real N
real N * N
int X
string S length
string S at N
string S at N X
string S range N N
string S range N
string S append S S
string S remove N N
string S insert N S
string S replace N N S
string S == S
string S > S
string S < S
list Q length
list Q at N
list Q at N X
list Q range N N
list Q range N
list Q append Q Q
list Q remove N N
list Q insert N Q
list Q replace N N Q
list Q sort
list (9 3 7 1) sort {a b {idem [$a > $b]}}
list (N N N) sort P
list (N N) sort X
list Q foreach V {emit L $V; S1}
list (X X X) foreach V {emit L $V; S1}
list (X X X) foreach i V {emit L $i $V; S1}
list ((X X) (X X)) foreach (V V) {S1; S1}
list Q
dict D size
dict D has k
dict D get k
dict D get k X
dict D get (k j) (X X)
dict D get (k j)
dict D add k X
dict D remove k j
dict D merge D D
dict D keys
dict D values
dict D entries
dict D foreach (V V) {emit L $V; S1}
dict D foreach i (V V) {emit L $i $V; S1}
list [dict D keys] sort
list [dict D values] length
loop i V D {emit $V; S1}
dict (k X j X) get j
tuple T length
tuple T at N
tuple (X X X) at 1
tuple T at N X
script B length
script B append B B
script B split
script T append B
list [script B split] length
parse "S1"
eval [parse {S1}]
eval B
eval T
eval [script {S1} append {S1}]
eval X
if K B
if K B else B
if K B elseif K B else B
if B B
if K X else X
when {K B K B B}
when C {X B B}
when {N ==} {N B B}
when (N >) {N B N B}
loop i {emit L $i; if [$i > 1] {break}; S1}
loop i V (X X X) {emit L $V; S1}
loop i V (X X X) v2 (X X) {emit L $V $v2; S1}
loop i V B1 {emit $V; if [$i > 2] {break}}
set w 0; while {$w < 3} {set w [$w + 1]; S1}
while K {S1; break}
catch B
catch B return V B
catch B error V B
catch B yield V B
catch B error V {emit L $V; S1} finally B
catch B break B continue B
catch B finally B
catch B return V {emit $V; pass} finally B
catch {tick L X} return V {idem $V} error V {idem $V} yield V {idem $V} break {S1}
return X
yield X
yield
error S
break
continue
pass
proc C A B
closure C A B
macro C A B
set V [proc A B]
set V [closure A B]
set V [macro A B]
proc C (V V) {emit L $V; S1; return X}
closure C (V) {emit L $V; S1; idem X}
macro C (V) {emit L $V; S1; idem X}
proc C () {S1; yield X; S1}
scope C {S1; proc C A B; let V X; S1}
scope C {set V X; S1}
set V [scope B]
C eval B
C call C X
C eval {get V}
namespace C {proc C A B; set V X; S1}
namespace C {S1; macro C (V) {idem $V}}
set V [namespace B]
C call C
C import C
C import C C
C C X
ensemble C {V} {proc C {V V} {idem X}; S1}
ensemble C {V V} {macro C {V V V} {idem X}}
ensemble C () {proc C () {S1}}
set V [ensemble {V} B]
C X C X
C X subcommands
[C] eval B
[C] call C X X
[C] subcommands
C subcommands
[list] eval {macro C {V} {idem $V}}; list Q C
[dict] eval {macro C {V V} {idem $V}}; dict D C X
[string] eval {macro C {V} {S1}}; string S C
[list] subcommands
list Q C X
set V [coroutine B]
set V [coroutine {emit L; yield X; S1; yield X; S1}]
set V [coroutine {loop i {yield $i; if [$i > 2] {return X}}}]
[$V] wait
[$V] active
[$V] done
[$V] yield X
[$V] call X
[$V] eval B
[$V] subcommands
[$V] X
$V
$V wait
[coroutine B] wait
alias C C
alias C (C X)
alias C (idem)
alias C {S1}
set V [alias C C]
C
C X
C X X
C X X X
C $*[X]
$*(C X) X
(C X) X
[[C]] X
set V [argspec A]
argspec A usage
argspec A set T
[argspec A] set (X X)
argspec A len
help C
help C X X
help Z
help Z X X
help list Q C
steps N
keep X
idem $V
idem $V(k)
idem $[idem X](k)
idem $V[N]
idem $Q[N]
idem $D(k)
idem $(V V)
idem $D(k j)
idem $$V
idem "a${V}b[X]c$V"
idem a[N]b
idem a[N]b$V
idem """S $V"""
idem V(k)[N]
set q V(k)
^ 
X; ^
emit [X] ; |> idem
idem X; |> emit X
list Q; |> list length
module C {export C; proc C A B; S1}
module C {export C; let V X; proc C () {S1; idem $V}}
C exports
C import C
C import C C
set V [module {export C; macro C () B}]
[$V] import C
[$V] exports
C eval C
export C
eval {S1; S1}
eval {emit L; S1; S1}
# comment S1
#{ block comment }#; emit L
`), "\n")

var soupCLI = []string{
	"import go:regexp R", "import go:regexp (R)", "regexp QuoteMeta S", "set rx [regexp Compile S]", "set rx [regexp Compile (a+)b]", "set rx [regexp CompilePOSIX S]",
	"regexp FindAllString $rx S N", "regexp FindAllStringIndex $rx S N", "regexp FindAllStringSubmatch $rx S N", "regexp FindAllStringSubmatchIndex $rx S N",
	"regexp FindString $rx S", "regexp FindStringIndex $rx S", "regexp FindStringSubmatch $rx S", "regexp FindStringSubmatchIndex $rx S", "regexp LiteralPrefix $rx",
	"regexp Longest $rx", "regexp MatchString $rx S", "regexp NumSubexp $rx", "regexp ReplaceAllLiteralString $rx S S", "regexp ReplaceAllString $rx S S",
	"regexp ReplaceAllStringFunc $rx S {m {idem $m}}", "regexp Split $rx S N", "regexp String $rx", "regexp SubexpIndex $rx S", "regexp SubexpNames $rx",
	"import go:os O", "import go:os (O)", "os ReadFile /sim/a.lna", "os ReadFile S", "regexp C X X", "os C X", "import go:slog O", "load native/go_os go:os", "load X X", "picol {P}", "picol {set V 3; puts X; S1}",
	"source X", "source /sim/a.lna", "import X", "import /sim/a.lna", "import a.lna (C)",
}

// soupRegexp are those of the native regular expressions.
var soupRegexp = func() []string {
	out := []string{}
	for _, t := range soupCLI {
		if strings.HasPrefix(t, "regexp ") || strings.HasPrefix(t, "set rx ") {
			out = append(out, t)
		}
	}
	return out
}()

func (u *Soup) label() string { u.labels++; return fmt.Sprintf("%sL%d", u.pre, u.labels) }
func (u *Soup) name() string {
	return u.pre + []string{"va", "vb", "vc", "l", "d", "t", "s", "vb", "rx"}[u.N(9)]
}
func (u *Soup) cmd() string {
	return u.pre + []string{"ca", "cb", "cc", "cd", "foo"}[u.N(5)]
}

var soupBuiltins = strings.Fields("idem set let get exists unset + - * / bool ! && || int real string list dict tuple script parse eval if when loop while catch return yield error break continue pass proc closure macro scope namespace ensemble coroutine alias argspec help module import ^ |> true false 1 emit")
var soupSubs = strings.Fields("length at range append remove insert replace sort foreach == != > >= < <= size has get add merge keys values entries subcommands eval call import export exports wait active done yield usage set split + - * / ? !")

// Script is a text of about n sentences.
func (u *Soup) Script(n int) string {
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, u.sentence(0))
	}
	return strings.Join(out, "\n")
}

func (u *Soup) sentence(d int) string {
	u.left--
	if u.left < 0 || d > 3 {
		return "emit " + u.label()
	}
	if u.CLI && u.Is(6) {
		return u.fill(soupCLI[u.N(len(soupCLI))], d)
	}
	if u.Regexp && u.Is(5) {
		return u.fill(soupRegexp[u.N(len(soupRegexp))], d)
	}
	if u.Is(16) {
		// any command, any arguments
		w := []string{soupBuiltins[u.N(len(soupBuiltins))]}
		if u.Is(3) {
			w[0] = u.cmd()
		}
		for n := u.N(5); n > 0; n-- {
			switch {
			case !u.Order && len(w) == 2:
				w = append(w, "length")
			case u.Is(3) && u.Order:
				w = append(w, soupSubs[u.N(len(soupSubs))])
			default:
				w = append(w, u.any(d+1))
			}
		}
		if !u.Order && (w[0] == "loop" || w[0] == "dict" || w[0] == "if" || w[0] == "help") {
			w[0] = "idem"
		}
		return strings.Join(w, " ")
	}
	t := soupTemplates[u.N(len(soupTemplates))]
	if !u.Order && listing(t) {
		t = "emit X"
	}
	return u.fill(t, d)
}

// listing reports the words whose outcome depends on the order of an unordered
// collection.
func listing(t string) bool {
	for _, x := range []string{"subcommands", "exports", " keys", " values", " entries", "dict D foreach", "loop i V D"} {
		if strings.Contains(t, x) {
			return true
		}
	}
	return false
}

// fill replaces the classes of a template.
func (u *Soup) fill(t string, d int) string {
	var b strings.Builder
	is := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' }
	loop := u.pre + "x"
	for i := 0; i < len(t); {
		if !is(t[i]) {
			b.WriteByte(t[i])
			i++
			continue
		}
		j := i
		for j < len(t) && is(t[j]) {
			j++
		}
		w := t[i:j]
		dollar := i > 0 && t[i-1] == '$'
		brace := i > 1 && t[i-1] == '{' && t[i-2] == '$'
		i = j
		switch {
		case w == "S1":
			b.WriteString(u.sentence(d + 1))
		case w == "B1":
			b.WriteString(u.block(d + 1))
		case len(w) == 1 && w[0] >= 'A' && w[0] <= 'Z':
			if dollar || brace || w == "V" && strings.Contains(t, "$V") {
				if w == "V" {
					if strings.HasPrefix(t, "list") || strings.HasPrefix(t, "loop") || strings.HasPrefix(t, "catch") || strings.Contains(t, "proc") || strings.Contains(t, "macro") || strings.Contains(t, "closure") {
						b.WriteString(loop)
					} else {
						b.WriteString(u.name())
					}
					continue
				}
				if w == "Q" || w == "D" {
					b.WriteString(u.pre + map[string]string{"Q": "l", "D": "d"}[w])
					continue
				}
			}
			if u.Is(40) {
				continue // left out
			}
			b.WriteString(u.class(w[0], d))
			if u.Is(60) {
				b.WriteString(" " + u.class(w[0], d)) // doubled
			}
		default:
			b.WriteString(w)
		}
	}
	return b.String()
}

func (u *Soup) class(c byte, d int) string {
	if strings.IndexByte("NKSQDTXBA", c) >= 0 && u.Wild > 0 && u.Is(u.Wild) {
		c = "NKSQDTXBACLUZ"[u.N(13)]
	}
	if d > 3 {
		return []string{"1", "x", "()", "{}", "true"}[u.N(5)]
	}
	switch c {
	case 'N':
		switch u.N(12) {
		case 0:
			return "$" + u.name()
		case 1:
			return "[" + []string{"+", "*", "-"}[u.N(3)] + " " + u.class('N', d+1) + " " + u.class('N', d+1) + "]"
		case 2:
			return []string{"-1", "1.5", "1e3", "9223372036854775807", "-9223372036854775808", "1e400", "0x10", "NaN", "Inf", "99", "-0", "1e18", "9007199254740993"}[u.N(13)]
		case 3:
			return "[tick " + u.label() + " " + u.class('N', d+1) + "]"
		}
		return fmt.Sprint(u.N(4))
	case 'K':
		switch u.N(6) {
		case 0:
			return "[" + u.class('N', d+1) + " > " + u.class('N', d+1) + "]"
		case 1:
			return "{idem " + u.class('K', d+1) + "}"
		case 2:
			return "$" + u.name()
		}
		return []string{"true", "false"}[u.N(2)]
	case 'S':
		switch u.N(8) {
		case 0:
			return "$" + u.pre + "s"
		case 1:
			return `"` + []string{"a $" + u.name(), "", "x\\ny", "é漢", "(a|b", "[idem 2]"}[u.N(6)] + `"`
		case 2:
			return []string{"é", "\\x41", "a.b", "\\u6f22"}[u.N(4)]
		}
		return []string{"foo", "bar", "abcdef", "a", "b", "aab"}[u.N(6)]
	case 'Q':
		switch u.N(5) {
		case 0:
			return "$" + u.pre + "l"
		case 1:
			return "[list " + u.class('T', d+1) + "]"
		case 2:
			return "{" + u.class('X', d+1) + " " + u.class('N', d+1) + "}"
		}
		return "(" + u.any(d+1) + " " + u.class('N', d+1) + ")"
	case 'D':
		switch u.N(4) {
		case 0:
			return "$" + u.pre + "d"
		case 1:
			return "[dict (k " + u.any(d+1) + " j " + u.any(d+1) + ")]"
		}
		return "(k " + u.any(d+1) + " j " + u.any(d+1) + " i 3)"
	case 'T':
		n := u.N(4)
		w := []string{}
		for i := 0; i < n; i++ {
			w = append(w, u.any(d+1))
		}
		return "(" + strings.Join(w, " ") + ")"
	case 'X':
		return u.any(d + 1)
	case 'B':
		return u.block(d + 1)
	case 'P':
		return []string{"{a b {$a > $b}}", "C", "{tick " + u.label() + " true}", "{a {idem $a}}", "idem"}[u.N(5)]
	case 'A':
		return []string{"()", "(x)", "(a b)", "(a ?b? c)", "(a *r)", "(*r b)", "(?a? *b c)", "((?a 3) b)", "((?a {S1}) b)", "((int a) b)", "(?-o? x)", "(?(-o --opt)? (?v 5) x)", "(?-o? a ?-p? b)", "{a b}", "{?a? ?b?}", "((bool a))", "((list a) ?b?)", "(((list) a) b)", "(a a)", "(* *)", "(*a *b)", "(?)", "(-o a)", "{}", "(?x? (?y def) *z)", "((?int a 2))", "((dict a) *(int b))"}[u.N(27)]
	case 'C':
		if u.Is(12) {
			return soupBuiltins[u.N(len(soupBuiltins))]
		}
		return u.cmd()
	case 'Z':
		return soupBuiltins[u.N(len(soupBuiltins))]
	case 'V':
		return u.name()
	case 'W':
		return u.pre + fmt.Sprintf("k%d", u.N(8))
	case 'L':
		return u.label()
	case 'R':
		return []string{"regexp", "RegexpCmd", "*", "regexp"}[u.N(4)]
	case 'O':
		return []string{"os", "OsCmd", "slog"}[u.N(3)]
	case 'U':
		if !u.Order {
			return soupSubs[u.N(16)]
		}
		return soupSubs[u.N(len(soupSubs))]
	}
	return string(c)
}

func (u *Soup) block(d int) string {
	n := u.N(3)
	if d > 2 && n > 1 {
		n = 1
	}
	w := []string{}
	for i := 0; i < n; i++ {
		w = append(w, u.sentence(d))
	}
	sep := "; "
	if u.Is(3) {
		sep = "\n"
	}
	return "{" + strings.Join(w, sep) + "}"
}

func (u *Soup) any(d int) string {
	switch u.N(18) {
	case 0, 1, 2:
		return u.class('N', d)
	case 3, 4:
		return u.class('S', d)
	case 5, 6:
		return "$" + u.name()
	case 7:
		return u.class('Q', d)
	case 8:
		return u.class('T', d)
	case 9:
		return u.class('K', d)
	case 10:
		return "[" + u.sentence(d+1) + "]"
	case 11:
		return "[" + u.sentence(d+1) + "]"
	case 12:
		return u.block(d + 1)
	case 13:
		return "[dict " + u.class('D', d) + "]"
	case 14:
		return "[tick " + u.label() + " " + u.any(d+1) + "]"
	case 15:
		return "[list (" + u.any(d+1) + " " + u.any(d+1) + ")]"
	case 16:
		return []string{"nothing", `""`, "()", "{}", "[]", "[" + u.cmd() + "]", "$*(1 2)", "a(k)", "[idem a(k)]", "[argspec (a b)]", "[coroutine {yield 1}]", "[parse \"a b\"]"}[u.N(12)]
	}
	return fmt.Sprint(u.N(5))
}

// Prelude of a soup.
func (u *Soup) Prelude() string {
	p := u.pre
	return strings.NewReplacer("~", p).Replace(`set ~va 1; set ~vb foo; set ~vc (1 2); set ~l [list (3 1 2)]; set ~d [dict (k 1 j foo)]; set ~t (a b)
set ~s abc; set ~rx 0
proc ~ca (x ?y?) {emit ca $x; idem $x}
macro ~cb (*x) {idem $x}
scope ~cc {proc ~ca () {emit cc; idem 7}; let z 4}
namespace ~cd {proc ~ca (?x?) {emit cd; yield 5}; let z 4}`)
}

// soupLimit is how long a text that nobody bounds may run: a command that calls
// itself with one more argument each time takes a time that grows with the square.
const soupLimit = 500_000
