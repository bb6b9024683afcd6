package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------- syntax ----------

type Ex struct {
	op   string // id int str char bin un call sel idx forall old ite nil bool deref
	s    string
	i    int64
	kids []*Ex
	vars []bvar
	trig [][]*Ex
	line int
}

type bvar struct{ name, typ string }

type Clause struct {
	label string
	props []string
	ex    *Ex
	text  string
	file  string
	line  int
}

type LoopInv struct {
	foreach []bvar
	ex      *Ex
	text    string
	label   string
}

type GhostAssign struct {
	newTyp, newVar string
	target *Ex
	value  *Ex
	cond   *Ex
	text   string
}

type ModLoc struct {
	ex   *Ex    // x.f
	all  string // component name pattern
	cond *Ex    // with variable r
	when *Ex
}

type Contract struct {
	key      string
	recv     bool
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	modifies []ModLoc
	modAll   bool
	ghost    []GhostAssign
	ghostNew []GhostAssign // at the allocation of an object of a type
	loopinv  []LoopInv
	measures []*Ex
	cuts     []*Ex // tried at joins of control flow, and used where they hold
	inline   bool
	trusted  bool
	extern   bool
	iface    bool
	theories []string
	closures map[string]*Contract
	defines  []Define
	assigns  []string
	recmeas  *Ex
	norec    bool
	file     string
	line     int
	uses     []string
	panics   bool
	hints    []Clause
	noinline bool
	facts    []Clause
	unroll   bool
	except   []string // implementations that never stand behind the interface here
}

type GhostFn struct {
	name string
	args []string
	res  string
	// heap components the function depends on
	reads []string
}

// readComp resolves "field pkg.T.f", "elems T", "mapdom T", "mapval T" to a heap component.
func (w *World) readComp(e *Exec, rd string) (string, string) {
	f := strings.Fields(rd)
	if len(f) != 2 {
		sfail("bad reads clause %q", rd)
	}
	if f[0] == "field" {
		i := strings.LastIndex(f[1], ".")
		t := w.typeByName(f[1][:i])
		if t == nil {
			sfail("unknown type %s", f[1][:i])
		}
		for _, l := range leaves(t) {
			if l.path == f[1][i+1:] {
				return fcomp(t, l.path), ArrS("Int", l.sort)
			}
		}
		for _, g := range w.ghostFields[f[1][:i]] {
			if g.name == f[1][i+1:] {
				so, _ := ghostSort(w, g.typ)
				return "F|" + f[1][:i] + "|" + g.name, ArrS("Int", so)
			}
		}
		sfail("no field %s", f[1])
	}
	t := w.typeByName(f[1])
	if t == nil {
		sfail("unknown type %s", f[1])
	}
	u := types.NewMap(types.Typ[types.String], t)
	switch f[0] {
	case "elems":
		return ecomp(t, ""), ArrS("Int", ArrS("Int", sortOf(t)))
	case "mapdom":
		return "MD|" + mname(u), e.mdSort(u)
	case "mapval":
		return "MV|" + mname(u) + "|", ArrS("Int", ArrS("Str", sortOf(t)))
	}
	sfail("bad reads clause %q", rd)
	return "", ""
}

func (e *Exec) heapComp(st *State, rd string) *Term {
	n, so := e.w.readComp(e, rd)
	return e.comp(st, n, so)
}

func (w *World) heapReads(x *Ex, acc map[string]bool) {
	if x == nil {
		return
	}
	if x.op == "call" {
		if g := w.ghostFns[x.s]; g != nil {
			for _, r := range g.reads {
				acc[r] = true
			}
		}
		if d := w.defs[x.s]; d != nil {
			w.heapReads(d.body, acc)
		}
	}
	for _, k := range x.kids {
		w.heapReads(k, acc)
	}
}

type Def struct {
	params []string
	body   *Ex
}

type Axiom struct {
	theory string
	name   string
	ex     *Ex
	text   string
}

type GlobalInv struct {
	name  string
	ex    *Ex
	text  string
	props []string
	once  bool // checked when the package is initialised, assumed nowhere
}

type tok struct {
	k    byte // i ident, n number, s string, c char, p punct, e eof
	s    string
	line int
	col  int // first token on line if col flag
	bol  bool
}

type lexer struct {
	toks []tok
	p    int
	file string
}

func lexSpec(src, file string) []tok {
	var out []tok
	line := 1
	bol := true
	rs := []rune(src)
	for i := 0; i < len(rs); {
		r := rs[i]
		if r == '\n' {
			line++
			bol = true
			i++
			continue
		}
		if unicode.IsSpace(r) {
			i++
			continue
		}
		if r == '/' && i+1 < len(rs) && rs[i+1] == '/' {
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
			continue
		}
		st := i
		var t tok
		switch {
		case unicode.IsLetter(r) || r == '_' || r == '$':
			for i < len(rs) && (unicode.IsLetter(rs[i]) || unicode.IsDigit(rs[i]) || rs[i] == '_' || rs[i] == '$') {
				i++
			}
			t = tok{k: 'i', s: string(rs[st:i])}
		case unicode.IsDigit(r):
			for i < len(rs) && unicode.IsDigit(rs[i]) {
				i++
			}
			t = tok{k: 'n', s: string(rs[st:i])}
		case r == '"':
			i++
			for i < len(rs) && rs[i] != '"' {
				if rs[i] == '\\' {
					i++
				}
				i++
			}
			i++
			s, err := strconv.Unquote(string(rs[st:i]))
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", file, line))
			}
			t = tok{k: 's', s: s}
		case r == '\'':
			i++
			for i < len(rs) && rs[i] != '\'' {
				if rs[i] == '\\' {
					i++
				}
				i++
			}
			i++
			s, _, _, err := strconv.UnquoteChar(string(rs[st+1:i-1]), '\'')
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad char", file, line))
			}
			t = tok{k: 'c', s: string(s)}
		default:
			ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||"}
			t = tok{k: 'p', s: string(r)}
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					t.s = o
					break
				}
			}
			i += len(t.s)
		}
		t.line = line
		t.bol = bol
		bol = false
		out = append(out, t)
	}
	out = append(out, tok{k: 'e', line: line, bol: true})
	return out
}

func (l *lexer) peek() tok { return l.toks[l.p] }
func (l *lexer) next() tok { t := l.toks[l.p]; l.p++; return t }
func (l *lexer) is(s string) bool {
	t := l.peek()
	return (t.k == 'p' || t.k == 'i') && t.s == s
}
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.p++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		l.fail("expected " + s + " but got " + l.peek().s)
	}
}
func (l *lexer) fail(m string) { panic(fmt.Sprintf("%s:%d: %s", l.file, l.peek().line, m)) }

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "ghost": true, "loopinv": true, "cut": true, "measure": true, "recmeasure": true, "foreach": true, "inline": true, "trusted": true, "theory": true, "closure": true, "func": true, "axiom": true, "def": true, "global": true, "iface": true, "extern": true, "norec": true, "panics": true, "noinline": true, "fact": true, "field": true, "immutable": true, "sealed": true, "stable": true, "unroll": true, "lemma": true, "uses": true, "safety": true, "terminates": true, "group": true, "children": true, "heap": true, "define": true, "except": true, "fieldfn": true, "elemfn": true}

// expression end: a clause keyword at beginning of line, or closing brace
func (l *lexer) atEnd() bool {
	t := l.peek()
	if t.k == 'e' {
		return true
	}
	if t.k == 'p' && (t.s == "}" || t.s == ")" || t.s == "]" || t.s == "," || t.s == ";" || t.s == ":") {
		return true
	}
	return t.bol && t.k == 'i' && clauseKw[t.s]
}

func (l *lexer) expr() *Ex { return l.impl() }

func (l *lexer) impl() *Ex {
	a := l.cond()
	if l.is("==>") {
		ln := l.next().line
		b := l.impl()
		return &Ex{op: "bin", s: "==>", kids: []*Ex{a, b}, line: ln}
	}
	if l.is("<==>") {
		ln := l.next().line
		b := l.impl()
		return &Ex{op: "bin", s: "<==>", kids: []*Ex{a, b}, line: ln}
	}
	return a
}

func (l *lexer) cond() *Ex {
	a := l.or()
	if l.is("?") {
		l.next()
		b := l.impl()
		l.expect(":")
		d := l.impl()
		return &Ex{op: "ite", kids: []*Ex{a, b, d}}
	}
	return a
}
func (l *lexer) or() *Ex {
	a := l.and()
	for l.is("||") {
		l.next()
		a = &Ex{op: "bin", s: "||", kids: []*Ex{a, l.and()}}
	}
	return a
}
func (l *lexer) and() *Ex {
	a := l.cmp()
	for l.is("&&") {
		l.next()
		a = &Ex{op: "bin", s: "&&", kids: []*Ex{a, l.cmp()}}
	}
	return a
}
func (l *lexer) cmp() *Ex {
	a := l.add()
	var acc *Ex
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if l.is(o) {
				op = o
				break
			}
		}
		if op == "" {
			break
		}
		l.next()
		b := l.add()
		x := &Ex{op: "bin", s: op, kids: []*Ex{a, b}}
		if acc == nil {
			acc = x
		} else {
			acc = &Ex{op: "bin", s: "&&", kids: []*Ex{acc, x}}
		}
		a = b
	}
	if acc != nil {
		return acc
	}
	return a
}
func (l *lexer) add() *Ex {
	a := l.mul()
	for l.is("+") || l.is("-") {
		op := l.next().s
		a = &Ex{op: "bin", s: op, kids: []*Ex{a, l.mul()}}
	}
	return a
}
func (l *lexer) mul() *Ex {
	a := l.unary()
	for l.is("*") && !l.peek().bol {
		l.next()
		a = &Ex{op: "bin", s: "*", kids: []*Ex{a, l.unary()}}
	}
	return a
}
func (l *lexer) unary() *Ex {
	switch {
	case l.is("!"):
		l.next()
		return &Ex{op: "un", s: "!", kids: []*Ex{l.unary()}}
	case l.is("-"):
		l.next()
		return &Ex{op: "un", s: "-", kids: []*Ex{l.unary()}}
	case l.is("*"):
		l.next()
		return &Ex{op: "deref", kids: []*Ex{l.unary()}}
	}
	return l.postfix()
}

func (l *lexer) typeStr() string {
	var b strings.Builder
	for {
		t := l.peek()
		if t.k == 'p' && (t.s == "*" || t.s == "[" || t.s == "]" || t.s == ".") {
			b.WriteString(t.s)
			l.next()
			continue
		}
		if t.k == 'i' {
			b.WriteString(t.s)
			l.next()
			if l.is(".") {
				continue
			}
			if t.s == "map" {
				continue
			}
			break
		}
		break
	}
	return b.String()
}

func (l *lexer) postfix() *Ex {
	t := l.peek()
	var x *Ex
	switch t.k {
	case 'n':
		l.next()
		n, _ := strconv.ParseInt(t.s, 10, 64)
		x = &Ex{op: "int", i: n}
	case 's':
		l.next()
		x = &Ex{op: "str", s: t.s}
	case 'c':
		l.next()
		x = &Ex{op: "int", i: int64([]rune(t.s)[0])}
	case 'p':
		if t.s == "(" {
			l.next()
			x = l.expr()
			l.expect(")")
		} else {
			l.fail("unexpected " + t.s)
		}
	case 'i':
		l.next()
		switch t.s {
		case "true":
			x = &Ex{op: "bool", i: 1}
		case "false":
			x = &Ex{op: "bool"}
		case "nil":
			x = &Ex{op: "nil"}
		case "forall", "exists":
			q := &Ex{op: "forall", s: t.s, line: t.line}
			if l.toks[l.p+1].s == "in" && l.toks[l.p+1].k == 'i' {
				n := l.next().s
				l.next()
				xs := l.postfix()
				l.expect("::")
				return &Ex{op: "each", s: t.s, line: t.line, vars: []bvar{{n, ""}}, kids: []*Ex{xs, l.expr()}}
			}
			for {
				n := l.next().s
				ty := l.typeStr()
				q.vars = append(q.vars, bvar{n, ty})
				if !l.accept(",") {
					break
				}
			}
			for l.is("{") {
				l.next()
				var g []*Ex
				for !l.is("}") {
					g = append(g, l.expr())
					l.accept(",")
				}
				l.expect("}")
				q.trig = append(q.trig, g)
			}
			l.expect("::")
			q.kids = []*Ex{l.expr()}
			return q
		case "let":
			n := l.next().s
			l.expect("=")
			v := l.expr()
			l.expect("::")
			b := l.expr()
			return &Ex{op: "let", s: n, kids: []*Ex{v, b}}
		default:
			if l.is("(") && !l.peek().bol {
				l.next()
				x = &Ex{op: "call", s: t.s, line: t.line}
				for i := 0; !l.is(")"); i++ {
					if (t.s == "typeis" || t.s == "as" || t.s == "implements") && i == 1 || t.s == "typetag" && i == 0 {
						x.kids = append(x.kids, &Ex{op: "type", s: l.typeStr()})
					} else {
						x.kids = append(x.kids, l.expr())
					}
					if !l.accept(",") {
						break
					}
				}
				l.expect(")")
			} else {
				x = &Ex{op: "id", s: t.s, line: t.line}
			}
		}
	default:
		l.fail("unexpected end")
	}
	for {
		if l.is(".") {
			l.next()
			x = &Ex{op: "sel", s: l.next().s, kids: []*Ex{x}, line: t.line}
		} else if l.is("[") && !l.peek().bol {
			l.next()
			i := l.expr()
			l.expect("]")
			x = &Ex{op: "idx", kids: []*Ex{x, i}, line: t.line}
		} else {
			return x
		}
	}
}

func (l *lexer) srcText(a, b int) string {
	var parts []string
	for _, t := range l.toks[a:b] {
		s := t.s
		if t.k == 's' {
			s = strconv.Quote(s)
		}
		if t.k == 'c' {
			s = strconv.QuoteRune([]rune(s)[0])
		}
		parts = append(parts, s)
	}
	s := strings.Join(parts, " ")
	for _, r := range [][2]string{{" . ", "."}, {" ( ", "("}, {"( ", "("}, {" )", ")"}, {" ,", ","}, {" [ ", "["}, {" ]", "]"}, {"! ", "!"}} {
		s = strings.ReplaceAll(s, r[0], r[1])
	}
	return s
}

func (l *lexer) clause() Clause {
	c := Clause{file: l.file, line: l.peek().line}
	if l.accept("[") {
		for !l.is("]") {
			c.props = append(c.props, l.next().s)
			l.accept(",")
		}
		l.expect("]")
	}
	if l.peek().k == 'i' && l.toks[l.p+1].s == ":" && l.toks[l.p+1].k == 'p' {
		c.label = l.next().s
		l.next()
	}
	a := l.p
	c.ex = l.expr()
	c.text = l.srcText(a, l.p)
	if !l.atEnd() {
		l.fail("junk after clause: " + l.peek().s)
	}
	return c
}

func (l *lexer) paramList() []string {
	var out []string
	l.expect("(")
	for !l.is(")") {
		out = append(out, l.next().s)
		l.accept(",")
	}
	l.expect(")")
	return out
}

// key: pkg.F | pkg.T.M | pkg.(*T).M
func (l *lexer) key() string {
	var b strings.Builder
	word := false
	for {
		t := l.peek()
		if t.k == 'i' && word {
			return b.String()
		}
		word = t.k == 'i'
		if t.k == 'i' {
			b.WriteString(l.next().s)
		} else if t.k == 'p' && (t.s == "." || t.s == "*") {
			b.WriteString(l.next().s)
		} else if t.k == 'p' && t.s == "(" && l.toks[l.p+1].s == "*" {
			l.next()
			l.next()
			b.WriteString("(*" + l.next().s + ")")
			l.expect(")")
		} else if t.k == 'p' && t.s == "/" {
			b.WriteString(l.next().s)
		} else {
			return b.String()
		}
	}
}

func (w *World) loadSpecs(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		w.parseSpec(string(b), filepath.Base(f))
	}
}

func (w *World) parseSpec(src, file string) {
	l := &lexer{toks: lexSpec(src, file), file: file}
	theory := ""
	for l.peek().k != 'e' {
		switch {
		case l.accept("theory"):
			theory = l.next().s
		case l.accept("ghost"):
			if l.accept("func") {
				n := l.next().s
				l.expect("(")
				g := &GhostFn{name: n}
				if w.defs[n] != nil || w.ghostFns[n] != nil {
					l.fail("defined twice: " + n)
				}
				for !l.is(")") {
					l.next() // name
					g.args = append(g.args, l.typeStr())
					l.accept(",")
				}
				l.expect(")")
				g.res = l.typeStr()
				w.ghostFns[n] = g
			} else if l.accept("field") {
				k := l.key()
				i := strings.LastIndex(k, ".")
				w.ghostFields[k[:i]] = append(w.ghostFields[k[:i]], bvar{k[i+1:], l.typeStr()})
			} else if l.accept("var") {
				n := l.next().s
				w.ghostVars[n] = l.typeStr()
			} else {
				l.fail("ghost what")
			}
		case l.accept("heap"):
			// heap func f(params) type reads comp sort, ...: a function of its arguments and of parts of the heap
			l.expect("func")
			g := &GhostFn{name: l.next().s}
			l.expect("(")
			for !l.is(")") {
				l.next()
				g.args = append(g.args, l.typeStr())
				l.accept(",")
			}
			l.expect(")")
			g.res = l.typeStr()
			l.expect("reads")
			for {
				g.reads = append(g.reads, l.next().s)
				if !l.accept(",") {
					break
				}
			}
			w.ghostFns[g.name] = g
		case l.accept("children"):
			w.parseChildren(l)
		case l.accept("def"):
			n := l.next().s
			if w.defs[n] != nil || w.ghostFns[n] != nil {
				l.fail("defined twice: " + n)
			}
			ps := l.paramList()
			l.expect("=")
			w.defs[n] = &Def{ps, l.expr()}
		case l.accept("axiom"):
			c := l.clause()
			w.axioms = append(w.axioms, Axiom{theory, c.label, c.ex, c.text})
		case l.accept("immutable"):
			w.immut = append(w.immut, l.next().s)
		case l.accept("sealed"):
			// sealed "prefix" but "prefix", ...: only the function that makes an object writes these fields of it
			x := sealedRule{prefix: l.next().s}
			if l.accept("but") {
				x.but = append(x.but, l.next().s)
				for l.accept(",") {
					x.but = append(x.but, l.next().s)
				}
			}
			w.sealed = append(w.sealed, x)
		case l.accept("elemfn"):
			// elemfn "func(..)..."(params)(results) { ... }: every function value kept in a slice of this type obeys it
			k := l.next().s
			cc := &Contract{key: "elemfn " + k, closures: map[string]*Contract{}, file: l.file, line: l.peek().line}
			cc.params = l.paramList()
			if l.is("(") {
				cc.results = l.paramList()
			}
			l.expect("{")
			w.parseBody(l, cc)
			l.expect("}")
			w.fieldFns["E|"+k+"|"] = &FieldFn{ct: cc}
		case l.accept("fieldfn"):
			// fieldfn pkg.T.f(self)(params)(results) { ... }: every function value stored in the field obeys it
			k := l.key()
			cc := &Contract{key: "fieldfn " + k, closures: map[string]*Contract{}, file: l.file, line: l.peek().line}
			self := l.paramList()
			cc.params = l.paramList()
			if l.is("(") {
				cc.results = l.paramList()
			}
			l.expect("{")
			w.parseBody(l, cc)
			l.expect("}")
			i := strings.LastIndex(k, ".")
			w.fieldFns["F|"+k[:i]+"|"+k[i+1:]] = &FieldFn{typ: k[:i], self: self[0], ct: cc}
		case l.accept("global"):
			g := &GlobalInv{}
			if l.accept("[") {
				for !l.is("]") {
					g.props = append(g.props, l.next().s)
					l.accept(",")
				}
				l.expect("]")
			}
			g.once = l.accept("once")
			g.name = l.key()
			l.expect(":")
			a := l.p
			g.ex = l.expr()
			g.text = l.srcText(a, l.p)
			w.globalInvs[g.name] = append(w.globalInvs[g.name], g)
		case l.accept("safety"):
			p := l.next().s
			w.safetyP[p] = append(w.safetyP[p], l.next().s)
		case l.accept("terminates"):
			p := l.next().s
			w.termP[p] = append(w.termP[p], l.next().s)
		case l.accept("loopinv"):
			w.globalLoopInv = append(w.globalLoopInv, l.loopInv(nil))
		case l.accept("foreach"):
			w.globalLoopInv = append(w.globalLoopInv, l.foreach())
		case l.accept("measure"):
			w.globalMeasures = append(w.globalMeasures, l.expr())
		case l.is("func") || l.is("iface") || l.is("extern") || l.is("group"):
			w.parseContract(l)
		default:
			l.fail("unexpected item " + l.peek().s)
		}
	}
}

func (l *lexer) loopInv(fe []bvar) LoopInv {
	label := ""
	if l.peek().k == 'i' && l.toks[l.p+1].s == ":" && l.toks[l.p+1].k == 'p' {
		label = l.next().s
		l.next()
	}
	a := l.p
	x := l.expr()
	return LoopInv{fe, x, l.srcText(a, l.p), label}
}

func (l *lexer) foreach() LoopInv {
	var fe []bvar
	for {
		n := l.next().s
		fe = append(fe, bvar{n, l.typeStr()})
		if !l.accept(",") {
			break
		}
	}
	l.expect("::")
	return l.loopInv(fe)
}

// children [P] key: f, g?, each h   - contract of a Children method: the listed parts, in order
func (w *World) parseChildren(l *lexer) {
	l.expect("[")
	p := l.next().s
	l.expect("]")
	k := l.key()
	l.expect(":")
	recv := "m"
	pre := ""
	if strings.Contains(k, "(*") {
		pre = "requires m != nil\n"
	}
	if l.accept("each") {
		sl := recv
		if l.peek().k == 'i' && !l.peek().bol {
			sl = "m." + l.next().s
		}
		w.parseSpec(fmt.Sprintf(`func %s.Children(m)(r) {
  %sensures [%s] parts: len(r) == len(%s) && (forall i int {r[i]} :: 0 <= i < len(%s) ==> r[i] == iface(%s[i]))
  foreach s astcore.Nodes, k int :: len(s) == len(%s) && (forall j int {s[j]} :: 0 <= j < k ==> s[j] == iface(%s[j]))
  foreach s astcore.Nodes, k int :: len(s) == len(%s) && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] == iface(%s[j]))
  foreach s astcore.Nodes, k int :: len(s) == k && (forall j int {s[j]} :: 0 <= j < k ==> s[j] == iface(%s[j]))
  foreach s astcore.Nodes, k int :: len(s) == k + 1 && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] == iface(%s[j]))
}`, k, pre, p, sl, sl, sl, sl, sl, sl, sl, sl, sl), l.file)
		return
	}
	var parts []string
	for !l.peek().bol {
		n := l.next().s
		if l.accept("?") {
			parts = append(parts, "opt(m."+n+")")
		} else {
			parts = append(parts, "m."+n)
		}
		if !l.accept(",") {
			break
		}
	}
	w.parseSpec(fmt.Sprintf(`func %s.Children(m)(r) {
  %sensures [%s] parts: list(%s)
}`, k, pre, p, strings.Join(append([]string{"r"}, parts...), ", ")), l.file)
}

func (w *World) parseContract(l *lexer) {
	c := &Contract{closures: map[string]*Contract{}, file: l.file, line: l.peek().line}
	group := false
	switch {
	case l.accept("iface"):
		c.iface = true
		l.expect("func")
	case l.accept("extern"):
		c.extern = true
		c.trusted = true
	case l.accept("group"):
		group = true
	default:
		l.expect("func")
	}
	if !group {
		c.key = l.key()
		c.params = l.paramList()
		if l.is("(") {
			c.results = l.paramList()
		}
	} else {
		c.key = l.next().s
	}
	if l.is("{") {
		l.next()
		w.parseBody(l, c)
		l.expect("}")
	}
	for _, u := range c.uses {
		g := w.groups[u]
		if g == nil {
			l.fail("no group " + u)
		}
		c.requires = append(append([]Clause{}, g.requires...), c.requires...)
		c.ensures = append(append([]Clause{}, g.ensures...), c.ensures...)
		c.modifies = append(append([]ModLoc{}, g.modifies...), c.modifies...)
		c.ghost = append(append([]GhostAssign{}, g.ghost...), c.ghost...)
		c.ghostNew = append(append([]GhostAssign{}, g.ghostNew...), c.ghostNew...)
		c.loopinv = append(append([]LoopInv{}, g.loopinv...), c.loopinv...)
		c.measures = append(append([]*Ex{}, g.measures...), c.measures...)
		c.cuts = append(append([]*Ex{}, g.cuts...), c.cuts...)
		c.theories = append(c.theories, g.theories...)
		c.facts = append(append([]Clause{}, g.facts...), c.facts...)
		if c.recmeas == nil {
			c.recmeas = g.recmeas
		}
	}
	if group {
		w.groups[c.key] = c
		return
	}
	if _, dup := w.contracts[c.key]; dup {
		l.fail("duplicate contract " + c.key)
	}
	w.contracts[c.key] = c
}

type Define struct {
	name string
	cl   Clause
}

func (l *lexer) clause2(label string) Clause {
	l.expect(":")
	a := l.p
	x := l.expr()
	return Clause{label: label, ex: x, text: l.srcText(a, l.p)}
}

func (w *World) parseBody(l *lexer, c *Contract) {
	for !l.is("}") {
		switch {
		case l.accept("requires"):
			c.requires = append(c.requires, l.clause())
		case l.accept("ensures"):
			c.ensures = append(c.ensures, l.clause())
		case l.accept("define"):
			// define r: e  - ghost definition of the fresh object r
			n := l.next().s
			cl := l.clause2(n)
			c.defines = append(c.defines, Define{n, cl})
		case l.accept("fact"):
			c.facts = append(c.facts, l.clause())
		case l.accept("except"):
			c.except = append(c.except, l.typeStr())
		case l.accept("uses"):
			for {
				c.uses = append(c.uses, l.next().s)
				if !l.accept(",") {
					break
				}
			}
		case l.accept("inline"):
			c.inline = true
		case l.accept("trusted"):
			c.trusted = true
		case l.accept("norec"):
			c.norec = true
		case l.accept("unroll"):
			c.unroll = true
		case l.accept("theory"):
			for {
				c.theories = append(c.theories, l.next().s)
				if !l.accept(",") {
					break
				}
			}
		case l.accept("modifies"):
			for {
				if l.accept("everything") {
					c.modAll = true
				} else if l.accept("all") {
					m := ModLoc{all: l.key()}
					if l.accept("where") {
						m.cond = l.expr()
					}
					c.modifies = append(c.modifies, m)
				} else {
					m := ModLoc{ex: l.expr()}
					if l.accept("when") {
						m.when = l.expr()
					}
					c.modifies = append(c.modifies, m)
				}
				if !l.accept(",") {
					break
				}
			}
		case l.accept("ghost"):
			a := l.p
			g := GhostAssign{}
			if l.accept("new") {
				g.newTyp = l.typeStr()
				g.newVar = l.next().s
				l.expect(":")
			}
			if l.accept("if") {
				g.cond = l.expr()
				l.expect(":")
			}
			g.target = l.postfix()
			l.expect(":=")
			g.value = l.expr()
			g.text = l.srcText(a, l.p)
			if g.newTyp != "" {
				c.ghostNew = append(c.ghostNew, g)
			} else {
				c.ghost = append(c.ghost, g)
			}
		case l.accept("loopinv"):
			c.loopinv = append(c.loopinv, l.loopInv(nil))
		case l.accept("foreach"):
			c.loopinv = append(c.loopinv, l.foreach())
		case l.accept("measure"):
			c.measures = append(c.measures, l.expr())
		case l.accept("cut"):
			c.cuts = append(c.cuts, l.expr())
		case l.accept("recmeasure"):
			c.recmeas = l.expr()
		case l.accept("closure"):
			n := l.next().s
			cc := &Contract{key: c.key + "/" + n, closures: map[string]*Contract{}, file: l.file}
			cc.params = l.paramList()
			if l.is("(") {
				cc.results = l.paramList()
			}
			l.expect("{")
			w.parseBody(l, cc)
			l.expect("}")
			c.closures[n] = cc
		default:
			l.fail("unexpected clause " + l.peek().s)
		}
	}
}

// FieldFn is the contract of the function values kept in a field (or in the elements of a slice type).
type FieldFn struct {
	typ  string
	self string
	ct   *Contract
}

type sealedRule struct {
	prefix string
	but    []string
}

func (w *World) sealedComp(k string) bool {
	for _, p := range w.sealed {
		if strings.HasPrefix(k, p.prefix) {
			for _, b := range p.but {
				if strings.HasPrefix(k, b) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (w *World) immutComp(k string) bool {
	for _, p := range w.immut {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

// ---------- evaluation ----------

type SV = Val

type SEnv struct {
	e         *Exec
	vars      map[string]Val
	st        *State
	old       *State
	alloc0    *Term
	depth     int
	facts     bool
	loopEntry *State
	heapBVs   []*Term
}

func (s *SEnv) with(vars map[string]Val) *SEnv {
	n := *s
	n.vars = map[string]Val{}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func sfail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (s *SEnv) bool(x *Ex) *Term {
	v := s.eval(x)
	if v.T == nil || v.T.Sort != "Bool" {
		sfail("boolean expected at line %d: %s", x.line, x.op+" "+x.s)
	}
	return v.T
}

func (s *SEnv) term(x *Ex) *Term {
	v := s.eval(x)
	return s.e.scalar(v, s.st)
}

func ghostSort(w *World, ty string) (string, types.Type) {
	switch ty {
	case "int":
		return "Int", types.Typ[types.Int]
	case "bool":
		return "Bool", types.Typ[types.Bool]
	case "string", "str":
		return "Str", types.Typ[types.String]
	case "ref":
		return "Int", nil
	case "iface":
		return "Iface", types.NewInterfaceType(nil, nil)
	case "slice":
		return "Slice", nil
	}
	if strings.HasPrefix(ty, "[]") {
		return "Slice", w.typeByName(ty)
	}
	t := w.typeByName(ty)
	if t == nil {
		sfail("unknown type %s", ty)
	}
	return sortOf(t), t
}

func (w *World) typeByName(s string) types.Type {
	w.tmu.Lock()
	defer w.tmu.Unlock()
	if t, ok := w.typeCache[s]; ok {
		return t
	}
	t := w.typeByName0(s)
	w.typeCache[s] = t
	return t
}

func (w *World) typeByName0(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		t := w.typeByName0(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	case strings.HasPrefix(s, "[]"):
		t := w.typeByName0(s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	case strings.HasPrefix(s, "map[string]"):
		t := w.typeByName0(s[len("map[string]"):])
		if t == nil {
			return nil
		}
		return types.NewMap(types.Typ[types.String], t)
	}
	switch s {
	case "int":
		return types.Typ[types.Int]
	case "string":
		return types.Typ[types.String]
	case "bool":
		return types.Typ[types.Bool]
	case "rune":
		return types.Typ[types.Int32]
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	i := strings.IndexByte(s, '.')
	if i < 0 {
		return nil
	}
	for _, p := range w.pkgs {
		if p.Pkg.Name() == s[:i] {
			if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (s *SEnv) eval(x *Ex) Val {
	e := s.e
	c := e.ctx
	intv := func(t *Term) Val { return Val{Typ: types.Typ[types.Int], T: t} }
	boolv := func(t *Term) Val { return Val{Typ: types.Typ[types.Bool], T: t} }
	switch x.op {
	case "int":
		return intv(c.Int(x.i))
	case "str":
		return Val{Typ: types.Typ[types.String], T: c.StrLit(x.s)}
	case "bool":
		return boolv(c.Bool(x.i == 1))
	case "nil":
		return Val{Typ: types.Typ[types.UntypedNil], T: c.Int(0)}
	case "id":
		if v, ok := s.vars[x.s]; ok {
			return v
		}
		if d, ok := e.w.defs[x.s]; ok && len(d.params) == 0 {
			return s.eval(d.body)
		}
		if ty, ok := e.w.ghostVars[x.s]; ok {
			so, t := ghostSort(e.w, ty)
			return Val{Typ: t, T: e.rd(s.st, "F|ghost|"+x.s, so, c.Int(0))}
		}
		if g, ok := e.w.ghostFns[x.s]; ok && len(g.args) == 0 && len(g.reads) == 0 {
			so, ty := ghostSort(e.w, g.res)
			return Val{Typ: ty, T: c.App(g.name, so)}
		}
		sfail("unknown name %s", x.s)
	case "let":
		v := s.eval(x.kids[0])
		return s.with(map[string]Val{x.s: v}).eval(x.kids[1])
	case "ite":
		g := s.bool(x.kids[0])
		a, b := s.eval(x.kids[1]), s.eval(x.kids[2])
		ta, tb := s.unify(a, b)
		r := a
		if a.Typ == nil || isNilT(a.Typ) {
			r = b
		}
		return Val{Typ: r.Typ, T: c.Ite(g, ta, tb)}
	case "un":
		if x.s == "!" {
			return boolv(c.Not(s.bool(x.kids[0])))
		}
		return intv(c.Neg(s.term(x.kids[0])))
	case "deref":
		v := s.eval(x.kids[0])
		if v.Addr != nil {
			return e.load(v.Addr, s.st)
		}
		return s.heapFact(e.loadObj(deref(v.Typ), v.T, s.st))
	case "bin":
		switch x.s {
		case "&&":
			a := s.bool(x.kids[0])
			if a.isFalse() {
				return boolv(a)
			}
			return boolv(c.And(a, s.bool(x.kids[1])))
		case "||":
			a := s.bool(x.kids[0])
			if a.isTrue() {
				return boolv(a)
			}
			return boolv(c.Or(a, s.bool(x.kids[1])))
		case "==>":
			a := s.bool(x.kids[0])
			if a.isFalse() {
				return boolv(c.True())
			}
			return boolv(c.Imp(a, s.bool(x.kids[1])))
		case "<==>":
			return boolv(c.Eq(s.bool(x.kids[0]), s.bool(x.kids[1])))
		case "==", "!=":
			a, b := s.eval(x.kids[0]), s.eval(x.kids[1])
			r := s.eqv(a, b)
			if x.s == "!=" {
				r = c.Not(r)
			}
			return boolv(r)
		}
		a, b := s.term(x.kids[0]), s.term(x.kids[1])
		switch x.s {
		case "<":
			return boolv(c.Lt(a, b))
		case "<=":
			return boolv(c.Le(a, b))
		case ">":
			return boolv(c.Lt(b, a))
		case ">=":
			return boolv(c.Le(b, a))
		case "+":
			if a.Sort == "Str" {
				return Val{Typ: types.Typ[types.String], T: e.strcat(a, b)}
			}
			return intv(c.Add(a, b))
		case "-":
			return intv(c.Sub(a, b))
		case "*":
			return intv(c.Mul(a, b))
		}
	case "sel":
		// package-qualified global?
		if k := x.kids[0]; k.op == "id" {
			if _, ok := s.vars[k.s]; !ok {
				if g := e.w.globalByName(k.s + "." + x.s); g != nil {
					return e.load(&Addr{Kind: 'G', Glob: g, Root: deref(g.Type()), Typ: deref(g.Type())}, s.st)
				}
				if v, ok := e.w.constByName(e, k.s, x.s); ok {
					return v
				}
			}
		}
		v := s.eval(x.kids[0])
		return s.heapFact(s.sel(v, x.s))
	case "idx":
		v := s.eval(x.kids[0])
		if v.Typ != nil {
			switch u := under(v.Typ).(type) {
			case *types.Slice:
				i := s.term(x.kids[1])
				return e.loadElem(u.Elem(), c.SArr(v.T), c.Ix(c.SOff(v.T), i), s.st)
			case *types.Map:
				k := s.eval(x.kids[1])
				return e.mapGetRaw(v.T, u, e.keyOf(k, s.st), s.st)
			case *types.Array:
				i := s.term(x.kids[1])
				if i.isInt() {
					return v.Sub[i.I]
				}
			}
		}
		sfail("cannot index %v", v.Typ)
	case "each":
		xs := s.eval(x.kids[0])
		sl, ok := under(xs.Typ).(*types.Slice)
		if !ok {
			sfail("'in' needs a slice")
		}
		at := func(i *Term) *Term {
			v := e.loadElem(sl.Elem(), c.SArr(xs.T), c.Ix(c.SOff(xs.T), i), s.st)
			return s.with(map[string]Val{x.vars[0].name: v}).bool(x.kids[1])
		}
		n := c.SLen(xs.T)
		if n.isInt() && n.I <= 64 {
			r := c.Bool(x.s == "forall")
			for i := int64(0); i < n.I; i++ {
				if x.s == "forall" {
					r = c.And(r, at(c.Int(i)))
				} else {
					r = c.Or(r, at(c.Int(i)))
				}
			}
			return boolv(r)
		}
		bv := c.BV(fmt.Sprintf("each%d", x.line), "Int")
		in := c.And(c.Le(c.Int(0), bv), c.Lt(bv, n))
		elt := e.loadElem(sl.Elem(), c.SArr(xs.T), c.Ix(c.SOff(xs.T), bv), s.st)
		trig := [][]*Term{{e.scalar(elt, s.st)}}
		if x.s == "forall" {
			return boolv(c.Forall([]*Term{bv}, trig, c.Imp(in, at(bv))))
		}
		return boolv(c.Not(c.Forall([]*Term{bv}, trig, c.Not(c.And(in, at(bv))))))
	case "forall":
		vars := map[string]Val{}
		var bvs []*Term
		for _, bv := range x.vars {
			so, ty := ghostSort(e.w, bv.typ)
			t := c.BV(bv.name, so)
			bvs = append(bvs, t)
			vars[bv.name] = Val{Typ: ty, T: t}
		}
		n := s.with(vars)
		bvs = append(bvs, s.heapBVs...)
		n.heapBVs = nil
		body := n.bool(x.kids[0])
		if x.s == "exists" {
			return boolv(c.Not(c.Forall(bvs, nil, c.Not(body))))
		}
		var trigs [][]*Term
		for _, g := range x.trig {
			var ts []*Term
			for _, gx := range g {
				t := n.term(gx)
				if !t.bv {
					continue
				}
				ts = append(ts, t)
			}
			if len(ts) > 0 {
				trigs = append(trigs, ts)
			}
		}
		return boolv(c.Forall(bvs, trigs, body))
	case "call":
		return s.call(x)
	}
	sfail("bad expression %s", x.op)
	return Val{}
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (s *SEnv) unify(a, b Val) (*Term, *Term) {
	if a.Typ != nil && isNilT(a.Typ) && b.T != nil {
		return zeroTerm(s.e.ctx, b.T.Sort), b.T
	}
	if b.Typ != nil && isNilT(b.Typ) && a.T != nil {
		return a.T, zeroTerm(s.e.ctx, a.T.Sort)
	}
	return s.e.scalar(a, s.st), s.e.scalar(b, s.st)
}

func (s *SEnv) eqv(a, b Val) *Term {
	c := s.e.ctx
	if a.Typ != nil && isNilT(a.Typ) {
		a, b = b, a
	}
	if b.Typ != nil && isNilT(b.Typ) && a.Typ != nil {
		if a.Addr != nil || a.Clo != nil {
			return c.False()
		}
		switch a.T.Sort {
		case "Iface":
			return c.Eq(c.ITag(a.T), c.Int(0))
		case "Slice":
			return c.Eq(c.SArr(a.T), c.Int(0))
		}
		return c.Eq(a.T, c.Int(0))
	}
	// pointer vs interface comparison
	if a.T != nil && b.T != nil && a.T.Sort == "Iface" && b.T.Sort == "Int" && b.Typ != nil {
		return c.Eq(a.T, c.MkI(s.e.tagOf(b.Typ), b.T))
	}
	if a.T != nil && b.T != nil && b.T.Sort == "Iface" && a.T.Sort == "Int" && a.Typ != nil {
		return s.eqv(b, a)
	}
	if len(a.Sub) > 0 {
		var cs []*Term
		for i := range a.Sub {
			cs = append(cs, s.eqv(a.Sub[i], b.Sub[i]))
		}
		return c.And(cs...)
	}
	ta, tb := s.unify(a, b)
	if ta.Sort != tb.Sort {
		sfail("comparing %s with %s", ta.Sort, tb.Sort)
	}
	return c.Eq(ta, tb)
}

func (s *SEnv) sel(v Val, name string) Val {
	e := s.e
	if v.Typ == nil {
		sfail("selector .%s on untyped value", name)
	}
	if strings.HasPrefix(name, "$") {
		t := v.Typ
		if isPtr(t) {
			t = deref(t)
		}
		key := shortT(t)
		if isIface(v.Typ) {
			// ghost fields on interfaces are keyed by payload
			key = shortT(v.Typ)
		}
		gf := e.w.ghostFields[key]
		for _, g := range e.w.ghostFields["any"] {
			if g.name == name {
				key, gf = "any", []bvar{g}
			}
		}
		for _, g := range gf {
			if g.name == name {
				so, ty := ghostSort(e.w, g.typ)
				ref := v.T
				if ref.Sort == "Iface" {
					ref = e.ctx.IVal(ref)
				}
				if ref.Sort == "Slice" {
					ref = e.ctx.SArr(ref)
				}
				return Val{Typ: ty, T: e.rd(s.st, "F|"+key+"|"+name, so, ref)}
			}
		}
		// promoted ghost fields through embedding
		if st, ok := under(t).(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() {
					f := s.sel(v, st.Field(i).Name())
					ok := false
					var r Val
					func() {
						defer func() { recover() }()
						r = s.sel(f, name)
						ok = true
					}()
					if ok {
						return r
					}
				}
			}
		}
		sfail("no ghost field %s on %s", name, key)
	}
	obj, index, _ := types.LookupFieldOrMethod(v.Typ, true, e.w.pkgOf(v.Typ), name)
	f, ok := obj.(*types.Var)
	if !ok {
		sfail("no field %s in %s", name, shortT(v.Typ))
	}
	_ = f
	cur := v
	for _, i := range index {
		cur = e.fieldOf(cur, i, s.st)
	}
	return cur
}

// fieldOf reads field i of a struct value or of the object behind a pointer.
func (e *Exec) fieldOf(v Val, i int, st *State) Val {
	if isPtr(v.Typ) {
		t := deref(v.Typ)
		stt := under(t).(*types.Struct)
		if v.Addr != nil {
			a := *v.Addr
			a.Path = append(append([]int{}, a.Path...), i)
			a.Typ = stt.Field(i).Type()
			return e.load(&a, st)
		}
		return e.load(&Addr{Kind: 'F', Base: v.T, Root: t, Path: []int{i}, Typ: stt.Field(i).Type()}, st)
	}
	return v.Sub[i]
}

func (s *SEnv) call(x *Ex) Val {
	e := s.e
	c := e.ctx
	intv := func(t *Term) Val { return Val{Typ: types.Typ[types.Int], T: t} }
	boolv := func(t *Term) Val { return Val{Typ: types.Typ[types.Bool], T: t} }
	strv := func(t *Term) Val { return Val{Typ: types.Typ[types.String], T: t} }
	switch x.s {
	case "old":
		if s.old == nil {
			sfail("old() not available here")
		}
		n := *s
		n.st = s.old
		return n.eval(x.kids[0])
	case "outer":
		// in the contract of a returned function: the state in which the function that made it was called
		if e.outerSt == nil {
			sfail("outer() only in contracts of returned functions")
		}
		n := *s
		n.st = e.outerSt
		return n.eval(x.kids[0])
	case "entry":
		if s.loopEntry == nil {
			sfail("entry() only in loop invariants")
		}
		n := *s
		n.st = s.loopEntry
		return n.eval(x.kids[0])
	case "len":
		v := s.eval(x.kids[0])
		if v.T == nil {
			sfail("len of non scalar")
		}
		if v.T.Sort == "Slice" {
			n := c.SLen(v.T)
			e.lenFacts(n) // slices in the heap are well formed
			return intv(n)
		}
		if v.T.Sort == "Str" {
			return intv(c.App("strlen", "Int", v.T))
		}
		if v.Typ != nil && isMap(v.Typ) {
			return intv(c.Ite(c.Eq(v.T, c.Int(0)), c.Int(0), e.rd(s.st, "ML", "Int", v.T)))
		}
		sfail("len of %s", v.T.Sort)
	case "arr":
		return intv(c.SArr(s.term(x.kids[0])))
	case "soff":
		return intv(c.SOff(s.term(x.kids[0])))
	case "typeis":
		v := s.eval(x.kids[0])
		t := e.w.typeByName(x.kids[1].s)
		if t == nil {
			sfail("unknown type %s", x.kids[1].s)
		}
		return boolv(c.Eq(c.ITag(v.T), e.tagOf(t)))
	case "typetag":
		t := e.w.typeByName(x.kids[0].s)
		if t == nil {
			sfail("unknown type %s", x.kids[0].s)
		}
		return intv(e.tagOf(t))
	case "tag":
		return intv(c.ITag(s.term(x.kids[0])))
	case "implements":
		v := s.eval(x.kids[0])
		t := e.w.typeByName(x.kids[1].s)
		return boolv(e.implPred(c.ITag(v.T), t))
	case "as":
		v := s.eval(x.kids[0])
		t := e.w.typeByName(x.kids[1].s)
		if t == nil {
			sfail("unknown type %s", x.kids[1].s)
		}
		if v.T != nil && v.T.Sort == "Int" {
			return Val{Typ: t, T: v.T}
		}
		if isIface(t) {
			return Val{Typ: t, T: v.T}
		}
		return e.unboxPure(c.IVal(v.T), t)
	case "ref":
		v := s.eval(x.kids[0])
		t := e.scalar(v, s.st)
		switch t.Sort {
		case "Iface":
			t = c.IVal(t)
		case "Slice":
			t = c.SArr(t)
		}
		return intv(t)
	case "fresh":
		v := s.eval(x.kids[0])
		t := e.scalar(v, s.st)
		switch t.Sort {
		case "Iface":
			t = c.IVal(t)
		case "Slice":
			t = c.SArr(t)
		}
		if s.old == nil {
			sfail("fresh() needs an old state")
		}
		if s.facts {
			e.softFresh[t] = s.old.alloc
		}
		return boolv(c.And(c.Le(s.old.alloc, t), c.Lt(t, s.st.alloc)))
	case "allocated":
		v := s.eval(x.kids[0])
		t := e.scalar(v, s.st)
		switch t.Sort {
		case "Iface":
			t = c.IVal(t)
		case "Slice":
			t = c.SArr(t)
		}
		return boolv(c.Lt(t, s.st.alloc))
	case "has":
		v := s.eval(x.kids[0])
		u := under(v.Typ).(*types.Map)
		k := s.eval(x.kids[1])
		return boolv(e.mapHas(v.T, u, e.keyOf(k, s.st), s.st))
	case "pair":
		return Val{T: c.ctor("mkP2", "P2", s.term(x.kids[0]), s.term(x.kids[1]))}
	case "hasp":
		v := s.eval(x.kids[0])
		u := under(v.Typ).(*types.Map)
		return boolv(e.mapHas(v.T, u, s.term(x.kids[1]), s.st))
	case "seen":
		// has the innermost map range already visited this key?
		var best *iterState
		for _, v := range s.st.env {
			if v.Iter != nil && v.Iter.typ != nil && (best == nil || v.Iter.visited.I > best.visited.I) {
				best = v.Iter
			}
		}
		if best == nil {
			sfail("no map range here")
		}
		k := s.eval(x.kids[0])
		kt := k.T
		if kt == nil || kt.Sort != keySort(best.typ.Key()) {
			kt = e.keyOf(k, s.st)
		}
		if kt.Sort != keySort(best.typ.Key()) {
			sfail("key sort")
		}
		return boolv(c.Select(s.st.locals[int(best.visited.I)].T, kt))
	case "seencount":
		var best *iterState
		for _, v := range s.st.env {
			if v.Iter != nil && v.Iter.typ != nil && (best == nil || v.Iter.visited.I > best.visited.I) {
				best = v.Iter
			}
		}
		if best == nil {
			sfail("no map range here")
		}
		return Val{Typ: types.Typ[types.Int], T: s.st.locals[int(best.visited.I)+1].T}
	case "slice":
		v := s.eval(x.kids[0])
		lo, hi := s.term(x.kids[1]), s.term(x.kids[2])
		return Val{Typ: v.Typ, T: c.MkS(c.SArr(v.T), c.Add(c.SOff(v.T), lo), c.Sub(hi, lo))}
	case "rstr":
		v := s.eval(x.kids[0])
		return strv(e.runesToStr(v.T, s.st))
	case "upper":
		return strv(e.strUpper(s.term(x.kids[0])))
	case "lower":
		return strv(e.strLower(s.term(x.kids[0])))
	case "str1":
		return strv(e.str1(s.term(x.kids[0])))
	case "str2":
		return strv(e.str2(s.term(x.kids[0]), s.term(x.kids[1])))
	case "iface":
		v := s.eval(x.kids[0])
		if v.T != nil && v.T.Sort == "Iface" {
			return v
		}
		return Val{Typ: types.NewInterfaceType(nil, nil), T: c.MkI(e.tagOf(v.Typ), e.box(v, v.Typ, s.st))}
	case "list":
		// list(r, a, opt(b), ...): r holds exactly these values in order, opt values only when not nil
		r := s.eval(x.kids[0])
		n := c.Int(0)
		out := []*Term{}
		for _, k := range x.kids[1:] {
			opt := k.op == "call" && k.s == "opt"
			if opt {
				k = k.kids[0]
			}
			v := s.eval(k)
			present := c.True()
			if opt {
				present = c.Not(s.eqv(v, Val{Typ: types.Typ[types.UntypedNil], T: c.Int(0)}))
			}
			if v.T == nil || v.T.Sort != "Iface" {
				v = Val{Typ: types.NewInterfaceType(nil, nil), T: c.MkI(e.tagOf(v.Typ), e.box(v, v.Typ, s.st))}
			}
			el := e.loadElem(under(r.Typ).(*types.Slice).Elem(), c.SArr(r.T), c.Ix(c.SOff(r.T), n), s.st)
			out = append(out, c.Imp(present, c.Eq(el.T, v.T)))
			n = c.Add(n, c.Ite(present, c.Int(1), c.Int(0)))
		}
		return boolv(c.And(append(out, c.Eq(c.SLen(r.T), n))...))
	case "isown":
		v := s.eval(x.kids[0])
		_ = v
		return boolv(c.True())
	case "seqeq":
		// seqeq(a,b): same length and contents
		a, b := s.eval(x.kids[0]), s.eval(x.kids[1])
		el := under(a.Typ).(*types.Slice).Elem()
		k := c.BV("k", "Int")
		la := e.loadElem(el, c.SArr(a.T), c.Ix(c.SOff(a.T), k), s.st)
		lb := e.loadElem(el, c.SArr(b.T), c.Ix(c.SOff(b.T), k), s.st)
		return boolv(c.And(c.Eq(c.SLen(a.T), c.SLen(b.T)), c.Forall([]*Term{k}, trg(la, lb), c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, c.SLen(a.T))), s.eqv(la, lb)))))
	}
	if d, ok := e.w.defs[x.s]; ok {
		if len(d.params) != len(x.kids) {
			sfail("%s: wrong number of arguments", x.s)
		}
		if s.depth > 60 {
			sfail("recursive def %s", x.s)
		}
		vars := map[string]Val{}
		for i, p := range d.params {
			vars[p] = s.eval(x.kids[i])
		}
		n := *s
		n.vars = vars
		n.depth++
		return n.eval(d.body)
	}
	if g, ok := e.w.ghostFns[x.s]; ok {
		so, ty := ghostSort(e.w, g.res)
		var args []*Term
		if len(g.args) != len(x.kids) {
			sfail("%s: wrong number of arguments", x.s)
		}
		for i, k := range x.kids {
			v := s.eval(k)
			as, _ := ghostSort(e.w, g.args[i])
			t := v.T
			if t == nil {
				t = e.scalar(v, s.st)
			}
			if t.Sort != as {
				if as == "Int" && t.Sort == "Iface" {
					t = c.IVal(t)
				} else if as == "Int" && t.Sort == "Slice" {
					t = c.SArr(t)
				} else if as == "Iface" && t.Sort == "Int" && v.Typ != nil && !isNilT(v.Typ) {
					t = c.MkI(e.tagOf(v.Typ), t)
				} else if v.Typ != nil && isNilT(v.Typ) {
					t = zeroTerm(c, as)
				} else {
					sfail("%s: argument %d has sort %s, want %s", x.s, i, t.Sort, as)
				}
			}
			args = append(args, t)
		}
		for _, rd := range g.reads {
			args = append(args, e.heapComp(s.st, rd))
		}
		return Val{Typ: ty, T: c.App(g.name, so, args...)}
	}
	sfail("unknown function %s", x.s)
	return Val{}
}

func (e *Exec) unboxPure(iv *Term, t types.Type) Val {
	c := e.ctx
	if isPtr(t) || isMap(t) {
		return Val{Typ: t, T: iv}
	}
	ls := leaves(t)
	var ts []*Term
	for i, l := range ls {
		if iv.Op == "app" && iv.S == sanitize("box."+shortT(t)) {
			ts = append(ts, iv.Args[i])
		} else {
			ts = append(ts, c.App(fmt.Sprintf("unbox.%s.%d", shortT(t), i), l.sort, iv))
		}
	}
	v, _ := e.unflat(t, ts)
	return v
}

func trg(vs ...Val) [][]*Term {
	var out [][]*Term
	for _, v := range vs {
		if v.T == nil || !v.T.bv {
			return nil
		}
		out = append(out, []*Term{v.T})
	}
	return out
}

// heapFact: what every state of the heap guarantees about a reference read from an existing object.
func (s *SEnv) heapFact(v Val) Val {
	e := s.e
	c := e.ctx
	if v.T == nil || v.T.bv || v.T.Op != "select" || v.Typ == nil {
		return v
	}
	base := v.T.Args[1]
	if h := v.T.Args[0]; h.Op == "select" {
		base = h.Args[1]
	}
	if base.Sort != "Int" {
		return v
	}
	var f *Term
	switch under(v.Typ).(type) {
	case *types.Slice:
		f = c.And(c.Le(c.Int(0), c.SLen(v.T)), c.Le(c.Int(0), c.SOff(v.T)), c.Lt(c.SArr(v.T), s.st.alloc))
	case *types.Pointer, *types.Map:
		f = c.Lt(v.T, s.st.alloc)
	default:
		return v
	}
	f = c.Imp(c.And(s.st.guard, c.Lt(base, s.st.alloc)), f)
	if !c.boxed[f] {
		c.boxed[f] = true
		c.facts = append(c.facts, f)
	}
	return v
}

// lenFacts: the lengths of slices n is made of are not negative
func (e *Exec) lenFacts(n *Term) {
	switch {
	case n.bv:
	case n.Op == "ite":
		e.lenFacts(n.Args[1])
		e.lenFacts(n.Args[2])
	case n.Op == "+":
		e.lenFacts(n.Args[0])
	case n.Op == "app" && n.S == "slen" && n.Args[0].Op != "app":
		e.rawAssume(e.ctx.Le(e.ctx.Int(0), n))
	}
}
