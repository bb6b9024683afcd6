package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

// A random tree is generated together with the text it stands for. The parser's tree for the text is then
// compared with it, field by field; references are compared by what they refer to.

type tok struct {
	s     string
	ident *ast.Ident // to check its place
}

type scp struct {
	parent *scp
	m      map[string]*astcore.Decl
}

func (s *scp) get(n string) *astcore.Decl {
	for ; s != nil; s = s.parent {
		if d := s.m[strings.ToLower(n)]; d != nil {
			return d
		}
	}
	return nil
}

type gram struct {
	short  bool // class(T) without END is possible
	r      *rand.Rand
	toks   []tok
	sc     *scp
	cls    bool // generate class types
	post   []func()
	intype bool
	n      int // fresh names
	budget int
}

func (g *gram) in(n int) int    { return g.r.Intn(n) }
func (g *gram) p(a, b int) bool { return g.r.Intn(b) < a }
func (g *gram) t(ss ...string) {
	for _, s := range ss {
		g.toks = append(g.toks, tok{s: s})
	}
}

// kw emits a reserved word or directive in some case
func (g *gram) kw(s string) { g.t(randCase(g.r, s)) }
func (g *gram) small() bool { g.budget--; return g.budget < 0 }

func (g *gram) id(n string) *ast.Ident {
	d := &ast.Ident{Name: n}
	g.toks = append(g.toks, tok{s: n, ident: d})
	return d
}
func (g *gram) fresh() string {
	g.n++
	return randCase(g.r, fmt.Sprintf("%s%d", []string{"nm", "_q", "Val", "x_"}[g.in(4)], g.n))
}
func (g *gram) push() func() {
	old := g.sc
	g.sc = &scp{old, map[string]*astcore.Decl{}}
	return func() { g.sc = old }
}

// mark remembers the state of the generation; the function returned goes back to it
func (g *gram) mark() func() {
	n, sc, m, np := len(g.toks), g.sc, map[string]*astcore.Decl{}, len(g.post)
	for k, v := range sc.m {
		m[k] = v
	}
	return func() {
		g.toks, g.sc, g.post = g.toks[:n], sc, g.post[:np]
		for k := range sc.m {
			if m[k] == nil {
				delete(sc.m, k)
			}
		}
	}
}

// endsInExpr: an operator after t would belong to t
func endsInExpr(t interface{}) bool {
	switch x := t.(type) {
	case *ast.SubrangeType:
		return true
	case *ast.ArrayType:
		return endsInExpr(x.BaseType)
	case *ast.SetType:
		return endsInExpr(x.OrdinalType)
	}
	return false
}
func (g *gram) declare(n astcore.DeclNode, ids ...*ast.Ident) {
	for _, i := range ids {
		g.sc.m[strings.ToLower(i.Name)] = &astcore.Decl{Ident: i, Node: n}
	}
}

// pick a visible name whose declaration satisfies f; "" if none
func (g *gram) pick(f func(d *astcore.Decl) bool) string {
	seen := map[string]bool{}
	var c []string
	for s := g.sc; s != nil; s = s.parent {
		var ks []string
		for k := range s.m {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			if !seen[k] {
				seen[k] = true
				if f(s.m[k]) {
					c = append(c, k)
				}
			}
		}
	}
	if len(c) == 0 {
		return ""
	}
	return randCase(g.r, c[g.in(len(c))])
}
func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
func isTypeDecl(d *astcore.Decl) bool { _, ok := d.Node.(*ast.TypeDecl); return ok }
func isUses(d *astcore.Decl) bool     { _, ok := d.Node.(*ast.UsesClauseItem); return ok }
func isNs(d *astcore.Decl) bool {
	if isUses(d) {
		return true
	}
	switch d.Node.(type) {
	case *ast.Unit, *ast.Program:
		return true
	}
	return false
}
func isLabel(d *astcore.Decl) bool { _, ok := d.Node.(*ast.LabelDeclSection); return ok }
func nsDecls(d *astcore.Decl) astcore.DeclMap {
	switch n := d.Node.(type) {
	case *ast.UsesClauseItem:
		if n.Unit == nil {
			return nil
		}
		return n.Unit.DeclMap
	case *ast.Unit:
		return n.DeclMap
	case *ast.Program:
		return n.DeclMap
	}
	return nil
}

// ---- expressions ----
func (g *gram) expr() *ast.Expression {
	e := &ast.Expression{SimpleExpression: g.simple()}
	for !g.small() && g.p(1, 5) {
		op := []string{">", "<", "<=", ">=", "=", "<>", "IN", "IS"}[g.in(8)]
		g.kw(op)
		e.RelOpSimpleExpressions = append(e.RelOpSimpleExpressions, &ast.RelOpSimpleExpression{RelOp: op, SimpleExpression: g.simple()})
	}
	return e
}
func (g *gram) simple() *ast.SimpleExpression {
	e := &ast.SimpleExpression{}
	if g.p(1, 6) {
		s := []string{"+", "-"}[g.in(2)]
		g.t(s)
		e.UnaryOp = &s
	}
	e.Term = g.term()
	for !g.small() && g.p(1, 4) {
		op := []string{"+", "-", "OR", "XOR"}[g.in(4)]
		g.kw(op)
		e.AddOpTerms = append(e.AddOpTerms, &ast.AddOpTerm{AddOp: op, Term: g.term()})
	}
	return e
}
func (g *gram) term() *ast.Term {
	e := &ast.Term{Factor: g.factor()}
	for !g.small() && g.p(1, 4) {
		op := []string{"*", "/", "DIV", "MOD", "AND", "SHL", "SHR"}[g.in(7)]
		g.kw(op)
		e.MulOpFactors = append(e.MulOpFactors, &ast.MulOpFactor{MulOp: op, Factor: g.factor()})
	}
	return e
}
func (g *gram) num() *ast.NumberFactor {
	s := []string{"0", "12", "3.14", "-7", "007", "-0.5", "99999999999"}[g.in(7)]
	g.t(s)
	return &ast.NumberFactor{Value: s}
}
func (g *gram) str() *ast.StringFactor {
	s := []string{"''", "'a'", "'it is'", "'{x}'", "'TRUE'", "'日本'", `'\'q'`}[g.in(7)]
	g.t(s)
	return &ast.StringFactor{Value: s}
}
func (g *gram) factor() ast.Factor {
	k := g.in(16)
	if g.small() {
		k = 8 + g.in(8)
	}
	switch k {
	case 0:
		g.t("@")
		return &ast.Address{Designator: g.desig()}
	case 1, 2:
		g.t("[")
		s := &ast.SetConstructor{}
		for i := 0; i == 0 || g.p(1, 3); i++ {
			if i > 0 {
				g.t(",")
			}
			el := &ast.SetElement{Expression: g.expr()}
			if g.p(1, 3) {
				g.t("..")
				el.SubRangeEnd = g.expr()
			}
			s.SetElements = append(s.SetElements, el)
		}
		g.t("]")
		return s
	case 3, 4:
		g.t("(")
		e := g.expr()
		g.t(")")
		return &ast.Parentheses{Expression: e}
	case 5:
		g.kw("NOT")
		return &ast.Not{Factor: g.factor()}
	case 6:
		n := g.pick(isTypeDecl)
		if n == "" {
			return g.num()
		}
		ti := &ast.TypeId{Ident: g.id(n), Ref: g.sc.get(n)}
		g.t("(")
		e := g.expr()
		g.t(")")
		return &ast.TypeCast{TypeId: ti, Expression: e}
	case 7, 8, 9, 10:
		d := &ast.DesignatorFactor{Designator: g.desig()}
		if len(d.Designator.Items) > 0 || d.Designator.QualId.NamespaceId != nil || !g.isTypeName(d.Designator.QualId.Ident.Ident.Name) {
			if !g.small() && g.p(1, 3) {
				g.t("(")
				d.ExprList = g.exprs()
				g.t(")")
			}
		}
		return d
	case 11:
		g.kw("NIL")
		return &ast.Nil{}
	case 12:
		s := randCase(g.r, []string{"TRUE", "FALSE"}[g.in(2)])
		g.t(s)
		return &ast.ValueFactor{Value: s}
	case 13:
		return g.str()
	}
	return g.num()
}
func (g *gram) isTypeName(n string) bool { d := g.sc.get(n); return d != nil && isTypeDecl(d) }
func (g *gram) exprs() ast.ExprList {
	l := ast.ExprList{}
	for i := 0; i == 0 || g.p(1, 3); i++ {
		if i > 0 {
			g.t(",")
		}
		l = append(l, g.expr())
	}
	return l
}

func (g *gram) qual() *ast.QualId {
	if g.p(1, 4) {
		if n := g.pick(func(d *astcore.Decl) bool { return isNs(d) && nsDecls(d) != nil && len(keysOf(nsDecls(d))) > 0 }); n != "" {
			d := g.sc.get(n)
			q := &ast.QualId{NamespaceId: &ast.IdentRef{Ident: g.id(n), Ref: d}}
			ks := keysOf(nsDecls(d))
			k := randCase(g.r, ks[g.in(len(ks))])
			g.t(".")
			q.Ident = &ast.IdentRef{Ident: g.id(k), Ref: nsDecls(d).Get(k)}
			return q
		}
	}
	n := g.pick(func(d *astcore.Decl) bool { return !isNs(d) })
	if n == "" || g.p(1, 5) {
		n = randCase(g.r, []string{"undeclared", "nobody", "_"}[g.in(3)])
	}
	return &ast.QualId{Ident: &ast.IdentRef{Ident: g.id(n), Ref: g.sc.get(n)}}
}
func (g *gram) desig() *ast.Designator {
	d := &ast.Designator{QualId: g.qual()}
	for !g.small() && g.p(1, 3) {
		switch g.in(3) {
		case 0:
			g.t(".")
			n := []string{"Field", "x", "Items", "true", "name"}[g.in(5)]
			d.Items = append(d.Items, (*ast.DesignatorItemIdent)(&ast.DesignatorItemIdent{Ident: g.id(n)}))
		case 1:
			g.t("[")
			d.Items = append(d.Items, ast.DesignatorItemExprList(g.exprs()))
			g.t("]")
		case 2:
			g.t("^")
			d.Items = append(d.Items, &ast.DesignatorItemDereference{})
		}
	}
	return d
}

// ---- statements ----
// openIf: a following ELSE would belong to s
func openIf(s *ast.Statement) bool {
	switch b := s.Body.(type) {
	case *ast.IfStmt:
		if b.Else == nil {
			return true
		}
		return openIf(b.Else)
	case *ast.WhileStmt:
		return openIf(b.Statement)
	case *ast.ForStmt:
		return openIf(b.Statement)
	case *ast.WithStmt:
		return openIf(b.Statement)
	}
	return false
}

// closed generates a statement that no ELSE can follow into
func (g *gram) closed() *ast.Statement {
	back := g.mark()
	s := g.stmt()
	if !openIf(s) {
		return s
	}
	back()
	g.kw("BEGIN")
	l := g.stmts(func() { g.kw("END") })
	return &ast.Statement{Body: &ast.CompoundStmt{StmtList: l}}
}
func (g *gram) stmts(end func()) ast.StmtList {
	l := ast.StmtList{}
	for {
		l = append(l, g.stmt())
		if _, ok := l[len(l)-1].Body.(*ast.RaiseStmt); ok {
			g.t(";")
			if g.p(1, 2) {
				continue
			}
			break
		}
		if g.small() || g.p(1, 2) {
			if g.p(1, 2) {
				g.t(";")
			}
			break
		}
		g.t(";")
	}
	end()
	return l
}
func (g *gram) stmt() *ast.Statement {
	s := &ast.Statement{}
	if g.p(1, 10) {
		if n := g.pick(isLabel); n != "" {
			s.LabelId = g.id(n)
			g.t(":")
		}
	}
	k := g.in(22)
	if g.small() {
		k = 14 + g.in(8)
	}
	switch k {
	case 0:
		g.kw("BEGIN")
		s.Body = &ast.CompoundStmt{StmtList: g.stmts(func() { g.kw("END") })}
	case 1, 2:
		b := &ast.IfStmt{}
		g.kw("IF")
		b.Condition = g.expr()
		g.kw("THEN")
		if g.p(1, 2) {
			b.Then = g.closed()
			g.kw("ELSE")
			b.Else = g.stmt()
		} else {
			b.Then = g.stmt()
		}
		s.Body = b
	case 3, 4:
		b := &ast.CaseStmt{}
		g.kw("CASE")
		b.Expression = g.expr()
		g.kw("OF")
		for i := 0; i == 0 || g.p(1, 2); i++ {
			c := &ast.CaseSelector{}
			for j := 0; j == 0 || g.p(1, 3); j++ {
				if j > 0 {
					g.t(",")
				}
				cl := &ast.CaseLabel{ConstExpr: g.expr()}
				if g.p(1, 3) {
					g.t("..")
					cl.ExtraConstExpr = g.expr()
				}
				c.Labels = append(c.Labels, cl)
			}
			g.t(":")
			c.Statement = g.stmt()
			g.t(";")
			b.Selectors = append(b.Selectors, c)
		}
		if g.p(1, 2) {
			g.kw("ELSE")
			b.Else = g.stmts(func() { g.kw("END") })
		} else {
			g.kw("END")
		}
		s.Body = b
	case 5:
		b := &ast.RepeatStmt{}
		g.kw("REPEAT")
		b.StmtList = g.stmts(func() { g.kw("UNTIL") })
		b.Condition = g.expr()
		s.Body = b
	case 6:
		b := &ast.WhileStmt{}
		g.kw("WHILE")
		b.Condition = g.expr()
		g.kw("DO")
		b.Statement = g.stmt()
		s.Body = b
	case 7, 8:
		b := &ast.ForStmt{}
		g.kw("FOR")
		b.QualId = g.qual()
		g.t(":=")
		b.Initial = g.expr()
		b.Down = g.p(1, 2)
		if b.Down {
			g.kw("DOWNTO")
		} else {
			g.kw("TO")
		}
		b.Terminal = g.expr()
		g.kw("DO")
		b.Statement = g.stmt()
		s.Body = b
	case 9:
		b := &ast.WithStmt{}
		g.kw("WITH")
		for i := 0; i == 0 || g.p(1, 3); i++ {
			if i > 0 {
				g.t(",")
			}
			b.Objects = append(b.Objects, g.qual())
		}
		g.kw("DO")
		b.Statement = g.stmt()
		s.Body = b
	case 10:
		g.kw("TRY")
		l := g.stmts(func() { g.kw("FINALLY") })
		s.Body = &ast.TryFinallyStmt{Statements1: l, Statements2: g.stmts(func() { g.kw("END") })}
	case 11, 12:
		g.kw("TRY")
		l := g.stmts(func() { g.kw("EXCEPT") })
		b := &ast.ExceptionBlock{}
		s.Body = &ast.TryExceptStmt{Statements: l, ExceptionBlock: b}
		if g.p(1, 3) {
			b.Else = g.stmts(func() { g.kw("END") })
			break
		}
		for i := 0; i == 0 || g.p(1, 2); i++ {
			pop := g.push()
			h := &ast.ExceptionBlockHandler{Decl: &ast.ExceptionBlockHandlerDecl{}}
			g.kw("ON")
			tn := g.pick(isTypeDecl)
			if tn == "" || g.p(1, 2) {
				h.Decl.Ident = g.id(randCase(g.r, []string{"E", "Err"}[g.in(2)]))
				for g.isTypeName(h.Decl.Ident.Name) {
					h.Decl.Ident = g.id(g.fresh())
				}
				g.t(":")
				h.Decl.Type = g.typ(1)
				g.declare(h.Decl, h.Decl.Ident)
			} else {
				h.Decl.Type = &ast.TypeId{Ident: g.id(tn), Ref: g.sc.get(tn)}
			}
			g.kw("DO")
			h.Statement = g.closed()
			pop()
			b.Handlers = append(b.Handlers, h)
			if _, ok := h.Statement.Body.(*ast.RaiseStmt); ok || g.p(2, 3) {
				g.t(";")
			}
		}
		if g.p(1, 2) {
			g.kw("ELSE")
			b.Else = g.stmts(func() {})
		}
		g.kw("END")
	case 13:
		b := &ast.RaiseStmt{}
		g.kw("RAISE")
		if g.p(2, 3) {
			b.Object = g.expr()
		}
		if g.p(1, 3) {
			g.kw("AT")
			b.Address = g.expr()
		}
		s.Body = b
		if b.Object == nil && b.Address == nil {
			// must be followed by a semicolon: put it in a block
			g.toks = g.toks[:len(g.toks)-1]
			g.kw("BEGIN")
			g.kw("RAISE")
			g.t(";")
			g.kw("END")
			s.Body = &ast.CompoundStmt{StmtList: ast.StmtList{{Body: b}}}
		}
	case 14:
		g.kw("INHERITED")
		s.Body = &ast.InheritedStatement{}
	case 15:
		n := g.pick(isLabel)
		if n == "" {
			n = "nolabel"
		}
		g.kw("GOTO")
		s.Body = &ast.GotoStatement{LabelId: g.id(n), Ref: g.sc.get(n)}
	case 16:
		g.kw("ASM")
		for g.p(2, 3) {
			g.t([]string{"mov", "eax", ",", "1", "@x", ";", "begin"}[g.in(7)])
		}
		g.kw("END")
		s.Body = &ast.AssemblerStatement{}
	case 17, 18, 19:
		b := &ast.AssignStatement{Designator: g.stdesig(s)}
		g.t(":=")
		b.Expression = g.expr()
		s.Body = b
	default:
		b := &ast.CallStatement{Designator: g.stdesig(s)}
		if g.p(1, 2) {
			g.t("(")
			b.ExprList = g.exprs()
			g.t(")")
		}
		s.Body = b
	}
	return s
}

// a designator that starts a statement: its first name is no label (unless one stands before it), nor the word ON
func (g *gram) stdesig(s *ast.Statement) *ast.Designator {
	for {
		back := g.mark()
		d := g.desig()
		if s.LabelId != nil || d.QualId.NamespaceId != nil || d.QualId.Ident.Ref == nil || !isLabel(d.QualId.Ident.Ref) {
			return d
		}
		back()
	}
}

// ---- rendering ----
func identish(s string) bool {
	c := s[0]
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func (g *gram) render() (string, []int) {
	var b strings.Builder
	pos := []int{}
	n := 0
	put := func(s string) { b.WriteString(s); n += len([]rune(s)) }
	sp := func() {
		put([]string{" ", "  ", "\n", "\t", " { c } ", " (* c *) ", " // c\n", "\r\n"}[g.in(40)%8*g.in(2)])
	}
	if g.p(1, 3) {
		put(" ")
	}
	prev := ""
	for _, t := range g.toks {
		tight := prev != "" && ((identish(prev) && strings.ContainsAny(t.s[:1], "()[],;:^=")) || (strings.Contains("()[],;", prev) && identish(t.s)))
		if prev != "" && !(tight && g.p(1, 2)) {
			sp()
		}
		pos = append(pos, n)
		put(t.s)
		if t.ident != nil {
			t.ident.Location = &astcore.Location{Start: &astcore.Position{Index: pos[len(pos)-1]}, End: &astcore.Position{Index: n}}
		}
		prev = t.s
	}
	if g.p(1, 2) {
		sp()
	}
	return b.String(), pos
}

// ---- comparison ----
type cmp struct {
	text   []rune
	pairs  map[interface{}]interface{} // generated node -> parsed node
	later  []func() string
	err    string
	refs   bool // compare references as well
	memb   bool // compare the references to members and the parents of properties
	tree   bool
	idents int
}

func (c *cmp) fail(path, f string, a ...interface{}) {
	if c.err == "" {
		c.err = path + ": " + fmt.Sprintf(f, a...)
	}
}
func show(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

var identRefT = reflect.TypeOf(ast.IdentRef{})
var declT = reflect.TypeOf((*astcore.Decl)(nil))
var identT = reflect.TypeOf((*astcore.Ident)(nil))

// same compares the generated value a with the parsed value b
func (c *cmp) same(path string, a, b reflect.Value) {
	if c.err != "" {
		return
	}
	if a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				c.fail(path, "generated nil is %v, parsed nil is %v", a.IsNil(), b.IsNil())
			}
			return
		}
		a, b = a.Elem(), b.Elem()
	}
	if a.Type() != b.Type() {
		c.fail(path, "expected %s but the parser gives %s", a.Type(), b.Type())
		return
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				c.fail(path, "expected %s, parsed %s", show(a), show(b))
			}
			return
		}
		c.pairs[a.Interface()] = b.Interface()
		if a.Type() == identT {
			x, y := a.Interface().(*astcore.Ident), b.Interface().(*astcore.Ident)
			c.idents++
			if x.Name != y.Name {
				c.fail(path, "expected the identifier %q, parsed %q", x.Name, y.Name)
				return
			}
			if y.Location == nil || y.Location.Start == nil || y.Location.End == nil {
				c.fail(path, "identifier %q has no place", y.Name)
				return
			}
			s, e := y.Location.Start.Index, y.Location.End.Index
			if s < 0 || e > len(c.text) || s > e || string(c.text[s:e]) != y.Name {
				c.fail(path, "identifier %q is said to be at %d..%d", y.Name, s, e)
			} else if x.Location != nil && (x.Location.Start.Index != s || x.Location.End.Index != e) {
				c.fail(path, "identifier %q stands at %d..%d but is said to be at %d..%d", y.Name, x.Location.Start.Index, x.Location.End.Index, s, e)
			}
			return
		}
		c.same(path, a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			c.fail(path, "expected %d entries, parsed %d", a.Len(), b.Len())
			return
		}
		for i := 0; i < a.Len(); i++ {
			c.same(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			p := path + "." + f.Name
			fa, fb := a.Field(i), b.Field(i)
			switch {
			case f.Type == declT:
				if c.refs || c.memb && a.Type() == identRefT {
					x, y := fa.Interface().(*astcore.Decl), fb.Interface().(*astcore.Decl)
					c.later = append(c.later, func() string { return c.sameRef(p, x, y) })
				}
			case f.Name == "Location":
			case f.Name == "DeclMap" || f.Name == "Path" && f.Type.Kind() == reflect.String:
			case f.Name == "Unit" || f.Name == "Parent" || f.Name == "Actual":
				if c.refs || c.memb && f.Name == "Parent" {
					c.later = append(c.later, func() string {
						if fa.IsNil() != fb.IsNil() {
							return fmt.Sprintf("%s: expected nil is %v, parsed nil is %v", p, fa.IsNil(), fb.IsNil())
						}
						if !fa.IsNil() {
							if q, ok := c.pairs[fa.Interface()]; ok && q != fb.Interface() {
								return p + ": refers to the wrong node"
							}
						}
						return ""
					})
				}
			case f.Anonymous && f.Type.Kind() == reflect.Interface && f.Name != "Factor" && f.Name != "StringType":
			default:
				c.same(p, fa, fb)
			}
		}
	default:
		if a.Interface() != b.Interface() {
			c.fail(path, "expected %v, parsed %v", a.Interface(), b.Interface())
		}
	}
}
func describe(d *astcore.Decl) string {
	if d == nil {
		return "nothing"
	}
	return fmt.Sprintf("the %T of %s", d.Node, d.Ident.Name)
}
func (c *cmp) sameRef(path string, x, y *astcore.Decl) string {
	if (x == nil) != (y == nil) {
		return fmt.Sprintf("%s: should refer to %s but refers to %s", path, describe(x), describe(y))
	}
	if x == nil || x == y {
		return ""
	}
	q, ok := c.pairs[x.Node]
	if !ok {
		q = x.Node // declared by the harness, not in the text
	}
	if q != interface{}(y.Node) {
		return fmt.Sprintf("%s: should refer to %s but refers to %s", path, describe(x), describe(y))
	}
	if i, ok := c.pairs[x.Ident]; ok && i != interface{}(y.Ident) {
		return fmt.Sprintf("%s: refers to a declaration of %s with the wrong identifier", path, x.Ident.Name)
	}
	return ""
}
func (c *cmp) finish() string {
	if c.err != "" {
		return c.err
	}
	for _, f := range c.later {
		if m := f(); m != "" {
			return m
		}
	}
	return ""
}
func keysOf(m astcore.DeclMap) []string {
	if m == nil {
		return nil
	}
	w, ok := m.(astcore.DeclMapImpl)
	if !ok {
		return nil
	}
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}
