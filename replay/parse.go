package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
)

// a context with a few declarations, known to the generator as well
func world(g *gram, lv level) (*parser.ProgramContext, func(complete bool) string) {
	g.sc = &scp{nil, map[string]*astcore.Decl{}}
	m := astcore.NewDeclMap()
	add := func(m astcore.DeclMap, n astcore.DeclNode) {
		if err := m.Set(n); err != nil {
			panic(err)
		}
	}
	mk := func(names ...string) (l ast.IdentList) {
		for _, n := range names {
			l = append(l, mkIdent(n))
		}
		return
	}
	um := astcore.NewDeclMap()
	add(um, &ast.VarDecl{IdentList: mk("uvar", "ux")})
	add(um, &ast.TypeDecl{Ident: mkIdent("tunit"), Type: ast.EnumeratedType{}})
	u := &ast.Unit{Ident: mkIdent("UnitA"), DeclMap: um}
	add(m, &ast.UsesClauseItem{Ident: mkIdent("UnitA"), Unit: u})
	add(m, &ast.VarDecl{IdentList: mk("alpha", "Beta", "i", "e1")})
	add(m, &ast.TypeDecl{Ident: mkIdent("TColor"), Type: ast.EnumeratedType{}})
	add(m, &ast.TypeDecl{Ident: mkIdent("TObj"), Type: &ast.CustomClassType{}})
	add(m, &ast.LabelDeclSection{LabelId: mkIdent("lab1")})
	add(m, &ast.LabelDeclSection{LabelId: mkIdent("again")})
	pm := astcore.NewDeclMap()
	add(pm, &ast.VarDecl{IdentList: mk("pvar")})
	add(m, &ast.Program{Ident: mkIdent("Prog"), DeclMap: pm})
	for _, k := range keysOf(m) {
		g.sc.m[k] = m.Get(k)
	}
	var dm astcore.DeclMap = astcore.NewCompositeDeclMap(m, ast.EmbeddedTypeDeclMap)
	if (lv == lexpr || lv == lstmt) && g.p(1, 2) {
		// an inner scope whose names hide others
		l := astcore.NewChainedDeclMap(dm)
		g.push()
		hide := []string{"pvar", "ux", "Beta", "TColor"}
		if lv == lexpr {
			hide = append(hide, "Real", "integer")
		}
		v := &ast.VarDecl{IdentList: mk(hide...)}
		add(l, v)
		for _, h := range hide {
			k := strings.ToLower(h)
			g.sc.m[k] = l.Get(k)
		}
		dm = l
	}
	ctx := parser.NewProgramContext("x.pas", dm)
	before := ctx.DeclMap
	had := map[string]*astcore.Decl{}
	for _, k := range keysOf(m) {
		had[k] = m.Get(k)
	}
	return ctx, func(complete bool) string {
		if ctx.DeclMap != before {
			return "the scope is not what it was before"
		}
		for k, d := range had {
			if m.Get(k) != d {
				return "the declaration of " + k + " is lost or replaced"
			}
		}
		if complete && dm != nil && g.sc.parent == nil {
			for _, k := range keysOf(m) {
				if g.sc.m[k] == nil {
					return k + " is declared in the outer scope"
				}
			}
			for k := range g.sc.m {
				if ctx.Get(k) == nil {
					return k + " is not declared"
				}
			}
		}
		return ""
	}
}

type level int

const (
	lexpr level = iota
	lstmt
	ldecl
	lclass
	lunit
)

var enders = map[level][]string{lexpr: {";", ")", "then", "end", "]", ":", "do", "1"}, lstmt: {";", "end", "until", ")", "else"}, ldecl: {"begin", "end", "."}, lclass: {"begin", "end", "var"}}

// genParse generates one tree at a level and compares the parser's tree with it.
func genParse(r *rand.Rand, lv level, what string, budget int) (msg string) {
	g := &gram{r: r, budget: budget, cls: lv == lclass || lv == lunit && r.Intn(2) == 0}
	ctx, scopeOK := world(g, lv)
	var want interface{}
	switch lv {
	case lexpr:
		want = g.expr()
	case lstmt:
		want = g.closed()
	case ldecl:
		want = g.block(2, true)
	case lclass:
		want = g.typeSection()
	case lunit:
		g.sc = &scp{nil, map[string]*astcore.Decl{}}
		want = g.unit()
	}
	last := len(g.toks)
	if e := enders[lv]; e != nil && r.Intn(3) > 0 {
		g.t(e[r.Intn(len(e))])
		if lv == lstmt {
			if s := want.(*ast.Statement); isRaise(s) {
				g.toks[last].s = ";"
			}
		}
	}
	total := what == "panic" || what == "hang"
	broken := (what == "scope" || total) && g.p(1, 2) && len(g.toks) > 0
	for n := 1; broken && n > 0 && len(g.toks) > 0; n-- {
		if total && g.p(1, 3) {
			n++
		}
		// a text with something wrong in it: the scope is restored all the same
		i := g.in(len(g.toks))
		switch g.in(4) {
		case 0:
			g.toks = append(g.toks[:i:i], g.toks[i+1:]...)
		case 1:
			g.toks = g.toks[:i]
		case 2:
			g.toks[i] = tok{s: g.toks[g.in(len(g.toks))].s}
		default:
			g.toks[i] = tok{s: []string{"5", ";", ")", "end", "x", "of", "'s'"}[g.in(7)]}
		}
	}
	text, pos := g.render()
	rs := []rune(text)
	defer func() {
		if what == "hang" || what == "scope" {
			if x := recover(); x != nil {
				msg = "" // a panic is another property's concern
			}
		}
		if msg != "" {
			msg += "\ntext: " + text
		}
	}()
	var got interface{}
	var err error
	var cur *token.Token
	if lv == lunit {
		p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext()))
		p.SetText(&rs)
		p.NextToken()
		got, err = p.ParseUnit()
		cur = p.CurrentToken()
		last = len(pos) - 1
	} else {
		p := parser.NewParser(ctx)
		p.SetText(&rs)
		p.NextToken()
		switch lv {
		case lexpr:
			got, err = p.ParseExpression()
		case lstmt:
			got, err = p.ParseStatement()
		case ldecl:
			got, err = p.ParseBlock()
		case lclass:
			got, err = p.ParseTypeSection(true)
		}
		cur = p.CurrentToken()
	}
	if total {
		return ""
	}
	if broken {
		return scopeOK(false)
	}
	if err != nil && what == "scope" {
		if m := scopeOK(false); m != "" {
			return m
		}
	}
	if err != nil {
		rejected[lv]++
		lastErr[lv] = err.Error() + "\n" + text
		return "" // acceptance is not part of these properties
	}
	accepted[lv]++
	c := &cmp{text: rs, pairs: map[interface{}]interface{}{}, refs: what == "refs", memb: lv == lclass}
	c.same("tree", reflect.ValueOf(want), reflect.ValueOf(got))
	if m := c.finish(); m != "" {
		return m
	}
	if what != "refs" {
		end := len(rs)
		if last < len(pos) {
			end = pos[last]
		}
		if last < len(pos) && cur.Start.Index != end || last == len(pos) && cur.Type != token.EOF {
			return fmt.Sprintf("the parser stopped at %d instead of %d", cur.Start.Index, end)
		}
	}
	if what == "scope" && lv != lunit {
		return scopeOK(true)
	}
	return ""
}
func isRaise(s *ast.Statement) bool {
	_, ok := s.Body.(*ast.RaiseStmt)
	return ok
}

var accepted, rejected = map[level]int{}, map[level]int{}
var lastErr = map[level]string{}

func parseProp(what string, lvs ...level) *prop {
	return seedProp(3000, func(r *rand.Rand) string {
		lv := lvs[r.Intn(len(lvs))]
		return genParse(r, lv, what, 3+r.Intn(60))
	})
}
func init() {
	props["C05"] = parseProp("panic", lexpr, lstmt, ldecl, lclass, lunit)
	props["C06"] = parseProp("hang", lexpr, lstmt, ldecl, lclass, lunit)
	props["C07"] = parseProp("tree", lexpr)
	props["C08"] = parseProp("tree", lstmt)
	props["C09"] = parseProp("tree", ldecl)
	props["C10"] = parseProp("tree", lclass)
	props["C11"] = parseProp("tree", lunit)
	props["C12"] = parseProp("scope", lstmt, ldecl, lclass)
	props["C14"] = parseProp("refs", lexpr, lstmt, ldecl, lclass, lunit)
}
