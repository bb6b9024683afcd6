package main

import (
	"fmt"
	"math/rand"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/ext"
	"github.com/akm/tparser/parser/pcontext"
)

// ---- C13: declaration maps against a reference model ----

type refMap struct {
	own    map[string]*astcore.Decl // where declarations go
	search []func(string) *astcore.Decl
	set    *refMap
}

func (m *refMap) get(n string) *astcore.Decl {
	for _, f := range m.search {
		if d := f(n); d != nil {
			return d
		}
	}
	return nil
}
func (m *refMap) target() map[string]*astcore.Decl {
	if m.set != nil {
		return m.set.target()
	}
	return m.own
}

type mapPair struct {
	m astcore.DeclMap
	r *refMap
}

func ownMap() *refMap {
	o := map[string]*astcore.Decl{}
	return &refMap{own: o, search: []func(string) *astcore.Decl{func(n string) *astcore.Decl { return o[low(n)] }}}
}

func mkMap(r *rand.Rand, depth int, all *[]mapPair) mapPair {
	var p mapPair
	k := r.Intn(8)
	if depth == 0 {
		k = 0
	}
	switch k {
	case 0, 7:
		p = mapPair{astcore.NewDeclMap(), ownMap()}
	case 1, 2:
		q := mkMap(r, depth-1, all)
		rm := ownMap()
		rm.search = append(rm.search, q.r.get)
		p = mapPair{astcore.NewChainedDeclMap(q.m), rm}
	case 3:
		n := 1 + r.Intn(3)
		var ms []astcore.DeclMap
		rm := &refMap{}
		for i := 0; i < n; i++ {
			q := mkMap(r, depth-1, all)
			ms = append(ms, q.m)
			rm.search = append(rm.search, q.r.get)
			if i == 0 {
				rm.set = q.r
			}
		}
		p = mapPair{astcore.NewCompositeDeclMap(ms...), rm}
	case 4:
		q := mkMap(r, depth-1, all)
		p = mapPair{pcontext.NewProgramContext(q.m), &refMap{set: q.r, search: []func(string) *astcore.Decl{q.r.get}}}
	case 5:
		q := mkMap(r, depth-1, all)
		p = mapPair{pcontext.NewUnitContext(pcontext.NewProgramContext(), q.m), &refMap{set: q.r, search: []func(string) *astcore.Decl{q.r.get}}}
	case 6:
		q := mkMap(r, depth-1, all)
		pc := pcontext.NewProgramContext(q.m)
		rm := ownMap()
		rm.search = append(rm.search, q.r.get)
		p = mapPair{pcontext.NewStackableContext(pc), rm}
	}
	*all = append(*all, p)
	return p
}

func mkDecl(r *rand.Rand) (astcore.DeclNode, []*ast.Ident) {
	id := mkIdent(pickName(r))
	il := ast.IdentList{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		il = append(il, mkIdent(pickName(r)))
	}
	one := []*ast.Ident{id}
	switch r.Intn(16) {
	case 0:
		return &ast.VarDecl{IdentList: il}, il
	case 1:
		return &ast.ThreadVarDecl{IdentList: il}, il
	case 2:
		return &ast.FieldDecl{IdentList: il}, il
	case 3:
		return &ast.ClassField{IdentList: il}, il
	case 4:
		return &ast.FormalParm{Parameter: &ast.Parameter{IdentList: il}}, il
	case 5:
		return &ast.LabelDeclSection{LabelId: id}, one
	case 6:
		return &ast.ConstantDecl{Ident: id}, one
	case 7:
		return &ast.TypeDecl{Ident: id}, one
	case 8:
		return &ast.ClassProperty{Ident: id}, one
	case 9:
		return &ast.EnumeratedTypeElement{Ident: id}, one
	case 10:
		return &ast.Unit{Ident: id}, one
	case 11:
		return &ast.UsesClauseItem{Ident: id}, one
	case 12:
		return &ast.FunctionDecl{FunctionHeading: &ast.FunctionHeading{Ident: id}}, one
	case 13:
		return &ast.ExportedHeading{FunctionHeading: &ast.FunctionHeading{Ident: id}}, one
	case 14:
		return &ast.ClassMethod{Heading: &ast.ConstructorHeading{Ident: id}}, one
	}
	return &ast.ExceptionBlockHandlerDecl{Ident: id}, one
}

func checkMaps(r *rand.Rand) string {
	var all []mapPair
	mkMap(r, 3, &all)
	hist := ""
	for op := 0; op < 12; op++ {
		p := all[r.Intn(len(all))]
		switch r.Intn(3) {
		case 0:
			n, ids := mkDecl(r)
			ds := n.ToDeclarations()
			if len(ds) != len(ids) {
				return fmt.Sprintf("%T declares %d names, ToDeclarations gives %d", n, len(ids), len(ds))
			}
			for i, d := range ds {
				if d.Ident != ids[i] || d.Node != astcore.Node(n) {
					return fmt.Sprintf("%T: declaration %d is not that of name %q of the node", n, i, ids[i].Name)
				}
			}
			hist += fmt.Sprintf(" Set(%T %v)", n, ast.IdentList(ids).Names())
			t := p.r.target()
			dup := false
			seen := map[string]bool{}
			before := map[string]*astcore.Decl{}
			for k, v := range t {
				before[k] = v
			}
			for _, i := range ids {
				k := low(i.Name)
				if t[k] != nil || seen[k] {
					dup = true
				}
				seen[k] = true
			}
			err := p.m.Set(n)
			if (err != nil) != dup {
				return fmt.Sprintf("%s: duplicate=%v, Set returned %v", hist, dup, err)
			}
			// follow what was stored: names of the node not declared before, up to the first duplicate
			for _, i := range ids {
				k := low(i.Name)
				if t[k] != nil {
					break
				}
				d := p.m.Get(i.Name)
				if d == nil || d.Ident != i || d.Node != astcore.Node(n) {
					return fmt.Sprintf("%s: Get(%q) does not give the declaration just set", hist, i.Name)
				}
				t[k] = d
			}
		case 1:
			d := &astcore.Decl{Ident: mkIdent("o")}
			nm := pickName(r)
			hist += fmt.Sprintf(" Overwrite(%q)", nm)
			p.m.Overwrite(nm, d)
			p.r.target()[low(nm)] = d
		}
		for _, q := range all {
			for _, nm := range nameStock {
				if q.m.Get(nm) != q.r.get(nm) {
					return fmt.Sprintf("after%s: Get(%q) of a %T gave another declaration than the innermost one of that name", hist, nm, q.m)
				}
			}
		}
	}
	return ""
}

// ---- the string helpers (C20) ----

func checkStrings(r *rand.Rand) string {
	a, b := ext.Strings(names(r)), ext.Strings(names(r))
	if r.Intn(3) == 0 {
		b = append(ext.Strings{}, a...)
	}
	q := pickName(r)
	in, eq := false, len(a) == len(b)
	for i, x := range a {
		in = in || x == q
		eq = eq && x == b[i]
	}
	if a.Include(q) != in {
		return fmt.Sprintf("Strings%q.Include(%q) = %v", a, q, !in)
	}
	if a.Equal(b) != eq {
		return fmt.Sprintf("Strings%q.Equal(%q) = %v", a, b, !eq)
	}
	rv := a.Reverse()
	if len(rv) != len(a) {
		return "Strings.Reverse changed the length"
	}
	for i := range a {
		if rv[i] != a[len(a)-1-i] {
			return fmt.Sprintf("Strings%q.Reverse() = %q", a, rv)
		}
	}
	s := a.Set()
	if s.Include(q) != in {
		return fmt.Sprintf("Strings%q.Set().Include(%q) = %v", a, q, !in)
	}
	s.Add(q)
	if !s.Include(q) {
		return "StringSet.Add does not add"
	}
	s.Remove(q)
	if s.Include(q) {
		return "StringSet.Remove does not remove"
	}
	for _, x := range a {
		if x != q && !s.Include(x) {
			return "StringSet.Remove removed more than its argument"
		}
	}
	return ""
}
