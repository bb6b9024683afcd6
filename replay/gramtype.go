package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

var realNames = []string{"Real48", "Real", "Single", "Double", "Extended", "Currency", "Comp"}
var ordNames = []string{"Shortint", "Smallint", "Integer", "Byte", "Longint", "Int64", "Word", "Boolean", "Char", "WideChar", "Longword", "PChar"}

func builtin(n string) *astcore.Decl {
	for _, k := range []ast.EmbeddedTypeKind{ast.EtkReal, ast.EtkOrdIdent, ast.EtkStringType, ast.EtkVariantType, ast.EtkPointerType} {
		if d := ast.EmbeddedTypeDecl(k, n); d != nil {
			return d
		}
	}
	return nil
}

// tid: a type name, qualified, built in, declared, or declared later in this section
func (g *gram) tid() *ast.TypeId {
	switch g.in(6) {
	case 0:
		if n := g.pick(isUses); n != "" {
			r := &ast.TypeId{UnitId: g.id(n)}
			g.t(".")
			r.Ident = g.id([]string{"TThing", "tx"}[g.in(2)])
			return r
		}
	case 1, 2:
		if n := g.pick(isTypeDecl); n != "" {
			return &ast.TypeId{Ident: g.id(n), Ref: g.sc.get(n)}
		}
	case 3:
		n := randCase(g.r, []string{"TLater", "TLater2", "TNever"}[g.in(3)])
		r := &ast.TypeId{Ident: g.id(n), Ref: g.sc.get(n)}
		if r.Ref == nil && g.intype {
			g.post = append(g.post, func() { r.Ref = g.sc.get(n) })
		}
		return r
	}
	n := randCase(g.r, append(append([]string{"AnsiString", "Variant"}, realNames...), ordNames...)[g.in(2+len(realNames)+len(ordNames))])
	return &ast.TypeId{Ident: g.id(n), Ref: builtin(n)}
}
func (g *gram) enum() ast.EnumeratedType {
	g.t("(")
	l := ast.EnumeratedType{}
	for i := 0; i == 0 || g.p(2, 3); i++ {
		if i > 0 {
			g.t(",")
		}
		e := &ast.EnumeratedTypeElement{Ident: g.id(g.fresh())}
		if g.p(1, 4) {
			g.t("=")
			e.ConstExpr = g.expr()
		}
		g.declare(e, e.Ident)
		l = append(l, e)
	}
	g.t(")")
	return l
}
func (g *gram) range_() *ast.SubrangeType {
	r := &ast.SubrangeType{}
	if g.p(1, 3) {
		// an identifier, not qualified and followed directly by ..
		n := g.pick(func(d *astcore.Decl) bool { return !isNs(d) })
		if n == "" || builtin(n) != nil {
			n = "lowEnd"
		}
		d := g.sc.get(n)
		r.Low = ast.NewConstExpr(ast.NewQualId(nil, &ast.IdentRef{Ident: g.id(n), Ref: d}))
	} else {
		var f ast.Factor
		if g.p(1, 2) {
			f = g.num()
		} else {
			f = g.str()
		}
		e := &ast.SimpleExpression{Term: &ast.Term{Factor: f}}
		if g.p(1, 4) {
			g.t("+")
			e.AddOpTerms = ast.AddOpTerms{{AddOp: "+", Term: g.term()}}
		}
		r.Low = &ast.Expression{SimpleExpression: e}
	}
	g.t("..")
	r.High = g.expr()
	return r
}
func (g *gram) ordinal() ast.OrdinalType {
	switch g.in(5) {
	case 0:
		return g.enum()
	case 1:
		return g.range_()
	case 2:
		n := g.pick(func(d *astcore.Decl) bool {
			td, ok := d.Node.(*ast.TypeDecl)
			if !ok {
				return false
			}
			switch td.Type.(type) {
			case ast.EnumeratedType, *ast.SubrangeType:
				return true
			}
			return false
		})
		if n != "" {
			return &ast.TypeId{Ident: g.id(n), Ref: g.sc.get(n)}
		}
	}
	n := randCase(g.r, []string{"Integer", "Boolean", "Char", "Byte"}[g.in(4)])
	return &ast.TypeId{Ident: g.id(n), Ref: builtin(n)}
}
func (g *gram) idlist() []*ast.Ident {
	var l []*ast.Ident
	for i := 0; i == 0 || g.p(1, 3); i++ {
		if i > 0 {
			g.t(",")
		}
		l = append(l, g.id(g.fresh()))
	}
	return l
}
func (g *gram) fields(end string) *ast.FieldList {
	fl := &ast.FieldList{}
	n := g.in(4)
	variant := end == "END" && g.p(1, 4)
	for i := 0; i < n; i++ {
		f := &ast.FieldDecl{IdentList: g.idlist()}
		g.t(":")
		f.Type = g.typ(2)
		fl.FieldDecls = append(fl.FieldDecls, f)
		if i < n-1 || variant || g.p(1, 2) {
			g.t(";")
		}
	}
	if variant {
		g.kw("CASE")
		v := &ast.VariantSection{}
		if g.p(1, 2) {
			v.Ident = g.id(g.fresh())
			g.t(":")
		}
		for {
			mark, back := len(g.toks), g.mark()
			v.TypeId = g.ordinal()
			// the parser wants an identifier here
			if identish(g.toks[mark].s) {
				break
			}
			back()
		}
		g.kw("OF")
		m := g.in(3)
		for i := 0; i < m; i++ {
			rv := &ast.RecVariant{ConstExprs: g.exprs()}
			g.t(":", "(")
			rv.FieldList = g.fields(")")
			v.RecVariants = append(v.RecVariants, rv)
			if i < m-1 || g.p(1, 2) {
				g.t(";")
			}
		}
		fl.VariantSection = v
	}
	g.kw(end)
	return fl
}
func (g *gram) formals(open, close string) ast.FormalParameters {
	g.t(open)
	l := ast.FormalParameters{}
	for i := 0; i == 0 || g.p(1, 2); i++ {
		if i > 0 {
			g.t(";")
		}
		f := &ast.FormalParm{Parameter: &ast.Parameter{}}
		switch g.in(6) {
		case 0:
			g.kw("VAR")
			f.Opt = &ast.FpoVar
		case 1:
			g.kw("CONST")
			f.Opt = &ast.FpoConst
		case 2:
			g.kw("OUT")
			f.Opt = &ast.FpoOut
		}
		f.IdentList = g.idlist()
		if g.p(3, 4) {
			g.t(":")
			pt := &ast.ParameterType{}
			if g.p(1, 4) {
				g.kw("ARRAY")
				g.kw("OF")
				pt.IsArray = true
			}
			if pt.IsArray && g.p(1, 3) {
				g.kw("CONST")
			} else {
				for {
					mark, back := len(g.toks), g.mark()
					pt.Type = g.typ(1)
					if !strings.EqualFold(g.toks[mark].s, "ARRAY") {
						break
					}
					back()
				}
			}
			f.Type = pt
		}
		if (f.Type == nil || !endsInExpr(f.Type.Type)) && g.p(1, 4) {
			g.t("=")
			f.ConstExpr = g.expr()
		}
		g.declare(f, f.IdentList...)
		l = append(l, f)
	}
	g.t(close)
	return l
}

// typ generates a type; d limits the nesting
func (g *gram) typ(d int) ast.Type {
	k := g.in(20)
	if g.small() || d <= 0 {
		k = g.in(7)
	}
	switch k {
	default:
		return g.tid()
	case 1:
		g.t("^")
		return &ast.CustomPointerType{TypeId: g.tid()}
	case 2:
		n := randCase(g.r, "STRING")
		id := g.id(n)
		if g.p(1, 2) {
			g.t("[")
			e := g.expr()
			g.t("]")
			return ast.NewFixedStringType(id, e)
		}
		return ast.NewStringType(id)
	case 3, 4:
		return g.ordinal()
	case 7, 8:
		a := &ast.ArrayType{}
		if g.p(1, 4) {
			g.kw("PACKED")
			a.Packed = true
		}
		g.kw("ARRAY")
		if g.p(2, 3) {
			g.t("[")
			for i := 0; i == 0 || g.p(1, 3); i++ {
				if i > 0 {
					g.t(",")
				}
				a.IndexTypes = append(a.IndexTypes, g.ordinal())
			}
			g.t("]")
		}
		g.kw("OF")
		a.BaseType = g.typ(d - 1)
		if _, ok := a.BaseType.(*ast.ArrayType); !ok && g.p(1, 6) {
			g.kw("PACKED")
			a.Packed = true
		}
		return a
	case 9:
		a := &ast.SetType{}
		if g.p(1, 4) {
			g.kw("PACKED")
			a.Packed = true
		}
		g.kw("SET")
		g.kw("OF")
		a.OrdinalType = g.ordinal()
		return a
	case 10:
		a := &ast.FileType{}
		if g.p(1, 4) {
			g.kw("PACKED")
			a.Packed = true
		}
		g.kw("FILE")
		g.kw("OF")
		a.TypeId = g.tid()
		return a
	case 11, 12, 13:
		a := &ast.RecType{}
		if g.p(1, 4) {
			g.kw("PACKED")
			a.Packed = true
		}
		g.kw("RECORD")
		a.FieldList = g.fields("END")
		return a
	case 14, 15:
		a := &ast.ProcedureType{FunctionType: ast.FtProcedure}
		if g.p(1, 2) {
			a.FunctionType = ast.FtFunction
		}
		g.kw(map[ast.FunctionType]string{ast.FtFunction: "FUNCTION", ast.FtProcedure: "PROCEDURE"}[a.FunctionType])
		pop := g.push()
		if g.p(2, 3) {
			a.FormalParameters = g.formals("(", ")")
		}
		if a.FunctionType == ast.FtFunction {
			g.t(":")
			a.ReturnType = g.tid()
		}
		pop()
		if g.p(1, 3) {
			g.kw("OF")
			g.kw("OBJECT")
			a.OfObject = true
		}
		return a
	case 16:
		g.kw("CLASS")
		g.kw("OF")
		n := g.pick(isTypeDecl)
		if n == "" || g.p(1, 3) {
			n = "TUnknownClass"
		}
		t := &ast.TypeId{Ident: g.id(n), Ref: g.sc.get(n)}
		return ast.NewCustomClassRefType(t)
	case 17, 18, 19:
		if !g.cls {
			return g.tid()
		}
		return g.class()
	}
}
func (g *gram) heading(res *ast.FunctionHeading) {
	res.Type = ast.FtProcedure
	if g.p(1, 2) {
		res.Type = ast.FtFunction
	}
	g.kw(map[ast.FunctionType]string{ast.FtFunction: "FUNCTION", ast.FtProcedure: "PROCEDURE"}[res.Type])
	res.Ident = g.id(g.fresh())
	if g.p(1, 2) {
		res.FormalParameters = g.formals("(", ")")
	}
	if res.Type == ast.FtFunction {
		g.t(":")
		res.ReturnType = g.tid()
	}
}

// ancestor names a class that is complete (a class that inherits from itself is not among the inputs)
func (g *gram) ancestor() *ast.TypeId {
	if n := g.pick(isClassDecl); n != "" && g.p(3, 4) {
		return &ast.TypeId{Ident: g.id(n), Ref: g.sc.get(n)}
	}
	if n := g.pick(isUses); n != "" && g.p(1, 4) {
		r := &ast.TypeId{UnitId: g.id(n)}
		g.t(".")
		r.Ident = g.id("tx")
		return r
	}
	n := randCase(g.r, []string{"TNever", "TObject", "Integer"}[g.in(3)])
	if b := builtin(n); b != nil {
		return &ast.TypeId{Ident: g.id(n), Ref: b}
	}
	return &ast.TypeId{Ident: g.id(n), Ref: g.sc.get(n)}
}
func isClassDecl(d *astcore.Decl) bool {
	t, ok := d.Node.(*ast.TypeDecl)
	if !ok {
		return false
	}
	if f, ok := t.Type.(*ast.ForwardDeclaredClassType); ok {
		return f.Actual != nil
	}
	_, ok = t.Type.(*ast.CustomClassType)
	return ok
}
func (g *gram) class() ast.Type {
	c := &ast.CustomClassType{}
	g.kw("CLASS")
	if g.p(1, 2) {
		g.t("(")
		for i := 0; i == 0 || g.p(1, 4); i++ {
			if i > 0 {
				g.t(",")
			}
			c.Heritage = append(c.Heritage, g.ancestor())
		}
		g.t(")")
	}
	short := g.short
	g.short = false
	defer func() { g.short = false }()
	ns := g.in(4)
	for i := 0; i < ns; i++ {
		s := &ast.ClassMemberSection{Visibility: ast.CvDefault}
		c.Members = append(c.Members, s)
		if v := g.in(5); v > 0 {
			s.Visibility = []ast.ClassVisibility{ast.CvPrivate, ast.CvProtected, ast.CvPublic, ast.CvPublished}[v-1]
			g.kw(string(s.Visibility))
		}
		nf, nm, np := g.in(3), g.in(3), g.in(3)
		if s.Visibility == ast.CvDefault {
			if i > 0 { // only the first section can go without
				s.Visibility = ast.CvPublic
				g.kw("PUBLIC")
			} else {
				nf++
			}
		}
		for j := 0; j < nf; j++ {
			f := &ast.ClassField{IdentList: g.idlist()}
			if q := parentOf(c); q != nil && g.p(1, 3) {
				// hides a member of the ancestor
				for _, s := range q.Members {
					for _, x := range s.ClassFieldList {
						f.IdentList[0].Name = randCase(g.r, x.IdentList[0].Name)
					}
				}
				for i := range g.toks {
					if g.toks[i].ident == f.IdentList[0] {
						g.toks[i].s = f.IdentList[0].Name
					}
				}
			}
			g.t(":")
			f.Type = g.typ(1)
			s.ClassFieldList = append(s.ClassFieldList, f)
			if j < nf-1 || g.p(3, 4) {
				g.t(";")
			}
		}
		for j := 0; j < nm; j++ {
			m := &ast.ClassMethod{}
			pop := g.push()
			switch g.in(4) {
			case 0:
				g.kw("CONSTRUCTOR")
				h := &ast.ConstructorHeading{Ident: g.id(g.fresh())}
				if g.p(1, 2) {
					h.FormalParameters = g.formals("(", ")")
				}
				m.Heading = h
			case 1:
				g.kw("DESTRUCTOR")
				m.Heading = &ast.DestructorHeading{Ident: g.id(g.fresh())}
			default:
				h := &ast.FunctionHeading{}
				g.heading(h)
				m.Heading = h
			}
			pop()
			g.t(";")
			for g.p(1, 3) {
				d := ast.ClassMethodDirectives[g.in(len(ast.ClassMethodDirectives))]
				g.kw(string(d))
				g.t(";")
				m.Directives = append(m.Directives, d)
			}
			s.ClassMethodList = append(s.ClassMethodList, m)
		}
		var props ast.ClassPropertyList // the section has its properties only once they are all read
		for j := 0; j < np; j++ {
			p := g.property(c)
			if j < np-1 || g.p(3, 4) {
				g.t(";")
			}
			props = append(props, p)
		}
		s.ClassPropertyList = props
	}
	if short && len(c.Members) == 0 && c.Heritage != nil && g.p(1, 2) {
		return c // class(TParent);
	}
	g.kw("END")
	return c
}

// member picks the name of a member of c visible to itself
func (g *gram) member(c *ast.CustomClassType) string {
	var ns []string
	var add func(c *ast.CustomClassType, d int)
	add = func(c *ast.CustomClassType, d int) {
		if c == nil || d > 4 {
			return
		}
		for _, s := range c.Members {
			for _, f := range s.ClassFieldList {
				for _, i := range f.IdentList {
					ns = append(ns, i.Name)
				}
			}
			for _, m := range s.ClassMethodList {
				ns = append(ns, m.Heading.GetIdent().Name)
			}
		}
		if p := parentOf(c); p != nil {
			add(p, d+1)
		}
	}
	add(c, 0)
	if len(ns) == 0 {
		return ""
	}
	n := ns[g.in(len(ns))]
	if c.FindMemberDecl(n, true) == nil {
		return ""
	}
	return randCase(g.r, n)
}
func parentOf(c *ast.CustomClassType) *ast.CustomClassType {
	return c.GetParentClass()
}
func (g *gram) property(c *ast.CustomClassType) *ast.ClassProperty {
	p := &ast.ClassProperty{}
	g.kw("PROPERTY")
	name := g.fresh()
	if q := parentOf(c); q != nil && g.p(1, 2) {
		for _, s := range q.Members {
			for _, x := range s.ClassPropertyList {
				name = randCase(g.r, x.Ident.Name)
			}
		}
	}
	p.Ident = g.id(name)
	if g.p(2, 3) {
		p.Interface = &ast.PropertyInterface{}
		if g.p(1, 4) {
			pop := g.push()
			p.Interface.Parameters = g.formals("[", "]")
			g.t(":")
			p.Interface.Type = g.tid()
			pop()
		} else {
			g.t(":")
			p.Interface.Type = g.tid()
		}
	}
	if g.p(1, 5) {
		g.kw("INDEX")
		p.Index = g.expr()
	}
	parent := c.FindProperty(p.Ident.Name, true)
	if g.p(1, 2) {
		if n := g.member(c); n != "" {
			g.kw("READ")
			p.Read = &ast.IdentRef{Ident: g.id(n), Ref: c.FindMemberDecl(n, true)}
		}
	}
	if g.p(1, 2) {
		if n := g.member(c); n != "" {
			g.kw("WRITE")
			p.Write = &ast.IdentRef{Ident: g.id(n), Ref: c.FindMemberDecl(n, true)}
		}
	}
	if g.p(1, 4) {
		switch g.in(3) {
		case 0, 1:
			v := g.p(1, 2)
			g.kw("STORED")
			g.kw(fmt.Sprint(v))
			p.Stored = &ast.PropertyStoredSpecifier{Constant: &v}
		default:
			if n := g.member(c); n != "" {
				g.kw("STORED")
				p.Stored = &ast.PropertyStoredSpecifier{IdentRef: &ast.IdentRef{Ident: g.id(n), Ref: c.FindMemberDecl(n, true)}}
			}
		}
	}
	if g.p(1, 4) {
		if g.p(1, 2) {
			g.kw("DEFAULT")
			p.Default = &ast.PropertyDefaultSpecifier{Value: g.expr()}
		} else {
			v := true
			g.kw("NODEFAULT")
			p.Default = &ast.PropertyDefaultSpecifier{NoDefault: &v}
		}
	}
	if g.p(1, 6) {
		g.kw("IMPLEMENTS")
		p.Implements = g.tid()
	}
	if p.InheritsFrom(parent) {
		p.Parent = parent
	}
	return p
}

// ---- declarations ----
func (g *gram) typeSection() ast.TypeSection {
	g.kw("TYPE")
	g.intype = true
	l := ast.TypeSection{}
	n := 1 + g.in(4)
	fwd := ""
	var fwdDecl *ast.TypeDecl
	later := []string{"TLater", "TLater2"}
	for i := 0; i < n || fwd != ""; i++ {
		d := &ast.TypeDecl{}
		name := g.fresh()
		if fwd == "" && len(later) > 0 && g.sc.get(later[0]) == nil && g.p(1, 3) {
			name = randCase(g.r, later[0])
		}
		done := fwd != "" && (i >= n || g.p(1, 2))
		if done {
			name = randCase(g.r, fwd)
		}
		d.Ident = g.id(name)
		g.t("=")
		if g.p(1, 10) {
			g.kw("TYPE")
		}
		ended := false
		if done {
			g.short = true
			d.Type = g.class()
			g.short = false
			fwd = ""
			fwdDecl.Type.(*ast.ForwardDeclaredClassType).Actual = d.Type.(*ast.CustomClassType)
		} else if g.cls && fwd == "" && g.p(1, 6) {
			g.kw("CLASS")
			d.Type = &ast.ForwardDeclaredClassType{}
			fwd, fwdDecl, ended = name, d, true
		} else if g.cls && g.p(1, 2) {
			g.short = true
			d.Type = g.class()
			g.short = false
		} else {
			d.Type = g.typ(3)
		}
		g.declare(d, d.Ident)
		if !ended && !bareHeritage(d.Type, g.toks) && g.p(1, 6) {
			s := ast.PortabilityDirective(randCase(g.r, []string{"platform", "deprecated"}[g.in(2)]))
			if g.p(1, 4) {
				s = "LIBRARY"
				g.kw("library")
			} else {
				g.t(string(s))
			}
			d.PortabilityDirective = &s
		}
		g.t(";")
		l = append(l, d)
	}
	for _, f := range g.post {
		f()
	}
	g.post = nil
	g.intype = false
	return l
}
func bareHeritage(t ast.Type, toks []tok) bool {
	_, ok := t.(*ast.CustomClassType)
	return ok && !strings.EqualFold(toks[len(toks)-1].s, "END")
}
func (g *gram) varSection() ast.VarSection {
	g.kw("VAR")
	l := ast.VarSection{}
	for i := 0; i == 0 || g.p(1, 2); i++ {
		d := &ast.VarDecl{IdentList: g.idlist()}
		g.t(":")
		d.Type = g.typ(2)
		if g.p(1, 6) {
			g.kw("ABSOLUTE")
			n := g.fresh()
			g.t(n)
			a := ast.VarDeclAbsoluteIdent(ast.Ident{Name: n})
			d.Absolute = &a
		}
		if (d.Absolute != nil || !endsInExpr(d.Type)) && g.p(1, 4) {
			g.t("=")
			d.ConstExpr = g.expr()
		}
		g.t(";")
		g.declare(d, d.IdentList...)
		l = append(l, d)
	}
	return l
}
func (g *gram) threadSection() ast.ThreadVarSection {
	g.kw("THREADVAR")
	l := ast.ThreadVarSection{}
	for i := 0; i == 0 || g.p(1, 2); i++ {
		d := &ast.ThreadVarDecl{IdentList: g.idlist()}
		g.t(":")
		d.Type = g.typ(2)
		g.t(";")
		g.declare(d, d.IdentList...)
		l = append(l, d)
	}
	return l
}
func (g *gram) constSection() ast.ConstSection {
	g.kw("CONST")
	l := ast.ConstSection{}
	for i := 0; i == 0 || g.p(1, 2); i++ {
		d := &ast.ConstantDecl{Ident: g.id(g.fresh())}
		g.declare(d, d.Ident)
		if g.p(1, 3) {
			g.t(":")
			for {
				back := g.mark()
				if d.Type = g.typ(2); !endsInExpr(d.Type) {
					break
				}
				back()
			}
		}
		g.t("=")
		d.ConstExpr = g.expr()
		g.t(";")
		l = append(l, d)
	}
	return l
}
func (g *gram) directives() (ds []ast.Directive, opts *ast.ExternalOptions) {
	names := []string{"CDECL", "REGISTER", "STDCALL", "OVERLOAD", "PASCAL", "SAFECALL", "FORWARD", "EXTERNAL", "FAR"}
	for g.p(1, 3) {
		n := names[g.in(len(names))]
		g.kw(n)
		ds = append(ds, ast.Directive(n))
		if n == "EXTERNAL" {
			opts = nil
			if g.p(2, 3) {
				lib := []string{"'a.dll'", "'user32.dll'"}[g.in(2)]
				g.t(lib)
				opts = &ast.ExternalOptions{LibraryName: lib}
				switch g.in(3) {
				case 0:
					g.kw("NAME")
					s := "'Fn'"
					g.t(s)
					opts.Name = &s
				case 1:
					g.kw("INDEX")
					v := g.in(100)
					g.t(fmt.Sprint(v))
					opts.Index = &v
				}
			}
		}
		g.t(";")
	}
	return
}
func bodyless(ds []ast.Directive) bool {
	for _, d := range ds {
		if d == "FORWARD" || d == "EXTERNAL" {
			return true
		}
	}
	return false
}
func (g *gram) function(d int) *ast.FunctionDecl {
	f := &ast.FunctionDecl{FunctionHeading: &ast.FunctionHeading{}}
	pop := g.push()
	defer pop()
	g.heading(f.FunctionHeading)
	g.t(";")
	g.declare(f, f.FunctionHeading.Ident)
	f.Directives, f.ExternalOptions = g.directives()
	if bodyless(f.Directives) {
		f.Block = &ast.Block{}
		return f
	}
	f.Block = g.block(d-1, true)
	return f
}
func (g *gram) block(d int, body bool) *ast.Block {
	b := &ast.Block{}
	b.DeclSections = g.sections(d, g.in(4))
	b.ExportsStmts1 = g.exports()
	switch g.in(6) {
	case 0:
		g.kw("ASM")
		g.t("nop")
		g.kw("END")
		b.Body = &ast.AssemblerStatement{}
	default:
		g.kw("BEGIN")
		b.Body = &ast.CompoundStmt{StmtList: g.stmts(func() { g.kw("END") })}
	}
	b.ExportsStmts2 = g.exports()
	return b
}
func (g *gram) exports() ast.ExportsStmts {
	var l ast.ExportsStmts
	for g.p(1, 6) {
		g.kw("EXPORTS")
		e := &ast.ExportsStmt{}
		for i := 0; i == 0 || g.p(1, 2); i++ {
			if i > 0 {
				g.t(",")
			}
			it := &ast.ExportsItem{Ident: g.id(g.fresh())}
			switch g.in(4) {
			case 0:
				g.kw("NAME")
				it.Name = g.expr()
			case 1:
				g.kw("INDEX")
				it.Index = g.expr()
			}
			e.ExportsItems = append(e.ExportsItems, it)
		}
		g.t(";")
		l = append(l, e)
	}
	return l
}
func (g *gram) sections(d int, n int) ast.DeclSections {
	var l ast.DeclSections
	for i := 0; i < n; i++ {
		k := g.in(7)
		if d <= 0 && k > 4 {
			k = g.in(5)
		}
		switch k {
		case 0:
			g.kw("LABEL")
			x := &ast.LabelDeclSection{LabelId: g.id(g.fresh())}
			g.t(";")
			g.declare(x, x.LabelId)
			l = append(l, x)
		case 1:
			l = append(l, g.constSection())
		case 2:
			l = append(l, g.typeSection())
		case 3:
			l = append(l, g.varSection())
		case 4:
			l = append(l, g.threadSection())
		default:
			f := g.function(d)
			l = append(l, f)
			if !bodyless(f.Directives) {
				g.t(";")
			}
		}
	}
	return l
}
func (g *gram) uses(l []string) ast.UsesClause {
	var r ast.UsesClause
	if len(l) == 0 {
		return nil
	}
	g.kw("USES")
	for i, n := range l {
		if i > 0 {
			g.t(",")
		}
		u := &ast.UsesClauseItem{Ident: g.id(n)}
		if g.p(1, 2) {
			g.kw("IN")
			s := "'dir\\" + n + ".pas'"
			g.t(s)
			u.Path = &s
		}
		r = append(r, u)
	}
	g.t(";")
	for _, u := range r {
		g.declare(u, u.Ident)
	}
	return r
}
func (g *gram) unit() *ast.Unit {
	u := &ast.Unit{}
	g.kw("UNIT")
	u.Ident = g.id(g.fresh())
	if g.p(1, 4) {
		s := ast.PortabilityDirective(randCase(g.r, "deprecated"))
		g.t(string(s))
		u.PortabilityDirective = &s
	}
	g.t(";")
	g.kw("INTERFACE")
	u.InterfaceSection = &ast.InterfaceSection{}
	pick := func() (l []string) {
		for g.p(1, 2) {
			l = append(l, "U"+g.fresh())
		}
		return
	}
	u.InterfaceSection.UsesClause = g.uses(pick())
	for g.p(2, 3) && !g.small() {
		var d ast.InterfaceDecl
		switch g.in(6) {
		case 0:
			d = g.constSection()
		case 1, 2:
			d = g.typeSection()
		case 3:
			d = g.varSection()
		case 4:
			d = g.threadSection()
		default:
			h := &ast.ExportedHeading{FunctionHeading: &ast.FunctionHeading{}}
			pop := g.push()
			g.heading(h.FunctionHeading)
			g.t(";")
			h.Directives, h.ExternalOptions = g.directives()
			pop()
			d = h
		}
		u.InterfaceSection.InterfaceDecls = append(u.InterfaceSection.InterfaceDecls, d)
	}
	g.kw("IMPLEMENTATION")
	g.push()
	u.ImplementationSection = &ast.ImplementationSection{}
	u.ImplementationSection.UsesClause = g.uses(pick())
	u.ImplementationSection.DeclSections = g.sections(2, g.in(4))
	u.ImplementationSection.ExportsStmts = g.exports()
	if g.p(1, 2) {
		g.kw("INITIALIZATION")
		u.InitSection = &ast.InitSection{}
		if g.p(1, 2) {
			u.InitSection.InitializationStmts = g.stmts(func() { g.kw("FINALIZATION") })
			u.InitSection.FinalizationStmts = g.stmts(func() { g.kw("END") })
		} else {
			u.InitSection.InitializationStmts = g.stmts(func() { g.kw("END") })
		}
	} else {
		g.kw("END")
	}
	g.t(".")
	return u
}
