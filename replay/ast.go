package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

func seedProp(n int, f func(r *rand.Rand) string) *prop {
	return &prop{
		enum: func(yield func(Case) bool) {
			for i := 0; i < n; i++ {
				if !yield(Case{Kind: "seed", Nums: []int{i}}) {
					return
				}
			}
		},
		gen:   func(r *rand.Rand) Case { return Case{Kind: "seed", Nums: []int{r.Intn(1 << 30)}} },
		check: func(c Case) string { return f(rand.New(rand.NewSource(int64(c.Nums[0])))) },
	}
}

// ---- C16: children and walking ----

var nodeT = reflect.TypeOf((*astcore.Node)(nil)).Elem()

// mkVal makes a non-nil value of type t.
func mkVal(t reflect.Type, r *rand.Rand, depth int) reflect.Value {
	switch t.Kind() {
	case reflect.Ptr:
		v := reflect.New(t.Elem())
		if t.Elem().Kind() != reflect.Struct {
			v.Elem().Set(mkVal(t.Elem(), r, depth-1))
		}
		return v
	case reflect.Slice:
		n := 1 + r.Intn(3)
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(mkVal(t.Elem(), r, depth-1))
		}
		return s
	case reflect.Interface:
		var cand []reflect.Type
		for _, k := range kidTable {
			if k.proto.Implements(t) {
				cand = append(cand, k.proto)
			}
		}
		if len(cand) == 0 || depth < 0 {
			return reflect.Zero(t)
		}
		return mkVal(cand[r.Intn(len(cand))], r, depth-1)
	case reflect.String:
		return reflect.ValueOf("s").Convert(t)
	}
	return reflect.Zero(t)
}

func sameNode(a, b reflect.Value) bool {
	if a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	if b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		// a slice type declared from another one shares its elements
		if a.Kind() != reflect.Slice || b.Kind() != reflect.Slice {
			return false
		}
	}
	switch a.Kind() {
	case reflect.Ptr:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.Len() == b.Len() && a.Pointer() == b.Pointer()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func checkKids(r *rand.Rand) string {
	row := kidTable[r.Intn(len(kidTable))]
	t := row.proto
	var want []reflect.Value
	desc := ""
	var recv reflect.Value
	each := func(v reflect.Value) {
		for i := 0; i < v.Len(); i++ {
			want = append(want, v.Index(i))
		}
	}
	if t.Kind() == reflect.Slice {
		recv = mkVal(t, r, 3)
		each(recv)
	} else {
		st := t
		if t.Kind() == reflect.Ptr {
			st = t.Elem()
		}
		pv := reflect.New(st)
		for _, part := range strings.Split(row.parts, ",") {
			part = strings.TrimSpace(part)
			if part == "" {
				continue
			}
			list := strings.HasPrefix(part, "each ")
			part = strings.TrimPrefix(part, "each ")
			opt := strings.HasSuffix(part, "?")
			part = strings.TrimSuffix(part, "?")
			f := pv.Elem().FieldByName(part)
			if !f.IsValid() {
				return "" // the part is stored differently here: nothing to compare
			}
			if opt && r.Intn(2) == 0 {
				continue
			}
			v := mkVal(f.Type(), r, 3)
			f.Set(v)
			desc += " " + part
			if list {
				each(f)
			} else if f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface || f.Kind() == reflect.Slice || f.Type().Implements(nodeT) {
				want = append(want, f)
			}
		}
		recv = pv
		if t.Kind() != reflect.Ptr {
			recv = pv.Elem()
		}
	}
	n, ok := recv.Interface().(astcore.Node)
	if !ok {
		return ""
	}
	got := n.Children()
	bad := len(got) != len(want)
	for i := 0; !bad && i < len(want); i++ {
		bad = !sameNode(reflect.ValueOf(got[i]), want[i])
	}
	if bad {
		return fmt.Sprintf("Children of %v with%s set: %d children, expected %d (each part once, in order)", t, desc, len(got), len(want))
	}
	return ""
}

type fakeNode struct {
	id   int
	kids astcore.Nodes
}

func (m *fakeNode) Children() astcore.Nodes { return m.kids }

func checkWalk(r *rand.Rand) string {
	id := 0
	var want []int
	var mk func(d int) astcore.Node
	mk = func(d int) astcore.Node {
		n := &fakeNode{id: id}
		id++
		want = append(want, n.id)
		if d > 0 {
			for i := r.Intn(4); i > 0; i-- {
				if r.Intn(5) == 0 {
					n.kids = append(n.kids, nil)
				} else {
					n.kids = append(n.kids, mk(d-1))
				}
			}
		}
		return n
	}
	root := mk(r.Intn(5))
	stop := -1
	if r.Intn(2) == 0 {
		stop = r.Intn(len(want))
	}
	var got []int
	e := fmt.Errorf("stop")
	err := astcore.WalkDown(root, func(n astcore.Node) error {
		f, ok := n.(*fakeNode)
		if !ok {
			got = append(got, -1)
			return nil
		}
		got = append(got, f.id)
		if f.id == stop {
			return e
		}
		return nil
	})
	exp := want
	if stop >= 0 {
		exp = want[:stop+1]
		if err != e {
			return fmt.Sprintf("WalkDown: the visitor failed at node %d, the result is %v", stop, err)
		}
	} else if err != nil {
		return fmt.Sprintf("WalkDown: error %v without a failing visitor", err)
	}
	if fmt.Sprint(got) != fmt.Sprint(exp) {
		return fmt.Sprintf("WalkDown visited %v, expected %v (preorder, stopping at the first error)", got, exp)
	}
	return ""
}

// ---- C20: look-ups by name ----

var nameStock = []string{"a", "A", "b", "B", "ab", "Ab", "AB", "x_1", "X_1", "Ä", "ä", "read", "READ", "", "ß", "İ", "K", "K"}

func pickName(r *rand.Rand) string { return nameStock[r.Intn(len(nameStock))] }
func mkIdent(n string) *ast.Ident  { return &ast.Ident{Name: n, Location: &astcore.Location{}} }
func low(s string) string          { return strings.ToLower(s) }
func names(r *rand.Rand) []string {
	s := make([]string, r.Intn(5))
	for i := range s {
		s[i] = pickName(r)
	}
	return s
}
func firstOf(s []string, n string) int {
	for i, x := range s {
		if low(x) == low(n) {
			return i
		}
	}
	return -1
}

func checkLookups(r *rand.Rand) string {
	ns, q := names(r), pickName(r)
	want := firstOf(ns, q)
	il := ast.IdentList{}
	ds := astcore.Decls{}
	uc := ast.UsesClause{}
	us := ast.Units{}
	for _, n := range ns {
		il = append(il, mkIdent(n))
		ds = append(ds, &astcore.Decl{Ident: mkIdent(n)})
		u := &ast.Unit{Ident: mkIdent(n), DeclMap: astcore.NewDeclMap()}
		us = append(us, u)
		uc = append(uc, &ast.UsesClauseItem{Ident: mkIdent(n), Unit: u})
	}
	exp := func(what string, ok bool) string {
		if ok {
			return ""
		}
		return fmt.Sprintf("%s(%q) over %q: expected entry %d (first name equal up to case, -1 none)", what, q, ns, want)
	}
	g1, g2, g3, g4 := il.Find(q), ds.Find(q), uc.Find(q), us.ByName(q)
	if want < 0 {
		if m := exp("IdentList.Find", g1 == nil) + exp("Decls.Find", g2 == nil) + exp("UsesClause.Find", g3 == nil) + exp("Units.ByName", g4 == nil); m != "" {
			return m
		}
	} else if m := exp("IdentList.Find", g1 == il[want]) + exp("Decls.Find", g2 == ds[want]) + exp("UsesClause.Find", g3 == uc[want]) + exp("Units.ByName", g4 == us[want]); m != "" {
		return m
	}
	nm := il.Names()
	if len(nm) != len(ns) {
		return fmt.Sprintf("IdentList.Names of %q is %q", ns, nm)
	}
	ids, un, dm := uc.IdentList(), uc.Units(), us.DeclMaps()
	if len(ids) != len(ns) || len(un) != len(ns) || len(dm) != len(ns) {
		return fmt.Sprintf("UsesClause.IdentList/Units, Units.DeclMaps of %q have %d, %d, %d entries", ns, len(ids), len(un), len(dm))
	}
	rev := dm.Reverse()
	if len(rev) != len(dm) {
		return "DeclMaps.Reverse changed the length"
	}
	for i := range ns {
		if nm[i] != ns[i] || ids[i] != uc[i].Ident || un[i] != us[i] || !reflect.DeepEqual(reflect.ValueOf(dm[i]).Pointer(), reflect.ValueOf(us[i].DeclMap).Pointer()) {
			return fmt.Sprintf("Names, IdentList, Units or DeclMaps of %q differ at %d", ns, i)
		}
		if reflect.ValueOf(rev[i]).Pointer() != reflect.ValueOf(dm[len(dm)-1-i]).Pointer() {
			return fmt.Sprintf("DeclMaps.Reverse: entry %d is not the %d-th from the end", i, i)
		}
	}
	// with gaps
	gap := ast.Units{}
	for i := range us {
		if r.Intn(3) == 0 {
			gap = append(gap, nil)
		}
		gap = append(gap, us[i])
	}
	cp := gap.Compact()
	if len(cp) != len(us) {
		return "Units.Compact does not keep just the present units"
	}
	for i := range us {
		if cp[i] != us[i] {
			return "Units.Compact changed the order"
		}
	}
	dirs := ast.ClassMethodDirectiveList{}
	all := []ast.ClassMethodDirective{"ABSTRACT", "VIRTUAL", "OVERRIDE", "OVERLOAD", "REINTRODUCE"}
	for _, d := range all {
		if r.Intn(2) == 0 {
			dirs = append(dirs, d)
		}
	}
	w := []string{"abstract", "Virtual", "OVERRIDE", "overload", "reintroduce", "", "static", "virtua"}[r.Intn(8)]
	in := false
	for _, d := range dirs {
		in = in || string(d) == strings.ToUpper(w)
	}
	if dirs.Include(w) != in {
		return fmt.Sprintf("ClassMethodDirectiveList%q.Include(%q) = %v", dirs, w, !in)
	}
	return checkStrings(r)
}

// ---- C19: kinds of types ----

func kindsOf(t ast.Type) [7]bool {
	var k [7]bool
	if v, ok := t.(ast.SimpleType); ok {
		k[0] = v.IsSimpleType()
	}
	if v, ok := t.(ast.OrdinalType); ok {
		k[1] = v.IsOrdinalType()
	}
	if v, ok := t.(ast.RealType); ok {
		k[2] = v.IsRealType()
	}
	if v, ok := t.(ast.OrdIdent); ok {
		k[3] = v.IsOrdIdent()
	}
	if v, ok := t.(ast.StringType); ok {
		k[4] = v.IsStringType()
	}
	if v, ok := t.(ast.PointerType); ok {
		k[5] = v.IsPointerType()
	}
	if v, ok := t.(ast.VariantType); ok {
		k[6] = v.IsVariantType()
	}
	return k
}

var embNames = [][]string{
	{"Real48", "Real", "Single", "Double", "Extended", "Currency", "Comp"},
	{"Integer", "Cardinal", "ShortInt", "SmallInt", "LongInt", "Int64", "Byte", "Word", "LongWord", "Char", "AnsiChar", "WideChar", "Boolean"},
	{"String", "AnsiString", "WideString"},
	{"Pointer", "PChar", "PAnsiChar", "PWideChar"},
	{"Variant", "OleVariant"},
}
var embKinds = [][7]bool{
	{true, false, true, false, false, false, false},
	{true, true, false, true, false, false, false},
	{false, false, false, false, true, false, false},
	{false, false, false, false, false, true, false},
	{false, false, false, false, false, false, true},
}

func randCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

func checkKinds(r *rand.Rand) string {
	var base ast.Type
	var want [7]bool
	desc := ""
	elem := &ast.TypeId{Ident: mkIdent("Byte"), Ref: ast.EmbeddedTypeDecl(ast.EtkOrdIdent, "Byte")}
	var ref *astcore.Decl
	known := true
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		k := r.Intn(5)
		n := embNames[k][r.Intn(len(embNames[k]))]
		q := randCase(r, n)
		desc = "the built-in type " + q
		ref = ast.EmbeddedTypeDecl(ast.EmbeddedTypeKind(k+1), q)
		for j := 0; j < 5; j++ {
			if j != k && ast.EmbeddedTypeDecl(ast.EmbeddedTypeKind(j+1), q) != nil {
				return fmt.Sprintf("EmbeddedTypeDecl knows %q as kind %d", q, j+1)
			}
		}
		if ref == nil || !strings.EqualFold(ref.Ident.Name, n) {
			return fmt.Sprintf("EmbeddedTypeDecl(%d, %q) does not give that type", k+1, q)
		}
		if ast.EmbeddedTypeDeclMap.Get(q) != ref {
			return fmt.Sprintf("the map of built-in types has another declaration for %q", q)
		}
		want = embKinds[k]
	case 4:
		base, want, desc = ast.EnumeratedType{}, [7]bool{true, true}, "an enumeration"
	case 5:
		base, want, desc = &ast.SubrangeType{}, [7]bool{true, true}, "a subrange"
	case 6:
		base, want, desc = &ast.FixedStringType{StringType: elem}, [7]bool{4: true}, "a fixed string"
	case 7:
		base, want, desc = &ast.CustomPointerType{TypeId: elem}, [7]bool{5: true}, "a pointer type"
	case 8:
		base, desc = &ast.SetType{OrdinalType: elem}, "a set of Byte"
	case 9:
		base, desc = &ast.FileType{TypeId: elem}, "a file of Byte"
	case 10:
		base, desc = []ast.Type{&ast.RecType{}, &ast.ArrayType{BaseType: elem}, &ast.CustomClassType{}, &ast.CustomInterfaceType{}, &ast.ForwardDeclaredClassType{}, &ast.CustomClassRefType{TypeId: elem}}[r.Intn(6)], "a structured type"
	case 11:
		known = false
		switch r.Intn(3) {
		case 0:
		case 1:
			ref = &astcore.Decl{Ident: mkIdent("v"), Node: &ast.VarDecl{}}
		case 2:
			ref = &astcore.Decl{Ident: mkIdent("v")}
		}
		desc = "a name which is no type"
	}
	if base != nil {
		if k := kindsOf(base); k != want {
			return fmt.Sprintf("%s: (simple ordinal real ordident string pointer variant) = %v, expected %v", desc, k, want)
		}
		ref = &astcore.Decl{Ident: mkIdent("T0"), Node: &ast.TypeDecl{Ident: mkIdent("T0"), Type: base}}
	}
	_ = known
	id := &ast.TypeId{Ident: mkIdent("T"), Ref: ref}
	for i := r.Intn(5); i > 0; i-- {
		desc = "an alias of " + desc
		id = &ast.TypeId{Ident: mkIdent("T"), Ref: &astcore.Decl{Ident: mkIdent("T"), Node: &ast.TypeDecl{Ident: mkIdent("T"), Type: id}}}
	}
	if k := kindsOf(id); k != want {
		return fmt.Sprintf("a name of %s: (simple ordinal real ordident string pointer variant) = %v, expected %v", desc, k, want)
	}
	if q := pickName(r); ast.EmbeddedTypeDeclMap.Get(q) != nil {
		return fmt.Sprintf("the map of built-in types knows %q", q)
	}
	return ""
}

// ---- C18: members of classes ----

func checkMembers(r *rand.Rand) string {
	depth := 1 + r.Intn(3)
	var chain []*ast.CustomClassType
	vis := []ast.ClassVisibility{ast.CvDefault, ast.CvPrivate, ast.CvProtected, ast.CvPublic, ast.CvPublished}
	for i := 0; i < depth; i++ {
		c := &ast.CustomClassType{}
		for s := r.Intn(4); s > 0; s-- {
			sec := &ast.ClassMemberSection{Visibility: vis[r.Intn(5)]}
			for k := r.Intn(3); k > 0; k-- {
				il := ast.IdentList{}
				for j := 1 + r.Intn(2); j > 0; j-- {
					il = append(il, mkIdent(pickName(r)))
				}
				sec.ClassFieldList = append(sec.ClassFieldList, &ast.ClassField{IdentList: il})
			}
			for k := r.Intn(3); k > 0; k-- {
				var h ast.ClassMethodHeading
				switch r.Intn(3) {
				case 0:
					h = &ast.FunctionHeading{Ident: mkIdent(pickName(r))}
				case 1:
					h = &ast.ConstructorHeading{Ident: mkIdent(pickName(r))}
				case 2:
					h = &ast.DestructorHeading{Ident: mkIdent(pickName(r))}
				}
				sec.ClassMethodList = append(sec.ClassMethodList, &ast.ClassMethod{Heading: h})
			}
			for k := r.Intn(3); k > 0; k-- {
				sec.ClassPropertyList = append(sec.ClassPropertyList, &ast.ClassProperty{Ident: mkIdent(pickName(r))})
			}
			c.Members = append(c.Members, sec)
		}
		if i > 0 {
			up := &ast.TypeId{Ident: mkIdent("P"), Ref: &astcore.Decl{Ident: mkIdent("P"), Node: &ast.TypeDecl{Ident: mkIdent("P"), Type: chain[i-1]}}}
			switch r.Intn(8) {
			case 0:
				up.Ref = nil
			case 1:
				up.Ref.Node = &ast.VarDecl{}
			case 2:
				up.Ref.Node = &ast.TypeDecl{Ident: mkIdent("P"), Type: &ast.RecType{}}
			}
			c.Heritage = ast.ClassHeritage{up}
			if r.Intn(3) == 0 {
				c.Heritage = append(c.Heritage, &ast.TypeId{Ident: mkIdent("I")})
			}
		}
		chain = append(chain, c)
	}
	parent := func(c *ast.CustomClassType) *ast.CustomClassType {
		if len(c.Heritage) == 0 || c.Heritage[0].Ref == nil {
			return nil
		}
		td, ok := c.Heritage[0].Ref.Node.(*ast.TypeDecl)
		if !ok {
			return nil
		}
		p, _ := td.Type.(*ast.CustomClassType)
		return p
	}
	top := chain[depth-1]
	if top.GetParentClass() != parent(top) {
		return "GetParentClass does not give the class named first in the heritage"
	}
	q := pickName(r)
	priv := r.Intn(2) == 0
	var want astcore.Node
	var wantId *ast.Ident
	p := priv
search:
	for c := top; c != nil; c = parent(c) {
		for _, s := range c.Members {
			if s.Visibility == ast.CvPrivate && !p {
				continue
			}
			for _, f := range s.ClassFieldList {
				for _, id := range f.IdentList {
					if low(id.Name) == low(q) {
						want, wantId = f, id
						break search
					}
				}
			}
			for _, m := range s.ClassMethodList {
				if low(m.Heading.GetIdent().Name) == low(q) {
					want, wantId = m, m.Heading.GetIdent()
					break search
				}
			}
			for _, m := range s.ClassPropertyList {
				if low(m.Ident.Name) == low(q) {
					want, wantId = m, m.Ident
					break search
				}
			}
		}
		p = false
	}
	d := top.FindMemberDecl(q, priv)
	if (d == nil) != (want == nil) || d != nil && (d.Node != want || d.Ident != wantId) {
		return fmt.Sprintf("FindMemberDecl(%q, %v) on a chain of %d classes gave another member than the first visible one (found %v, expected %v)", q, priv, depth, d != nil, want != nil)
	}
	anc := r.Intn(2) == 0
	var wp *ast.ClassProperty
	for c := top; c != nil && wp == nil; c = parent(c) {
		for _, s := range c.Members {
			for _, m := range s.ClassPropertyList {
				if wp == nil && low(m.Ident.Name) == low(q) {
					wp = m
				}
			}
		}
		if !anc {
			break
		}
	}
	if top.FindProperty(q, anc) != wp {
		return fmt.Sprintf("FindProperty(%q, %v) on a chain of %d classes gave another property than the first one", q, anc, depth)
	}
	return checkComputed(r)
}

func checkComputed(r *rand.Rand) string {
	var ps []*ast.ClassProperty
	tr := true
	for i := 0; i < 1+r.Intn(4); i++ {
		p := &ast.ClassProperty{Ident: mkIdent("p")}
		b := func() bool { return r.Intn(2) == 0 }
		if b() {
			p.Interface = &ast.PropertyInterface{}
		}
		if b() {
			p.Index = &ast.ConstExpr{}
		}
		if b() {
			p.Read = &ast.IdentRef{}
		}
		if b() {
			p.Write = &ast.IdentRef{}
		}
		if b() {
			p.Stored = &ast.PropertyStoredSpecifier{Constant: &tr}
		}
		if b() {
			p.Default = &ast.PropertyDefaultSpecifier{NoDefault: &tr}
		}
		if b() {
			p.Implements = &ast.TypeId{}
		}
		if i > 0 {
			p.Parent = ps[i-1]
		}
		ps = append(ps, p)
	}
	last := ps[len(ps)-1]
	var w ast.ClassProperty
	for _, p := range ps {
		if p.Interface != nil {
			w.Interface = p.Interface
		}
		if p.Index != nil {
			w.Index = p.Index
		}
		if p.Read != nil {
			w.Read = p.Read
		}
		if p.Write != nil {
			w.Write = p.Write
		}
		if p.Stored != nil {
			w.Stored = p.Stored
		}
		if p.Default != nil {
			w.Default = p.Default
		}
		if p.Implements != nil {
			w.Implements = p.Implements
		}
	}
	before := make([]ast.ClassProperty, len(ps))
	for i, p := range ps {
		before[i] = *p
	}
	g := last.ComputedProperty()
	if g == nil || g.Interface != w.Interface || g.Index != w.Index || g.Read != w.Read || g.Write != w.Write || g.Stored != w.Stored || g.Default != w.Default || g.Implements != w.Implements {
		return fmt.Sprintf("ComputedProperty over %d overriding properties does not take each part from the nearest one that has it", len(ps))
	}
	for i, p := range ps {
		if p == g {
			return "ComputedProperty gives out the declared property itself"
		}
		if *p != before[i] {
			return "ComputedProperty changed a declared property"
		}
	}
	m := &ast.ClassProperty{Ident: mkIdent("p")}
	if r.Intn(2) == 0 {
		m.Interface = &ast.PropertyInterface{}
	}
	if r.Intn(2) == 0 {
		m.Index = &ast.ConstExpr{}
	}
	if r.Intn(2) == 0 {
		m.Read = &ast.IdentRef{}
	}
	if r.Intn(2) == 0 {
		m.Write = &ast.IdentRef{}
	}
	want := w.Interface != nil && m.Interface == nil || w.Index != nil && m.Index == nil || w.Read != nil && m.Read == nil || w.Write != nil && m.Write == nil
	if m.InheritsFrom(last) != want || m.InheritsFrom(nil) {
		return "InheritsFrom is wrong about which parts come from the parent"
	}
	return ""
}

func init() {
	props["C16"] = seedProp(20000, func(r *rand.Rand) string {
		if r.Intn(3) == 0 {
			return checkWalk(r)
		}
		return checkKids(r)
	})
	props["C18"] = seedProp(20000, checkMembers)
	props["C19"] = seedProp(20000, checkKinds)
	props["C20"] = seedProp(20000, checkLookups)
	props["C13"] = seedProp(20000, checkMaps)
}
