package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// shortT prints a type with package *names* as qualifiers.
func shortT(t types.Type) string {
	if s, ok := shortCache.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(deepUnalias(t), func(p *types.Package) string { return p.Name() })
	s = reRune.ReplaceAllString(s, "int32")
	s = reByte.ReplaceAllString(s, "uint8")
	s = reAny.ReplaceAllString(s, "interface{}")
	shortCache.Store(t, s)
	return s
}

// deepUnalias replaces aliases inside pointers, slices, arrays, maps and signatures.
func deepUnalias(t types.Type) types.Type {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return types.NewPointer(deepUnalias(u.Elem()))
	case *types.Slice:
		return types.NewSlice(deepUnalias(u.Elem()))
	case *types.Array:
		return types.NewArray(deepUnalias(u.Elem()), u.Len())
	case *types.Map:
		return types.NewMap(deepUnalias(u.Key()), deepUnalias(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), deepUnalias(u.Elem()))
	case *types.Signature:
		tup := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				v := t.At(i)
				vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), deepUnalias(v.Type())))
			}
			return types.NewTuple(vs...)
		}
		if u.TypeParams().Len() > 0 || u.RecvTypeParams().Len() > 0 {
			return u
		}
		return types.NewSignatureType(u.Recv(), nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	default:
		return u
	}
}

var shortCache sync.Map
var reRune = regexp.MustCompile(`\brune\b`)
var reByte = regexp.MustCompile(`\bbyte\b`)
var reAny = regexp.MustCompile(`\bany\b`)

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

// sortOf returns the SMT sort of a scalar Go type, "" when the type is a tuple.
func sortOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return ""
	case *types.Array:
		return ""
	case *types.Tuple:
		return ""
	}
	panic("sortOf " + t.String())
}

type leaf struct {
	path string
	idx  []int
	typ  types.Type
	sort string
}

func leaves(t types.Type) []leaf {
	switch u := under(t).(type) {
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				p := f.Name()
				if l.path != "" {
					p += "." + l.path
				}
				out = append(out, leaf{p, append([]int{i}, l.idx...), l.typ, l.sort})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for i := 0; i < int(u.Len()); i++ {
			for _, l := range leaves(u.Elem()) {
				p := fmt.Sprint(i)
				if l.path != "" {
					p += "." + l.path
				}
				out = append(out, leaf{p, append([]int{i}, l.idx...), l.typ, l.sort})
			}
		}
		return out
	}
	return []leaf{{"", nil, t, sortOf(t)}}
}

// Val is a symbolic Go value.
type Val struct {
	Typ  types.Type
	T    *Term
	Sub  []Val
	Clo  *Closure
	Addr *Addr
	Iter *iterState
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Val
	Spec  *cloSpec // contract attached to an otherwise unknown function value
}

type iterState struct {
	m       Val
	visited *Term
	typ     *types.Map
	len0    *Term // length of the map when the range started
}

// Addr is a structurally known address.
type Addr struct {
	Kind  byte // 'F' field of object, 'E' element of array, 'L' local cell, 'G' global
	Base  *Term
	Idx   *Term
	Root  types.Type // object type (F), element type (E), cell type (L/G)
	Path  []int      // path below Root
	Local int
	Glob  *ssa.Global
	Typ   types.Type // type of the addressed location
}

type cloSpec struct {
	contract *Contract
	env      map[string]SV
	old      *State
}

func pathName(t types.Type, path []int) string {
	var parts []string
	for _, i := range path {
		switch u := under(t).(type) {
		case *types.Struct:
			parts = append(parts, u.Field(i).Name())
			t = u.Field(i).Type()
		case *types.Array:
			parts = append(parts, fmt.Sprint(i))
			t = u.Elem()
		}
	}
	return strings.Join(parts, ".")
}

func isStructLike(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isPtr(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }
func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}
func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }

func tupleAt(t *types.Tuple, i int) types.Type { return t.At(i).Type() }

func (e *Exec) zero(t types.Type) Val {
	c := e.ctx
	switch u := under(t).(type) {
	case *types.Struct:
		v := Val{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.Sub = append(v.Sub, e.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := Val{Typ: t}
		for i := 0; i < int(u.Len()); i++ {
			v.Sub = append(v.Sub, e.zero(u.Elem()))
		}
		return v
	case *types.Tuple:
		v := Val{Typ: t}
		for i := 0; i < u.Len(); i++ {
			v.Sub = append(v.Sub, e.zero(u.At(i).Type()))
		}
		return v
	}
	return Val{Typ: t, T: zeroTerm(c, sortOf(t))}
}

func zeroTerm(c *Ctx, s string) *Term {
	switch s {
	case "Bool":
		return c.False()
	case "Int":
		return c.Int(0)
	case "Str":
		return c.StrLit("")
	case "Slice":
		return c.MkS(c.Int(0), c.Int(0), c.Int(0))
	case "Iface":
		return c.MkI(c.Int(0), c.Int(0))
	}
	if strings.HasPrefix(s, "(Array") {
		return c.ConstArr(s, zeroTerm(c, arrElem(s)))
	}
	panic("zero of " + s)
}

// fresh makes an unconstrained value of a type with the basic type facts assumed.
func (e *Exec) fresh(name string, t types.Type, st *State) Val {
	switch u := under(t).(type) {
	case *types.Struct:
		v := Val{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.Sub = append(v.Sub, e.fresh(name+"."+u.Field(i).Name(), u.Field(i).Type(), st))
		}
		return v
	case *types.Array:
		v := Val{Typ: t}
		for i := 0; i < int(u.Len()); i++ {
			v.Sub = append(v.Sub, e.fresh(name, u.Elem(), st))
		}
		return v
	case *types.Tuple:
		v := Val{Typ: t}
		for i := 0; i < u.Len(); i++ {
			v.Sub = append(v.Sub, e.fresh(fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), st))
		}
		return v
	}
	v := Val{Typ: t, T: e.ctx.Fresh(name, sortOf(t))}
	e.typeFacts(v, st)
	return v
}

// typeFacts assumes what the type system guarantees about a value.
func (e *Exec) typeFacts(v Val, st *State) {
	if v.T == nil {
		for _, s := range v.Sub {
			e.typeFacts(s, st)
		}
		return
	}
	c := e.ctx
	switch u := under(v.Typ).(type) {
	case *types.Pointer, *types.Map:
		e.assume(st, c.And(c.Lt(v.T, st.alloc), c.Lt(c.Int(-100000), v.T)))
		if _, ok := u.(*types.Map); ok {
			e.assume(st, c.Le(c.Int(0), v.T))
		} else {
			e.assume(st, c.Le(c.Int(0), v.T))
		}
	case *types.Slice:
		e.assume(st, c.And(c.Le(c.Int(0), c.SLen(v.T)), c.Le(c.Int(0), c.SOff(v.T)), c.Le(c.Int(0), c.SArr(v.T)), c.Lt(c.SArr(v.T), st.alloc),
			c.Imp(c.Eq(c.SArr(v.T), c.Int(0)), c.And(c.Eq(c.SLen(v.T), c.Int(0)), c.Eq(c.SOff(v.T), c.Int(0))))))
	case *types.Interface:
		tag := c.ITag(v.T)
		e.assume(st, c.And(c.Le(c.Int(0), tag), c.Lt(c.IVal(v.T), st.alloc), c.Imp(c.Eq(tag, c.Int(0)), c.Eq(c.IVal(v.T), c.Int(0)))))
		if u.NumMethods() > 0 {
			e.assume(st, c.Or(c.Eq(tag, c.Int(0)), e.implPred(tag, v.Typ)))
		}
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			e.assume(st, c.Le(c.Int(0), v.T))
			if u.Kind() == types.Uint8 {
				e.assume(st, c.Lt(v.T, c.Int(256)))
			}
		}
	}
}

// tagOf gives each concrete type an integer tag.
func (e *Exec) tagOf(t types.Type) *Term { return e.ctx.Int(e.w.tagOf(t)) }

func (w *World) tagOf(t types.Type) int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := shortT(t)
	if n, ok := w.tags[k]; ok {
		return n
	}
	n := int64(len(w.tags) + 1)
	w.tags[k] = n
	w.tagTypes[n] = t
	return n
}

// implPred: the dynamic type with this tag implements interface t (over the closed set of known types).
func (e *Exec) implPred(tag *Term, t types.Type) *Term {
	it := under(t).(*types.Interface)
	c := e.ctx
	if it.NumMethods() == 0 {
		return c.Not(c.Eq(tag, c.Int(0)))
	}
	if tag.isInt() {
		if tag.I == 0 {
			return c.False()
		}
		e.w.mu.Lock()
		ct := e.w.tagTypes[tag.I]
		e.w.mu.Unlock()
		if ct != nil {
			return c.Bool(types.Implements(ct, it))
		}
	}
	if tag.Op == "ite" {
		return c.Ite(tag.Args[0], e.implPred(tag.Args[1], t), e.implPred(tag.Args[2], t))
	}
	fn := "impl." + shortT(t)
	if !e.implDone[fn] {
		e.implDone[fn] = true
		for _, ct := range e.w.concrete {
			n := e.w.tagOf(ct)
			c.facts = append(c.facts, c.Eq(c.App(fn, "Bool", c.Int(n)), c.Bool(types.Implements(ct, it))))
		}
		c.facts = append(c.facts, c.Not(c.App(fn, "Bool", c.Int(0))))
	}
	return c.App(fn, "Bool", tag)
}

// box converts a value of concrete type to the payload of an interface.
func (e *Exec) box(v Val, t types.Type, st *State) *Term {
	c := e.ctx
	if isPtr(t) || func() bool { _, ok := under(t).(*types.Map); return ok }() {
		return e.scalar(v, st)
	}
	if v.Clo != nil && v.T == nil {
		return c.Fresh("func", "Int")
	}
	var args []*Term
	for _, l := range e.flat(v, st) {
		args = append(args, l)
	}
	name := "box." + shortT(t)
	if len(args) == 0 {
		return c.Int(0)
	}
	b := c.App(name, "Int", args...)
	if !c.boxed[b] && !b.bv {
		c.boxed[b] = true
		for i, a := range args {
			c.facts = append(c.facts, c.Eq(c.App(fmt.Sprintf("unbox.%s.%d", shortT(t), i), a.Sort, b), a))
		}
		c.facts = append(c.facts, c.Lt(b, c.Int(0)))
	}
	return b
}

func (e *Exec) unbox(iv *Term, t types.Type, st *State) Val {
	c := e.ctx
	if sortOf2(t) == "Int" && (isPtr(t) || isMap(t)) {
		v := Val{Typ: t, T: iv}
		return v
	}
	ls := leaves(t)
	var ts []*Term
	for i, l := range ls {
		if iv.Op == "app" && iv.S == sanitize("box."+shortT(t)) {
			ts = append(ts, iv.Args[i])
		} else {
			ts = append(ts, c.App(fmt.Sprintf("unbox.%s.%d", shortT(t), i), l.sort, iv))
		}
	}
	v, _ := e.unflat(t, ts)
	e.typeFacts(v, st)
	return v
}

func isMap(t types.Type) bool { _, ok := under(t).(*types.Map); return ok }
func sortOf2(t types.Type) string {
	if isStructLike(t) {
		return ""
	}
	return sortOf(t)
}

// flat lists the leaf terms of a value.
func (e *Exec) flat(v Val, st *State) []*Term {
	if len(v.Sub) > 0 || (v.Typ != nil && isStructLike(v.Typ)) {
		var out []*Term
		for _, s := range v.Sub {
			out = append(out, e.flat(s, st)...)
		}
		return out
	}
	return []*Term{e.scalar(v, st)}
}

func (e *Exec) unflat(t types.Type, ts []*Term) (Val, []*Term) {
	switch u := under(t).(type) {
	case *types.Struct:
		v := Val{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var s Val
			s, ts = e.unflat(u.Field(i).Type(), ts)
			v.Sub = append(v.Sub, s)
		}
		return v, ts
	case *types.Array:
		v := Val{Typ: t}
		for i := 0; i < int(u.Len()); i++ {
			var s Val
			s, ts = e.unflat(u.Elem(), ts)
			v.Sub = append(v.Sub, s)
		}
		return v, ts
	}
	return Val{Typ: t, T: ts[0]}, ts[1:]
}

// scalar forces a single term (materialising interior pointers and closures).
func (e *Exec) scalar(v Val, st *State) *Term {
	if v.T != nil {
		return v.T
	}
	c := e.ctx
	if v.Clo != nil {
		if v.Clo.Fn != nil {
			// identity of closures is not modelled; distinct from nil
			t := c.Fresh("func", "Int")
			e.cloOf[t] = v.Clo
			e.assume(st, c.Lt(c.Int(0), t))
			return t
		}
		t := c.Fresh("func", "Int")
		e.cloOf[t] = v.Clo
		return t
	}
	if v.Addr != nil {
		return e.materialise(v.Addr, st)
	}
	panic("scalar of tuple " + fmt.Sprint(v.Typ))
}

// materialise turns an interior address into a reference: a fresh cell that snapshots the current contents.
func (e *Exec) materialise(a *Addr, st *State) *Term {
	if a.Kind == 'G' {
		e.note("address of global " + a.Glob.String() + " treated as a snapshot cell")
	} else {
		e.note("interior pointer to " + shortT(a.Root) + "." + pathName(a.Root, a.Path) + " treated as a snapshot cell")
	}
	v := e.load(a, st)
	r := e.allocRef(st)
	e.storeObj(a.Typ, r, v, st)
	return r
}

func constVal(e *Exec, cst *ssa.Const) Val {
	t := cst.Type()
	if cst.Value == nil {
		return e.zero(t)
	}
	c := e.ctx
	switch cst.Value.Kind() {
	case constant.Bool:
		return Val{Typ: t, T: c.Bool(constant.BoolVal(cst.Value))}
	case constant.String:
		return Val{Typ: t, T: c.StrLit(constant.StringVal(cst.Value))}
	case constant.Int:
		if i, ok := constant.Int64Val(cst.Value); ok {
			return Val{Typ: t, T: c.Int(i)}
		}
		return Val{Typ: t, T: c.Fresh("bigconst", "Int")}
	}
	if sortOf(t) == "Int" {
		return Val{Typ: t, T: c.Fresh("const", "Int")}
	}
	panic("const " + cst.String())
}
