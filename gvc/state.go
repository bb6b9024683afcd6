package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	guard    *Term
	comps    map[string]*Term
	locals   map[int]Val
	alloc    *Term
	env      map[ssa.Value]Val
	defers   []deferred
	fnStores []fnStore
}

type deferred struct {
	guard *Term
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	id    int
}

func (s *State) clone() *State {
	n := &State{guard: s.guard, alloc: s.alloc, comps: make(map[string]*Term, len(s.comps)), locals: make(map[int]Val, len(s.locals)), env: make(map[ssa.Value]Val, len(s.env))}
	for k, v := range s.comps {
		n.comps[k] = v
	}
	for k, v := range s.locals {
		n.locals[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	n.fnStores = s.fnStores[:len(s.fnStores):len(s.fnStores)]
	return n
}

// comp returns the current version of a heap component.
func (e *Exec) comp(st *State, name, sortn string) *Term {
	if t, ok := st.comps[name]; ok {
		return t
	}
	t := e.initComp(name, sortn)
	st.comps[name] = t
	return t
}

func (e *Exec) initComp(name, sortn string) *Term {
	if t, ok := e.init0[name]; ok {
		return t
	}
	e.compSort[name] = sortn
	if e.havocked {
		e.late = true
	}
	var t *Term
	if e.initMode && strings.HasPrefix(name, "V|"+e.fn.Pkg.Pkg.Name()+".") {
		// package initialisation starts from zero values
		t = zeroTerm(e.ctx, sortn)
	} else {
		t = e.ctx.Named("H0."+name, sortn)
		if strings.HasPrefix(name, "E|func") {
			t = e.constSliceRows(t, name)
		}
	}
	e.init0[name] = t
	e.compName[t] = name
	return t
}

func (e *Exec) setComp(st *State, name string, t *Term) {
	st.comps[name] = t
	if len(t.Args) == 0 {
		e.compName[t] = name
	}
}

type modEvent struct {
	comp string
	ref  *Term // nil = anything
	st   *State
	obj  types.Type
}

func (e *Exec) allocRef(st *State) *Term {
	r := st.alloc
	st.alloc = e.ctx.Add(r, e.ctx.Int(1))
	e.ownAlloc[r] = true
	return r
}

func fcomp(t types.Type, path string) string { return "F|" + memT(t) + "|" + path }

// memT names the memory of a struct type: types declared from one another (type A B) share it,
// because pointers convert between them.
func memT(t types.Type) string {
	if st, ok := under(t).(*types.Struct); ok {
		if n, ok := canonStruct.Load(st); ok {
			return n.(string)
		}
	}
	return shortT(t)
}

var canonStruct sync.Map

func ccomp(t types.Type) string              { return "C|" + shortT(t) }
func ecomp(t types.Type, path string) string { return "E|" + shortT(t) + "|" + path }

// objComps lists component names of an object of type t stored at a reference.
func objComp(t types.Type, path string) string {
	if _, ok := under(t).(*types.Struct); ok {
		return fcomp(t, path)
	}
	return ccomp(t)
}

func (e *Exec) rd(st *State, comp, lsort string, ref *Term) *Term {
	return e.ctx.Select(e.comp(st, comp, ArrS("Int", lsort)), ref)
}

func (e *Exec) wr(st *State, comp, lsort string, ref, v *Term) {
	h := e.comp(st, comp, ArrS("Int", lsort))
	if e.ctx.Select(h, ref) == v && e.w.immutComp(comp) {
		return // the value it has already
	}
	e.setComp(st, comp, e.ctx.Store(h, ref, v))
	e.logMod(st, comp, ref)
}

func (e *Exec) rdE(st *State, comp, lsort string, arr, idx *Term) *Term {
	row := e.ctx.Select(e.comp(st, comp, ArrS("Int", ArrS("Int", lsort))), arr)
	return e.ctx.Select(row, idx)
}
func (e *Exec) wrE(st *State, comp, lsort string, arr, idx, v *Term) {
	h := e.comp(st, comp, ArrS("Int", ArrS("Int", lsort)))
	row := e.ctx.Select(h, arr)
	e.setComp(st, comp, e.ctx.Store(h, arr, e.ctx.Store(row, idx, v)))
	e.logMod(st, comp, arr)
}

// storeObj writes a whole value at reference r.
func (e *Exec) storeObj(t types.Type, r *Term, v Val, st *State) {
	if a, ok := under(t).(*types.Array); ok {
		for i, s := range v.Sub {
			e.storeElem(a.Elem(), r, e.ctx.Int(int64(i)), s, st)
		}
		return
	}
	ts := e.flat(v, st)
	for i, l := range leaves(t) {
		e.wr(st, objComp(t, l.path), l.sort, r, ts[i])
	}
	if _, ok := under(t).(*types.Struct); ok {
		for _, g := range e.w.ghostFields[shortT(t)] {
			_ = g
		}
	}
}

func (e *Exec) storeElem(el types.Type, arr, idx *Term, v Val, st *State) {
	ts := e.flat(v, st)
	for i, l := range leaves(el) {
		e.wrE(st, ecomp(el, l.path), l.sort, arr, idx, ts[i])
	}
}

func (e *Exec) loadElem(el types.Type, arr, idx *Term, st *State) Val {
	var ts []*Term
	for _, l := range leaves(el) {
		ts = append(ts, e.rdE(st, ecomp(el, l.path), l.sort, arr, idx))
	}
	v, _ := e.unflat(el, ts)
	return v
}

func (e *Exec) loadObj(t types.Type, r *Term, st *State) Val {
	if a, ok := under(t).(*types.Array); ok {
		v := Val{Typ: t}
		for i := 0; i < int(a.Len()); i++ {
			v.Sub = append(v.Sub, e.loadElem(a.Elem(), r, e.ctx.Int(int64(i)), st))
		}
		return v
	}
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, e.rd(st, objComp(t, l.path), l.sort, r))
	}
	v, _ := e.unflat(t, ts)
	return v
}

// load/store through a structural address.
func (e *Exec) load(a *Addr, st *State) Val {
	switch a.Kind {
	case 'L':
		v, ok := st.locals[a.Local]
		if !ok {
			v = e.zero(a.Root)
		}
		for _, i := range a.Path {
			v = v.Sub[i]
		}
		return v
	case 'G':
		return e.loadGlobal(a, st)
	}
	pre := pathName(a.Root, a.Path)
	var ts []*Term
	for _, l := range leaves(a.Typ) {
		p := joinPath(pre, l.path)
		if a.Kind == 'F' {
			ts = append(ts, e.rd(st, fcomp(a.Root, p), l.sort, a.Base))
		} else {
			ts = append(ts, e.rdE(st, ecomp(a.Root, p), l.sort, a.Base, a.Idx))
		}
	}
	v, _ := e.unflat(a.Typ, ts)
	return v
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

func (e *Exec) store(a *Addr, v Val, st *State) {
	switch a.Kind {
	case 'L':
		cur, ok := st.locals[a.Local]
		if !ok {
			cur = e.zero(a.Root)
		}
		st.locals[a.Local] = setPath(cur, a.Path, v)
		e.modLocals[a.Local] = true
		return
	case 'G':
		e.storeGlobal(a, v, st)
		return
	}
	ts := e.flat(v, st)
	pre := pathName(a.Root, a.Path)
	for i, l := range leaves(a.Typ) {
		p := joinPath(pre, l.path)
		if a.Kind == 'F' {
			if ff := e.w.fieldFns[fcomp(a.Root, p)]; ff != nil && !(v.T != nil && v.T.isInt() && v.T.I == 0) {
				st.fnStores = append(st.fnStores[:len(st.fnStores):len(st.fnStores)], fnStore{ff, a.Base, v, st.guard})
			}
			e.wr(st, fcomp(a.Root, p), l.sort, a.Base, ts[i])
		} else {
			if ff := e.w.fieldFns[ecomp(a.Root, p)]; ff != nil && !(v.T != nil && v.T.isInt() && v.T.I == 0) {
				st.fnStores = append(st.fnStores[:len(st.fnStores):len(st.fnStores)], fnStore{ff, ts[i], v, st.guard})
			}
			e.wrE(st, ecomp(a.Root, p), l.sort, a.Base, a.Idx, ts[i])
		}
	}
}

func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	n := v
	n.Sub = append([]Val{}, v.Sub...)
	n.Sub[path[0]] = setPath(n.Sub[path[0]], path[1:], x)
	return n
}

func gname(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

// constSliceRows fixes the contents of package-level slices of functions (read off the initialiser).
func (e *Exec) constSliceRows(t *Term, name string) *Term {
	c := e.ctx
	for _, g := range sortedKeys(e.w.constSlices) {
		gl := e.w.globalByName(g)
		el := under(deref(gl.Type())).(*types.Slice).Elem()
		if ecomp(el, "") != name {
			continue
		}
		row := c.ConstArr(ArrS("Int", "Int"), c.Int(0))
		for i, f := range e.w.constSlices[g] {
			s := c.Named("fn."+e.w.keyOf(f), "Int")
			e.cloOf[s] = &Closure{Fn: f}
			row = c.Store(row, c.Int(int64(i)), s)
		}
		t = c.Store(t, c.Named("garr."+g, "Int"), row)
	}
	return t
}

func (e *Exec) loadGlobal(a *Addr, st *State) Val {
	if fs, ok := e.w.constSlices[gname(a.Glob)]; ok && !(e.initMode && e.fn.Pkg == a.Glob.Pkg) && len(a.Path) == 0 {
		c := e.ctx
		r := c.Named("garr."+gname(a.Glob), "Int")
		e.assume(st, c.And(c.Lt(c.Int(0), r), c.Lt(r, e.alloc0)))
		return Val{Typ: a.Typ, T: c.MkS(r, c.Int(0), c.Int(int64(len(fs))))}
	}
	t := a.Typ
	pre := pathName(a.Root, a.Path)
	var ts []*Term
	for _, l := range leaves(t) {
		n := "V|" + gname(a.Glob) + "|" + joinPath(pre, l.path)
		ts = append(ts, e.comp(st, n, l.sort))
	}
	v, _ := e.unflat(t, ts)
	if v.T != nil {
		e.typeFacts(v, st)
		e.globalFacts(a.Glob, st)
	}
	return v
}

func (e *Exec) storeGlobal(a *Addr, v Val, st *State) {
	ts := e.flat(v, st)
	pre := pathName(a.Root, a.Path)
	for i, l := range leaves(a.Typ) {
		n := "V|" + gname(a.Glob) + "|" + joinPath(pre, l.path)
		e.comp(st, n, l.sort)
		e.setComp(st, n, ts[i])
		e.logMod(st, n, nil)
	}
	if !e.initMode {
		e.oblige(st, e.ctx.False(), "frame", "write to global "+gname(a.Glob)+" outside package initialisation", "")
	}
}

// logMod records a heap write and checks it against the modifies clause.
func (e *Exec) logMod(st *State, comp string, ref *Term) {
	e.mods = append(e.mods, modEvent{comp: comp, ref: ref})
	if e.dry == 0 {
		for _, al := range e.active {
			m := al.mods[comp]
			if m != nil && m.full {
				continue
			}
			if m == nil || ref == nil {
				e.oblige(st, e.ctx.False(), "engine", "loop modification analysis covers "+comp, "")
				continue
			}
			ok := []*Term{e.ctx.Le(al.alloc, ref)}
			for _, r := range m.refs {
				ok = append(ok, e.ctx.Eq(r, ref))
			}
			if g := e.ctx.Or(ok...); !g.isTrue() {
				e.oblige(st, g, "frame", "loop writes only new or listed objects: "+comp, "")
			}
		}
	}
	if e.dry > 0 || e.root == nil || e.root.modAll && !e.w.immutComp(comp) || e.initMode {
		return
	}
	if strings.HasPrefix(comp, "V|") {
		return
	}
	c := e.ctx
	if strings.Contains(comp, "|$") {
		// ghost state: framed like real state
	}
	var ok []*Term
	sealed := e.w.sealedComp(comp)
	if ref != nil && sealed {
		// only the function that made an object writes to it
		if e.ownAlloc[ref] {
			return
		}
		var own []*Term
		for a := range e.ownAlloc {
			own = append(own, a)
		}
		sort.Slice(own, func(i, j int) bool { return own[i].id < own[j].id })
		for _, a := range own {
			ok = append(ok, c.Eq(a, ref))
		}
	} else if ref != nil {
		ok = append(ok, c.Le(e.alloc0, ref))
		if ok[0].isTrue() {
			return
		}
	}
	allowed := e.allowed
	if e.w.immutComp(comp) {
		allowed = nil
	}
	for _, m := range allowed {
		if m.comp == comp || (strings.HasSuffix(m.comp, "*") && strings.HasPrefix(comp, m.comp[:len(m.comp)-1])) {
			if m.ref == nil {
				if m.cond == nil {
					return
				}
				if ref != nil {
					ok = append(ok, m.cond(ref))
				}
				continue
			}
			if ref != nil {
				ok = append(ok, c.Eq(m.ref, ref))
			}
		}
	}
	g := c.Or(ok...)
	if g.isTrue() {
		return
	}
	e.oblige(st, g, "frame", "writes only what the contract allows: "+comp, "")
}

type allowedLoc struct {
	comp string
	ref  *Term
	cond func(*Term) *Term
	sort string
}

// mergeVal joins two values under a guard.
func (e *Exec) mergeVal(g *Term, a, b Val) Val {
	if sameVal(a, b) {
		return a
	}
	if len(a.Sub) > 0 && len(a.Sub) == len(b.Sub) {
		v := Val{Typ: a.Typ, Sub: make([]Val, len(a.Sub))}
		for i := range a.Sub {
			v.Sub[i] = e.mergeVal(g, a.Sub[i], b.Sub[i])
		}
		return v
	}
	if a.Iter != nil || b.Iter != nil {
		if a.Iter != nil && b.Iter != nil {
			it := *a.Iter
			it.visited = e.ctx.Ite(g, a.Iter.visited, b.Iter.visited)
			return Val{Typ: a.Typ, Iter: &it}
		}
		return a
	}
	if a.Addr != nil && b.Addr != nil && a.Addr.Kind == b.Addr.Kind && a.Addr.Kind != 'L' && a.Addr.Kind != 'G' && shortT(a.Addr.Root) == shortT(b.Addr.Root) && fmt.Sprint(a.Addr.Path) == fmt.Sprint(b.Addr.Path) {
		n := *a.Addr
		n.Base = e.ctx.Ite(g, a.Addr.Base, b.Addr.Base)
		if a.Addr.Idx != nil {
			n.Idx = e.ctx.Ite(g, a.Addr.Idx, b.Addr.Idx)
		}
		return Val{Typ: a.Typ, Addr: &n}
	}
	if a.T == nil && a.Clo == nil && a.Addr == nil {
		return b
	}
	if b.T == nil && b.Clo == nil && b.Addr == nil {
		return a
	}
	ta, tb := e.scalar(a, e.curState), e.scalar(b, e.curState)
	return Val{Typ: a.Typ, T: e.ctx.Ite(g, ta, tb)}
}

func sameVal(a, b Val) bool {
	if a.T != b.T || len(a.Sub) != len(b.Sub) {
		return false
	}
	if a.Clo != b.Clo {
		return false
	}
	if a.Addr != b.Addr {
		if a.Addr == nil || b.Addr == nil {
			return false
		}
		x, y := a.Addr, b.Addr
		if x.Kind != y.Kind || x.Base != y.Base || x.Idx != y.Idx || x.Local != y.Local || x.Glob != y.Glob || fmt.Sprint(x.Path) != fmt.Sprint(y.Path) {
			return false
		}
	}
	if a.Iter != b.Iter {
		return false
	}
	for i := range a.Sub {
		if !sameVal(a.Sub[i], b.Sub[i]) {
			return false
		}
	}
	return true
}

// merge joins control-flow states.
func (e *Exec) merge(ss []*State) *State {
	c := e.ctx
	live := ss[:0:0]
	for _, s := range ss {
		if !s.guard.isFalse() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0].clone()
	}
	r := live[len(live)-1].clone()
	e.curState = r
	for i := len(live) - 2; i >= 0; i-- {
		a := live[i]
		g := a.guard
		for k := range a.comps {
			if _, ok := r.comps[k]; !ok {
				r.comps[k] = e.initComp(k, e.compSort[k])
			}
		}
		for k, rb := range r.comps {
			ra, ok := a.comps[k]
			if !ok {
				ra = e.initComp(k, e.compSort[k])
			}
			if ra != rb {
				r.comps[k] = c.Ite(g, ra, rb)
			}
		}
		for k, vb := range r.locals {
			if va, ok := a.locals[k]; ok {
				r.locals[k] = e.mergeVal(g, va, vb)
			}
		}
		for k, va := range a.locals {
			if _, ok := r.locals[k]; !ok {
				r.locals[k] = va
			}
		}
		for k, vb := range r.env {
			if va, ok := a.env[k]; ok {
				if !sameVal(va, vb) {
					r.env[k] = e.mergeVal(g, va, vb)
				}
			} else {
				delete(r.env, k)
			}
		}
		// defers: common prefix by id, then guarded suffixes
		r.defers = mergeDefers(a, r)
		r.fnStores = mergeFnStores(a.fnStores, r.fnStores)
		r.guard = c.Or(g, r.guard)
	}
	// allocation counter
	same := true
	for _, s := range live {
		if s.alloc != live[0].alloc {
			same = false
		}
	}
	if same {
		r.alloc = live[0].alloc
	} else {
		var ps []*Term
		for _, s := range live {
			ps = append(ps, s.alloc)
		}
		n := c.NewAlloc(ps...)
		for _, s := range live {
			e.rawAssume(c.Imp(s.guard, c.Le(s.alloc, n)))
		}
		// and exactly the maximum of the live branch is not needed
		r.alloc = n
	}
	return r
}

func mergeFnStores(a, b []fnStore) []fnStore {
	out := append([]fnStore{}, b...)
	for _, x := range a {
		dup := false
		for _, y := range b {
			if x.ff == y.ff && x.ref == y.ref && x.guard == y.guard && sameVal(x.val, y.val) {
				dup = true
			}
		}
		if !dup {
			out = append(out, x)
		}
	}
	return out
}

func mergeDefers(a, b *State) []deferred {
	n := 0
	for n < len(a.defers) && n < len(b.defers) && a.defers[n].id == b.defers[n].id {
		n++
	}
	out := append([]deferred{}, a.defers[:n]...)
	out = append(out, a.defers[n:]...)
	out = append(out, b.defers[n:]...)
	return out
}
