package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const maxInline = 40

// call executes a call instruction and updates st in place.
func (e *Exec) call(fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, st *State) Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		var args []Val
		for _, a := range cc.Args {
			args = append(args, e.val(st, a, fr))
		}
		return e.builtin(fr, b, cc, args, st, ins.Pos())
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.val(st, a, fr))
	}
	var fnv Val
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		fnv = e.val(st, cc.Value, fr)
	}
	return e.callWith(fr, ins, cc, fnv, args, st)
}

func (e *Exec) callWith(fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, fnv Val, args []Val, st *State) Val {
	saved := fr.env
	fr.env = st.env
	defer func() { fr.env = saved }()
	pos := ins.Pos()
	if cc.IsInvoke() {
		return e.invoke(fr, cc, fnv, args, st, pos)
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			v := e.val(st, mc, fr)
			if v.Clo != nil {
				binds = v.Clo.Binds
			}
		}
		return e.callFn(f, binds, args, st, pos)
	}
	if f := e.w.constFn(cc.Value); f != nil {
		return e.callFn(f, nil, args, st, pos)
	}
	return e.callDyn(fnv, cc.Signature(), args, st, pos)
}

// constFn: the function a package-level variable holds, when it is set once, at its declaration.
func (w *World) constFn(v ssa.Value) *ssa.Function {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil
	}
	w.tmu.Lock()
	defer w.tmu.Unlock()
	if w.constFns == nil {
		w.constFns = map[*ssa.Global]*ssa.Function{}
		bad := map[*ssa.Global]bool{}
		for f := range ssautil.AllFunctions(w.prog) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops [8]*ssa.Value
					for _, op := range in.Operands(ops[:0]) {
						gg, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
							continue
						}
						st, ok := in.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(gg) || f.Name() != "init" || w.constFns[gg] != nil {
							bad[gg] = true
							continue
						}
						if fn, ok := st.Val.(*ssa.Function); ok {
							w.constFns[gg] = fn
						} else {
							bad[gg] = true
						}
					}
				}
			}
		}
		for gg := range bad {
			delete(w.constFns, gg)
		}
	}
	return w.constFns[g]
}

func (e *Exec) callDyn(v Val, sig *types.Signature, args []Val, st *State, pos token.Pos) Val {
	c := e.ctx
	if v.Clo != nil {
		return e.callClo(v.Clo, sig, args, st, pos)
	}
	if v.T == nil {
		e.unsup("call of unknown function value")
	}
	if cl, ok := e.cloOf[v.T]; ok {
		return e.callClo(cl, sig, args, st, pos)
	}
	if v.T.Op == "ite" {
		return e.branch(st, v.T.Args[0], func(s *State) Val {
			return e.callDyn(Val{Typ: v.Typ, T: v.T.Args[1]}, sig, args, s, pos)
		}, func(s *State) Val {
			return e.callDyn(Val{Typ: v.Typ, T: v.T.Args[2]}, sig, args, s, pos)
		})
	}
	if v.T.isInt() && v.T.I == 0 {
		e.safety(st, c.False(), "call of nil function", pos)
		st.guard = c.False()
		return e.zeroRes(sig)
	}
	if v.T.Op == "select" {
		if ff := e.w.fieldFns[e.compOfArr(v.T.Args[0])]; ff != nil {
			vars := map[string]Val{}
			if ff.self != "" {
				vars[ff.self] = Val{Typ: types.NewPointer(e.w.typeByName(ff.typ)), T: v.T.Args[1]}
			}
			return e.applyContract(ff.ct, sig, args, vars, st, pos, ff.ct.key)
		}
	}
	e.oblige(st, c.False(), "engine", "call of a function value the verifier cannot resolve", e.posStr(pos))
	return e.havocCall("dyn", sig, st)
}

// compOfArr finds the heap component an array term belongs to.
func (e *Exec) compOfArr(t *Term) string {
	for len(t.Args) > 0 {
		if t.Op == "ite" {
			t = t.Args[1]
		} else {
			t = t.Args[0]
		}
	}
	return e.compName[t]
}

func (e *Exec) zeroRes(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return Val{}
	case 1:
		return e.zero(sig.Results().At(0).Type())
	}
	return e.zero(sig.Results())
}

func (e *Exec) callClo(cl *Closure, sig *types.Signature, args []Val, st *State, pos token.Pos) Val {
	if cl.Fn != nil {
		return e.callFn(cl.Fn, cl.Binds, args, st, pos)
	}
	env := map[string]Val{}
	for k, v := range cl.Spec.env {
		env[k] = v
	}
	saved := e.outerSt
	e.outerSt = cl.Spec.old
	defer func() { e.outerSt = saved }()
	return e.applyContract(cl.Spec.contract, sig, args, env, st, pos, "function value")
}

// branch runs two alternatives under a condition and joins them.
func (e *Exec) branch(st *State, g *Term, f1, f2 func(*State) Val) Val {
	c := e.ctx
	a, b := st.clone(), st.clone()
	a.guard = c.And(st.guard, g)
	b.guard = c.And(st.guard, c.Not(g))
	var va, vb Val
	if !a.guard.isFalse() {
		va = f1(a)
	}
	if !b.guard.isFalse() {
		vb = f2(b)
	}
	if a.guard.isFalse() && b.guard.isFalse() {
		st.guard = c.False()
		if va.T == nil && va.Sub == nil {
			return vb
		}
		return va
	}
	if a.guard.isFalse() {
		*st = *b
		return vb
	}
	if b.guard.isFalse() {
		*st = *a
		return va
	}
	m := e.merge([]*State{a, b})
	e.curState = m
	r := e.mergeVal(a.guard, va, vb)
	*st = *m
	return r
}

func (e *Exec) invoke(fr *Frame, cc *ssa.CallCommon, recv Val, args []Val, st *State, pos token.Pos) Val {
	c := e.ctx
	if recv.T == nil {
		e.unsup("invoke on non-term")
	}
	tag := c.ITag(recv.T)
	it := cc.Value.Type()
	m := cc.Method
	if !tag.isInt() || tag.I == 0 {
		e.safety(st, c.Not(c.Eq(tag, c.Int(0))), "method call on nil interface: "+describe(cc.Value)+"."+m.Name(), pos)
	}
	return e.invokeOn(recv, it, m, args, st, pos, 0)
}

func (e *Exec) invokeOn(recv Val, it types.Type, m *types.Func, args []Val, st *State, pos token.Pos, depth int) Val {
	c := e.ctx
	tag := c.ITag(recv.T)
	sig := m.Type().(*types.Signature)
	if tag.isInt() {
		if tag.I == 0 {
			st.guard = c.False()
			return e.zeroRes(sig)
		}
		e.w.mu.Lock()
		ct := e.w.tagTypes[tag.I]
		e.w.mu.Unlock()
		return e.invokeConcrete(ct, recv, m, args, st, pos)
	}
	if tag.Op == "ite" && recv.T.Op == "ite" {
		return e.branch(st, recv.T.Args[0], func(s *State) Val {
			return e.invokeOn(Val{Typ: recv.Typ, T: recv.T.Args[1]}, it, m, args, s, pos, depth+1)
		}, func(s *State) Val {
			return e.invokeOn(Val{Typ: recv.Typ, T: recv.T.Args[2]}, it, m, args, s, pos, depth+1)
		})
	}
	if k, ct := e.ifaceContract(it, m); ct != nil {
		_ = k
		return e.applyContract(ct, sig, append([]Val{recv}, args...), nil, st, pos, ct.key)
	}
	// closed world
	var impls []types.Type
	iu := under(it).(*types.Interface)
	for _, t := range e.w.concrete {
		if types.Implements(t, iu) {
			impls = append(impls, t)
		}
	}
	if len(impls) == 0 || len(impls) > 12 {
		e.note("calls to " + shortT(it) + "." + m.Name() + " through the interface: result unconstrained, no effect on repository state assumed")
		return e.havocCall(m.Name(), sig, st)
	}
	e.note("dynamic calls through " + shortT(it) + " resolve to the types of this repository that implement it")
	var rec func(i int, s *State) Val
	rec = func(i int, s *State) Val {
		t := impls[i]
		if i == len(impls)-1 {
			e.assume(s, c.Eq(tag, e.tagOf(t)))
			return e.invokeConcrete(t, recv, m, args, s, pos)
		}
		return e.branch(s, c.Eq(tag, e.tagOf(t)), func(s *State) Val {
			return e.invokeConcrete(t, recv, m, args, s, pos)
		}, func(s *State) Val { return rec(i+1, s) })
	}
	return rec(0, st)
}

func (e *Exec) ifaceContract(it types.Type, m *types.Func) (string, *Contract) {
	k := shortT(it) + "." + m.Name()
	if c, ok := e.w.contracts[k]; ok {
		return k, c
	}
	// the interface that declares the method
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		k = shortT(r.Type()) + "." + m.Name()
		if c, ok := e.w.contracts[k]; ok {
			return k, c
		}
	}
	// embedded interfaces
	if iu, ok := under(it).(*types.Interface); ok {
		for i := 0; i < iu.NumEmbeddeds(); i++ {
			et := iu.EmbeddedType(i)
			if ei, ok := under(et).(*types.Interface); ok {
				for j := 0; j < ei.NumMethods(); j++ {
					if ei.Method(j).Name() == m.Name() {
						if k, c := e.ifaceContract(et, ei.Method(j)); c != nil {
							return k, c
						}
					}
				}
			}
		}
	}
	return "", nil
}

func (e *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	e.w.tmu.Lock()
	defer e.w.tmu.Unlock()
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.w.prog.MethodValue(sel)
}

func (e *Exec) invokeConcrete(t types.Type, recv Val, m *types.Func, args []Val, st *State, pos token.Pos) Val {
	fn := e.methodOf(t, m)
	if fn == nil {
		e.unsup("no method %s on %s", m.Name(), t)
	}
	r := e.unbox(e.ctx.IVal(recv.T), t, st)
	r.Typ = t
	return e.callFn(fn, nil, append([]Val{r}, args...), st, pos)
}

func (e *Exec) havocCall(name string, sig *types.Signature, st *State) Val {
	na := e.ctx.NewAlloc(st.alloc)
	e.rawAssume(e.ctx.Le(st.alloc, na))
	st.alloc = na
	switch sig.Results().Len() {
	case 0:
		return Val{}
	case 1:
		return e.fresh(name, sig.Results().At(0).Type(), st)
	}
	return e.fresh(name, sig.Results(), st)
}

// callFn calls a known function: by contract when it has one, by inlining otherwise.
func (e *Exec) callFn(fn *ssa.Function, binds, args []Val, st *State, pos token.Pos) Val {
	key := e.w.keyOf(fn)
	if ct := e.w.contracts[key]; ct != nil && !ct.inline {
		return e.applyContract(ct, fn.Signature, args, nil, st, pos, key)
	}
	if len(fn.Blocks) == 0 {
		e.note("external function " + key + ": result unconstrained, no effect on repository state assumed")
		return e.havocCall(fn.Name(), fn.Signature, st)
	}
	if ct := e.implContract(fn, key); ct != nil {
		recv := fn.Signature.Recv().Type()
		a := append([]Val{}, args...)
		a[0] = Val{Typ: types.NewInterfaceType(nil, nil), T: e.ctx.MkI(e.tagOf(recv), e.box(args[0], recv, st))}
		return e.applyContract(ct, fn.Signature, a, nil, st, pos, ct.key)
	}
	if len(e.frames) > maxInline {
		e.unsup("inlining too deep at %s", key)
	}
	for _, f := range e.frames {
		if f.fn == fn {
			e.oblige(st, e.ctx.False(), "engine", "recursive function without a contract: "+key, e.posStr(pos))
			return e.havocCall(fn.Name(), fn.Signature, st)
		}
	}
	if fn.Synthetic == "" {
		e.inlined[key] = true
	}
	return e.inline(fn, binds, args, st)
}

// implContract gives the interface contract that a method with loops and no contract of its own is verified against.
func (e *Exec) implContract(fn *ssa.Function, key string) *Contract {
	if fn.Signature.Recv() == nil || fn.Synthetic != "" || len(fn.Params) == 0 || len(e.w.loopsOf(fn).loops) == 0 {
		return nil
	}
	recv := fn.Signature.Recv().Type()
	for _, k := range sortedKeys(e.w.contracts) {
		ct := e.w.contracts[k]
		if !ct.iface || ct.trusted || !strings.HasSuffix(k, "."+fn.Name()) || slices.Contains(ct.except, shortT(recv)) {
			continue
		}
		it := e.w.typeByName(strings.TrimSuffix(k, "."+fn.Name()))
		if it == nil {
			continue
		}
		if iu, ok := under(it).(*types.Interface); ok && types.Implements(recv, iu) {
			return ct
		}
	}
	return nil
}

func (e *Exec) inline(fn *ssa.Function, binds, args []Val, st *State) Val {
	callerEnv, callerDefers := st.env, st.defers
	nf := &Frame{fn: fn, binds: binds, contract: e.w.contracts[e.w.keyOf(fn)]}
	s := st.clone()
	s.env = map[ssa.Value]Val{}
	s.defers = nil
	nf.vars = map[string]Val{}
	for i, p := range fn.Params {
		a := args[i]
		a.Typ = p.Type()
		s.env[p] = a
		if nf.contract != nil && i < len(nf.contract.params) {
			nf.vars[nf.contract.params[i]] = a
		}
	}
	e.frames = append(e.frames, nf)
	e.runFunc(nf, s)
	e.frames = e.frames[:len(e.frames)-1]
	var rs []retState
	for _, r := range nf.returns {
		if !r.st.guard.isFalse() {
			rs = append(rs, r)
		}
	}
	if len(rs) == 0 {
		st.guard = e.ctx.False()
		return e.zeroRes(fn.Signature)
	}
	var ss []*State
	for _, r := range rs {
		r.st.env = callerEnv
		r.st.defers = callerDefers
		ss = append(ss, r.st)
	}
	m := e.merge(ss)
	e.curState = m
	n := len(rs[0].vals)
	out := append([]Val{}, rs[len(rs)-1].vals...)
	for i := len(rs) - 2; i >= 0; i-- {
		for j := 0; j < n; j++ {
			out[j] = e.mergeVal(rs[i].st.guard, rs[i].vals[j], out[j])
		}
	}
	for j := 0; j < n; j++ {
		out[j].Typ = fn.Signature.Results().At(j).Type()
	}
	*st = *m
	st.env = callerEnv
	st.defers = callerDefers
	switch n {
	case 0:
		return Val{}
	case 1:
		return out[0]
	}
	return Val{Typ: fn.Signature.Results(), Sub: out}
}

func (e *Exec) runDefers(fr *Frame, ins ssa.Instruction, st *State) *State {
	ds := st.defers
	st.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		run := func(s *State) Val {
			e.callWith(fr, ins, d.call, d.fn, d.args, s)
			return Val{}
		}
		if subsetConj(d.guard, st.guard) {
			run(st)
		} else {
			e.branch(st, d.guard, run, func(s *State) Val { return Val{} })
		}
		if st.guard.isFalse() {
			return nil
		}
	}
	return st
}

func subsetConj(a, b *Term) bool {
	m := map[*Term]bool{}
	for _, x := range conjuncts(b) {
		m[x] = true
	}
	for _, x := range conjuncts(a) {
		if !m[x] && !x.isTrue() {
			return false
		}
	}
	return true
}

// locOf lists the heap locations a modifies clause names, evaluated in env.
func (e *Exec) locOf(env *SEnv, x *Ex) []allowedLoc {
	c := e.ctx
	add := func(t types.Type, pre string, lt types.Type, ref *Term) []allowedLoc {
		var out []allowedLoc
		for _, l := range leaves(lt) {
			out = append(out, allowedLoc{comp: fcomp(t, joinPath(pre, l.path)), ref: ref, sort: ArrS("Int", l.sort)})
		}
		return out
	}
	switch x.op {
	case "id":
		if ty, ok := e.w.ghostVars[x.s]; ok {
			so, _ := ghostSort(e.w, ty)
			return []allowedLoc{{comp: "F|ghost|" + x.s, ref: c.Int(0), sort: ArrS("Int", so)}}
		}
	case "call":
		switch x.s {
		case "elems":
			v := env.eval(x.kids[0])
			el := under(v.Typ).(*types.Slice).Elem()
			var out []allowedLoc
			for _, l := range leaves(el) {
				out = append(out, allowedLoc{comp: ecomp(el, l.path), ref: c.SArr(v.T), sort: ArrS("Int", ArrS("Int", l.sort))})
			}
			return out
		case "mapof":
			v := env.eval(x.kids[0])
			u := under(v.Typ).(*types.Map)
			out := []allowedLoc{{comp: "MD|" + mname(u), ref: v.T, sort: e.mdSort(u)}, {comp: "ML", ref: v.T, sort: ArrS("Int", "Int")}}
			for _, l := range leaves(u.Elem()) {
				out = append(out, allowedLoc{comp: "MV|" + mname(u) + "|" + l.path, ref: v.T, sort: ArrS("Int", ArrS(keySort(u.Key()), l.sort))})
			}
			return out
		}
	case "deref":
		v := env.eval(x.kids[0])
		t := deref(v.Typ)
		var out []allowedLoc
		for _, l := range leaves(t) {
			out = append(out, allowedLoc{comp: objComp(t, l.path), ref: e.scalar(v, env.st), sort: ArrS("Int", l.sort)})
		}
		return out
	case "sel":
		v := env.eval(x.kids[0])
		if v.T == nil && v.Addr != nil {
			v.T = e.scalar(v, env.st)
		}
		if strings.HasPrefix(x.s, "$") {
			t := v.Typ
			if isPtr(t) {
				t = deref(t)
			}
			for _, g := range e.w.ghostFields["any"] {
				if g.name == x.s {
					so, _ := ghostSort(e.w, g.typ)
					ref := v.T
					switch ref.Sort {
					case "Iface":
						ref = c.IVal(ref)
					case "Slice":
						ref = c.SArr(ref)
					}
					return []allowedLoc{{comp: "F|any|" + x.s, ref: ref, sort: ArrS("Int", so)}}
				}
			}
			for depth := 0; depth < 4; depth++ {
				for _, g := range e.w.ghostFields[shortT(t)] {
					if g.name == x.s {
						so, _ := ghostSort(e.w, g.typ)
						ref := v.T
						switch ref.Sort {
						case "Iface":
							ref = c.IVal(ref)
						case "Slice":
							ref = c.SArr(ref)
						}
						return []allowedLoc{{comp: "F|" + shortT(t) + "|" + x.s, ref: ref, sort: ArrS("Int", so)}}
					}
				}
				s, ok := under(t).(*types.Struct)
				if !ok {
					break
				}
				moved := false
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Embedded() && isPtr(s.Field(i).Type()) {
						v = e.fieldOf(v, i, env.st)
						t = deref(s.Field(i).Type())
						moved = true
						break
					}
				}
				if !moved {
					break
				}
			}
			sfail("modifies: no ghost field %s", x.s)
		}
		if x.s == "*" {
			t := deref(v.Typ)
			out := add(t, "", t, v.T)
			for _, g := range e.w.ghostFields[shortT(t)] {
				so, _ := ghostSort(e.w, g.typ)
				out = append(out, allowedLoc{comp: "F|" + shortT(t) + "|" + g.name, ref: v.T, sort: ArrS("Int", so)})
			}
			return out
		}
		_, index, _ := types.LookupFieldOrMethod(v.Typ, true, e.w.pkgOf(v.Typ), x.s)
		if index == nil {
			sfail("modifies: no field %s in %s", x.s, shortT(v.Typ))
		}
		// walk to the last pointer
		cur := v
		var path []int
		root := deref(cur.Typ)
		ref := cur.T
		t := root
		for _, i := range index {
			if isPtr(t) {
				nv := e.load(&Addr{Kind: 'F', Base: ref, Root: root, Path: path, Typ: t}, env.st)
				ref, root, path = nv.T, deref(t), nil
				t = root
			}
			path = append(append([]int{}, path...), i)
			t = under(t).(*types.Struct).Field(i).Type()
		}
		return add(root, pathName(root, path), t, ref)
	}
	sfail("modifies: unsupported location %s", x.op)
	return nil
}

// allComp translates "pkg.T.f" / "pkg.T.*" to component names.
func (w *World) allComp(k string) string {
	if strings.HasPrefix(k, "map.") { // map.<valuepkg>.<T>: every map[string]T
		return "M*" + k[4:]
	}
	i := strings.LastIndex(k, ".")
	return "F|" + k[:i] + "|" + k[i+1:]
}

func (e *Exec) bindParams(ct *Contract, sig *types.Signature, args []Val, extra map[string]Val) map[string]Val {
	vars := map[string]Val{}
	for k, v := range extra {
		vars[k] = v
	}
	if len(ct.params) > len(args) {
		sfail("contract %s names %d parameters, the function has %d", ct.key, len(ct.params), len(args))
	}
	for i, p := range ct.params {
		if p != "_" {
			vars[p] = args[i]
		}
	}
	return vars
}

// applyContract replaces a call by the callee's contract.
func (e *Exec) applyContract(ct *Contract, sig *types.Signature, args []Val, extra map[string]Val, st *State, pos token.Pos, key string) Val {
	c := e.ctx
	e.contrUsed[ct.key] = true
	if ct.extern || ct.trusted {
		e.trustUsed[ct.key] = true
	}
	for i := range args {
		if args[i].Addr != nil && args[i].T == nil {
			args[i] = Val{Typ: args[i].Typ, T: e.scalar(args[i], st)}
		}
	}
	vars := e.bindParams(ct, sig, args, extra)
	pre := st.clone()
	env := &SEnv{e: e, vars: vars, st: st, old: pre}
	for i, r := range ct.requires {
		e.oblige(st, env.bool(r.ex), "pre", "precondition of "+key+": "+clauseName(r, i), e.posStr(pos), r.props...)
	}
	for _, p := range ct.params {
		if cc, ok := ct.closures[p]; ok {
			e.checkClosure(cc, vars[p], vars, st)
		}
	}
	for _, x := range ct.except {
		if t := e.w.typeByName(x); t != nil {
			e.oblige(st, c.Not(c.Eq(c.ITag(vars[ct.params[0]].T), e.tagOf(t))), "pre", "the interface does not hold a "+x, e.posStr(pos))
		}
	}
	e.recCall(ct, vars, st, pos)
	// effects
	if ct.modAll {
		e.havocked = true
		for _, k := range sortedKeys(e.compSort) {
			e.comp(st, k, e.compSort[k])
			if strings.HasPrefix(k, "V|") || e.w.immutComp(k) {
				continue
			}
			e.setComp(st, k, c.Fresh("hv."+k, e.compSort[k]))
			e.logMod(st, k, nil)
		}
	}
	penv := &SEnv{e: e, vars: vars, st: pre, old: pre}
	for _, m := range ct.modifies {
		if m.all != "" {
			e.havocAll(m, penv, st, pre)
			continue
		}
		var when *Term
		if m.when != nil {
			when = penv.bool(m.when)
		}
		for _, l := range e.locOf(penv, m.ex) {
			h := e.comp(st, l.comp, l.sort)
			nv := c.Fresh("m."+l.comp, arrElem(l.sort))
			if when != nil {
				nv = c.Ite(when, nv, c.Select(h, l.ref))
			}
			e.setComp(st, l.comp, c.Store(h, l.ref, nv))
			wst := st
			if when != nil {
				wst = guarded(st, c, when)
			}
			if !(when != nil && when.isFalse()) {
				e.logMod(wst, l.comp, l.ref)
			}
		}
	}
	na := c.NewAlloc(pre.alloc)
	e.rawAssume(c.Le(pre.alloc, na))
	st.alloc = na
	// results
	var res Val
	rs := sig.Results()
	env.old = pre
	name := key
	if i := strings.LastIndex(name, "."); i >= 0 {
		name = name[i+1:]
	}
	mk := func(i int) Val {
		rn := fmt.Sprintf("r%d", i)
		if i < len(ct.results) {
			rn = ct.results[i]
		}
		t := rs.At(i).Type()
		v := e.fresh("r."+name+"."+rn, t, st)
		if cc, ok := ct.closures[rn]; ok {
			v.Clo = &Closure{Spec: &cloSpec{contract: cc, env: vars, old: pre}}
			e.cloOf[v.T] = v.Clo
			e.assume(st, c.Lt(c.Int(0), v.T))
			v.Clo = nil
		}
		if i < len(ct.results) {
			vars[ct.results[i]] = v
		}
		return v
	}
	switch rs.Len() {
	case 0:
	case 1:
		res = mk(0)
	default:
		res = Val{Typ: rs}
		for i := 0; i < rs.Len(); i++ {
			res.Sub = append(res.Sub, mk(i))
		}
	}
	env.facts = true
	for _, d := range ct.defines {
		if len(ct.results) == 1 {
			e.assumeEx(st, env, d.cl.ex)
			continue
		}
		t := e.scalar(env.vars[d.name], st)
		if t.Sort == "Iface" {
			t = c.ITag(t)
		}
		e.assume(st, c.Imp(c.Not(c.Eq(t, c.Int(0))), env.bool(d.cl.ex)))
	}
	for _, en := range ct.ensures {
		e.assumeEx(st, env, en.ex)
	}
	return res
}

// assumeEx assumes a clause, splitting top-level conjunctions.
func (e *Exec) assumeEx(st *State, env *SEnv, x *Ex) {
	if x.op == "bin" && x.s == "&&" {
		e.assumeEx(st, env, x.kids[0])
		e.assumeEx(st, env, x.kids[1])
		return
	}
	e.assume(st, env.bool(x))
}

func clauseName(c Clause, i int) string {
	if c.label != "" {
		return c.label
	}
	if len(c.text) < 120 {
		return c.text
	}
	return fmt.Sprintf("%s…", c.text[:110])
}

func (e *Exec) havocAll(m ModLoc, penv *SEnv, st *State, pre *State) {
	c := e.ctx
	for _, k := range e.matchComps(m.all) {
		so := e.compSort[k]
		h := e.comp(st, k, so)
		n := c.Fresh("hv."+k, so)
		if m.cond != nil {
			r := c.BV("r", "Int")
			en := penv.with(map[string]Val{"r": {Typ: types.Typ[types.Int], T: r}})
			cond := en.bool(m.cond)
			e.assume(st, c.Forall([]*Term{r}, [][]*Term{{c.Select(n, r)}}, c.Or(cond, c.Eq(c.Select(n, r), c.Select(h, r)))))
		}
		e.setComp(st, k, n)
		e.logModAll(st, k, m, penv)
	}
}

func (e *Exec) matchComps(all string) []string {
	pat := e.w.allComp(all)
	// make sure the component exists
	if strings.HasPrefix(pat, "M*") {
		t := e.w.typeByName(pat[2:])
		if t == nil {
			sfail("modifies all: unknown type %s", pat[2:])
		}
		u := types.NewMap(types.Typ[types.String], t)
		n := mname(u)
		e.initComp("MD|"+n, e.mdSort(u))
		e.initComp("ML", ArrS("Int", "Int"))
		out := []string{"MD|" + n, "ML"}
		for _, l := range leaves(t) {
			k := "MV|" + n + "|" + l.path
			e.initComp(k, ArrS("Int", ArrS("Str", l.sort)))
			out = append(out, k)
		}
		return out
	}
	parts := strings.SplitN(pat, "|", 3)
	t := e.w.typeByName(parts[1])
	if t == nil {
		sfail("modifies all: unknown type %s", parts[1])
	}
	var out []string
	if _, ok := under(t).(*types.Struct); ok {
		for _, l := range leaves(t) {
			k := fcomp(t, l.path)
			if parts[2] == "*" || l.path == parts[2] || strings.HasPrefix(l.path, parts[2]+".") {
				e.initComp(k, ArrS("Int", l.sort))
				out = append(out, k)
			}
		}
	}
	for _, g := range e.w.ghostFields[parts[1]] {
		if parts[2] == "*" || g.name == parts[2] {
			so, _ := ghostSort(e.w, g.typ)
			k := "F|" + parts[1] + "|" + g.name
			e.initComp(k, ArrS("Int", so))
			out = append(out, k)
		}
	}
	if len(out) == 0 {
		sfail("modifies all %s matches nothing", all)
	}
	return out
}

func (e *Exec) logModAll(st *State, comp string, m ModLoc, penv *SEnv) {
	e.mods = append(e.mods, modEvent{comp: comp, ref: nil})
	if e.dry > 0 || e.root == nil || e.root.modAll || e.initMode {
		return
	}
	c := e.ctx
	for _, a := range e.allowed {
		if a.comp == comp && a.ref == nil && a.cond == nil {
			return
		}
	}
	for _, a := range e.allowed {
		if a.comp == comp && a.ref == nil && m.cond != nil {
			r := c.Fresh("r", "Int")
			en := penv.with(map[string]Val{"r": {Typ: types.Typ[types.Int], T: r}})
			e.oblige(st, c.Imp(en.bool(m.cond), c.Or(c.Le(e.alloc0, r), a.cond(r))), "frame", "callee writes only what the contract allows: "+comp, "")
			return
		}
	}
	if m.cond != nil {
		r := c.Fresh("r", "Int")
		en := penv.with(map[string]Val{"r": {Typ: types.Typ[types.Int], T: r}})
		e.oblige(st, c.Imp(en.bool(m.cond), c.Le(e.alloc0, r)), "frame", "callee writes only what the contract allows: "+comp, "")
		return
	}
	e.oblige(st, c.False(), "frame", "callee may write "+comp+" which the contract does not allow", "")
}

func (e *Exec) recCall(ct *Contract, vars map[string]Val, st *State, pos token.Pos) {
	if e.dry > 0 || e.houdini > 0 || ct.norec || ct.extern {
		return
	}
	kind := "bad"
	if ct.recmeas != nil && e.recEntry != nil {
		env := &SEnv{e: e, vars: vars, st: st, old: st}
		m := env.term(ct.recmeas)
		c := e.ctx
		if e.prove(st, c.And(c.Le(c.Int(0), e.recEntry), c.Lt(m, e.recEntry))) {
			kind = "strict"
		} else if e.prove(st, c.Le(m, e.recEntry)) {
			kind = "weak"
		}
	}
	e.edges = append(e.edges, recEdge{From: e.key, To: ct.key, Kind: kind, Pos: e.posStr(pos)})
}

func (e *Exec) builtin(fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, st *State, pos token.Pos) Val {
	c := e.ctx
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		t := cc.Args[0].Type()
		it := types.Typ[types.Int]
		switch u := under(t).(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				r := e.fresh("cap", it, st)
				e.assume(st, c.Le(c.SLen(v.T), r.T))
				return r
			}
			return Val{Typ: it, T: c.SLen(v.T)}
		case *types.Map:
			n := e.rd(st, "ML", "Int", v.T)
			r := c.Ite(c.Eq(v.T, c.Int(0)), c.Int(0), n)
			e.assume(st, c.Le(c.Int(0), r))
			k := c.BV("k", keySort(u.Key()))
			e.assume(st, c.Imp(c.Eq(r, c.Int(0)), c.Forall([]*Term{k}, [][]*Term{{e.mapSel(v.T, u, k, st)}}, c.Not(e.mapHas(v.T, u, k, st)))))
			return Val{Typ: it, T: r}
		case *types.Basic:
			if s, ok := c.litVal(v.T); ok {
				return Val{Typ: it, T: c.Int(int64(len(s)))}
			}
			// byte length: unrelated to the rune count except for emptiness
			n := c.App("bytelen", "Int", v.T)
			e.assume(st, c.And(c.Le(c.Int(0), n), c.Eq(c.Eq(n, c.Int(0)), c.Eq(v.T, c.StrLit("")))))
			return Val{Typ: it, T: n}
		case *types.Array:
			return Val{Typ: it, T: c.Int(u.Len())}
		case *types.Pointer:
			return Val{Typ: it, T: c.Int(under(u.Elem()).(*types.Array).Len())}
		}
	case "append":
		return e.appendB(cc, args, st)
	case "copy":
		e.note("copy: destination contents unconstrained")
		el := under(cc.Args[0].Type()).(*types.Slice).Elem()
		for _, l := range leaves(el) {
			n := ecomp(el, l.path)
			so := ArrS("Int", ArrS("Int", l.sort))
			h := e.comp(st, n, so)
			e.setComp(st, n, c.Store(h, c.SArr(args[0].T), c.Fresh("copy", ArrS("Int", l.sort))))
			e.logMod(st, n, c.SArr(args[0].T))
		}
		return e.fresh("copied", types.Typ[types.Int], st)
	case "delete":
		u := under(cc.Args[0].Type()).(*types.Map)
		e.mapDelete(args[0].T, u, e.keyOf(args[1], st), st)
		return Val{}
	case "print", "println":
		return Val{}
	case "ssa:wrapnilchk":
		if args[0].T != nil {
			e.safety(st, c.Not(c.Eq(args[0].T, c.Int(0))), "nil receiver of a value method", pos)
		}
		return args[0]
	}
	e.unsup("builtin %s", b.Name())
	return Val{}
}

// appendB models append by copying to a fresh array (see DESIGN: slices are not shared for append).
func (e *Exec) appendB(cc *ssa.CallCommon, args []Val, st *State) Val {
	c := e.ctx
	t := cc.Args[0].Type()
	el := under(t).(*types.Slice).Elem()
	a := args[0]
	if len(args) == 1 {
		return a
	}
	b := args[1]
	if b.T.Sort == "Str" {
		e.note("append of string bytes: contents unconstrained")
		return e.fresh("append", t, st)
	}
	n, m := c.SLen(a.T), c.SLen(b.T)
	if m.isInt() && m.I == 0 {
		return Val{Typ: t, T: a.T}
	}
	r := e.allocRef(st)
	off := c.SOff(a.T)
	if n.isInt() && n.I == 0 {
		off = c.Int(0)
	}
	for _, l := range leaves(el) {
		nm := ecomp(el, l.path)
		rs := ArrS("Int", l.sort)
		h := e.comp(st, nm, ArrS("Int", rs))
		row := c.Select(h, c.SArr(a.T))
		if n.isInt() && n.I == 0 {
			row = c.ConstArr(rs, zeroTerm(c, l.sort))
		}
		brow := c.Select(h, c.SArr(b.T))
		if m.isInt() && m.I <= 32 {
			for i := int64(0); i < m.I; i++ {
				row = c.Store(row, c.Add(c.Add(off, n), c.Int(i)), c.Select(brow, c.Add(c.SOff(b.T), c.Int(i))))
			}
		} else {
			nr := c.Fresh("app", rs)
			k := c.BV("k", "Int")
			base := c.Add(off, n)
			e.assume(st, c.Forall([]*Term{k}, [][]*Term{{c.Select(nr, k)}}, c.Eq(c.Select(nr, k),
				c.Ite(c.Lt(k, base), c.Select(row, k), c.Select(brow, c.Add(c.Sub(k, base), c.SOff(b.T)))))))
			// the copied part is also reachable from the source side
			k2 := c.BV("k", "Int")
			e.assume(st, c.Forall([]*Term{k2}, [][]*Term{{c.Select(row, k2)}}, c.Imp(c.Lt(k2, base), c.Eq(c.Select(nr, k2), c.Select(row, k2)))))
			k3 := c.BV("k", "Int")
			bt := c.mk("select", "", 0, l.sort, brow, k3)
			e.assume(st, c.Forall([]*Term{k3}, [][]*Term{{bt}}, c.Imp(c.Le(c.SOff(b.T), k3), c.Eq(c.Select(nr, c.Add(c.Sub(k3, c.SOff(b.T)), base)), bt))))
			row = nr
		}
		e.setComp(st, nm, c.Store(h, r, row))
		e.mods = append(e.mods, modEvent{comp: nm, ref: r})
	}
	if m.isInt() && m.I > 0 {
		return Val{Typ: t, T: c.MkS(r, off, c.Add(n, m))}
	}
	ns := c.MkS(r, off, c.Add(n, m))
	return Val{Typ: t, T: c.Ite(c.Eq(m, c.Int(0)), a.T, ns)}
}
