package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ObRes struct {
	Name   string
	Kind   string
	Props  []string
	Pos    string
	OK     bool
	By     string
	Ms     int64
	Detail string
}

type Exec struct {
	failedFs       []*Term
	goalEnd        time.Time
	light          bool // no second attempts
	unrollPath     []int64
	dropped        map[string]bool
	failedPiece    *Term
	havocked, late bool
	w              *World
	ctx            *Ctx
	sess           *Session
	fn             *ssa.Function
	key            string
	root           *Contract
	rootVars       map[string]Val
	dry            int
	houdini        int
	init0          map[string]*Term
	compSort       map[string]string
	mods           []modEvent
	modLocals      map[int]bool
	allowed        []allowedLoc
	alloc0         *Term
	entry          *State
	curState       *State
	obs            []ObRes
	obCount        map[string]int
	implDone       map[string]bool
	cloOf          map[*Term]*Closure
	compName       map[*Term]string
	frames         []*Frame
	nlocal         int
	ndefer         int
	initMode       bool
	notes          map[string]bool
	factDone       map[string]bool
	softFresh      map[*Term]*Term
	edges          []recEdge
	gfDone         map[string]bool
	localTyp       map[int]types.Type
	localName      map[int]string
	trustUsed      map[string]bool
	contrUsed      map[string]bool
	inlined        map[string]bool
	outerSt        *State
	ownAlloc       map[*Term]bool // objects allocated by the function itself, not by a callee
	deadline       time.Time
	assumeLog      int
	iterStack      []int
	recEntry       *Term
	active         []*activeLoop
	invUsed        []string
}

type recEdge struct {
	From, To string
	Kind     string // strict weak bad
	Pos      string
}

type Frame struct {
	fn       *ssa.Function
	binds    []Val
	contract *Contract
	vars     map[string]Val
	returns  []retState
	loops    *loopInfo
	env      map[ssa.Value]Val // env of the frame at the point of the active call
	callIns  ssa.Instruction
}

type retState struct {
	st   *State
	vals []Val
	pos  token.Pos
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type unsupported struct{ msg string }

func (e *Exec) unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (e *Exec) note(s string) { e.notes[s] = true }

func (e *Exec) rawAssume(t *Term) {
	if e.dry > 0 || t.isTrue() {
		return
	}
	e.sess.Assert(t)
}

func (e *Exec) assume(st *State, t *Term) {
	if e.dry > 0 || t.isTrue() || t.bv {
		return
	}
	f := e.ctx.Imp(st.guard, t)
	k := fmt.Sprint(f.id)
	if e.factDone[k] && len(e.sess.stack) == 1 {
		return
	}
	if len(e.sess.stack) == 1 {
		e.factDone[k] = true
	}
	e.sess.Assert(f)
}

func (e *Exec) prove(st *State, t *Term) bool {
	f := e.ctx.Imp(st.guard, t)
	if f.isTrue() {
		return true
	}
	return e.checkGoal(st.guard, t) == "unsat"
}

func (e *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.w.prog.Fset.Position(p)
	return strings.TrimPrefix(ps.Filename, e.w.repo+"/") + ":" + fmt.Sprint(ps.Line)
}

var curPos token.Pos

func (e *Exec) oblige(st *State, t *Term, kind, desc, pos string, props ...string) bool {
	if e.dry > 0 {
		return true
	}
	c := e.ctx
	f := c.Imp(st.guard, t)
	if e.houdini > 0 {
		e.rawAssume(f)
		return true
	}
	base := e.key + "/" + kind + ": " + desc
	e.obCount[base]++
	name := base
	if n := e.obCount[base]; n > 1 {
		name = fmt.Sprintf("%s #%d", base, n)
	}
	r := ObRes{Name: name, Kind: kind, Props: props, Pos: pos}
	if f.isTrue() {
		r.OK = true
		r.By = "simplifier"
		e.obs = append(e.obs, r)
		return true
	}
	t0 := time.Now()
	res := "unknown"
	if time.Now().Before(e.deadline) {
		e.failedPiece = nil
		res = e.checkGoal(st.guard, t)
	} else {
		r.Detail = "time budget for this function exhausted"
	}
	r.By = "z3"
	if res != "unsat" && time.Now().Before(e.deadline) && !e.w.noFallback {
		n := 0
		for _, o := range e.obs {
			if !o.OK {
				n++
			}
		}
		if n < 6 {
			var who string
			var r2 string
			r2, who = e.sess.fallback([]*Term{st.guard, c.Not(t)}, e.w.fallbackSecs)
			if r2 == "unsat" {
				res = "unsat"
				r.By = who + " (stand-alone)"
			}
		}
	}
	r.Ms = time.Since(t0).Milliseconds()
	r.OK = res == "unsat"
	if !r.OK {
		r.Detail += " solver answer: " + res
		if e.failedPiece != nil && e.w.showPiece {
			r.Detail += " PIECE " + e.failedPiece.Str()
		}
		if e.w.verbose {
			fmt.Fprintf(os.Stderr, "FAIL %s [%s] (%s) %dms\n", name, pos, res, r.Ms)
		}
		if e.w.dumpDir != "" {
			os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", e.w.dumpDir, sanitize(e.key), len(e.obs)), []byte("; "+name+"\n"+e.sess.script([]*Term{st.guard, c.Not(t)})), 0644)
			if e.failedFs != nil {
				os.WriteFile(fmt.Sprintf("%s/%s.%d.piece.smt2", e.w.dumpDir, sanitize(e.key), len(e.obs)), []byte("; "+name+"\n"+e.sess.script(e.failedFs)), 0644)
			}
		}
	} else if e.w.verbose && r.Ms > 400 {
		fmt.Fprintf(os.Stderr, "SLOW %s %dms\n", name, r.Ms)
	}
	e.obs = append(e.obs, r)
	e.rawAssume(f)
	return r.OK
}

func (e *Exec) safety(st *State, t *Term, desc string, pos token.Pos) {
	e.oblige(st, t, "safety", desc, e.posStr(pos), e.w.safetyProps(e.fn)...)
	// once checked, execution continues only where it holds
	if e.dry == 0 {
		if len(st.guard.Args) < 200 && false {
			st.guard = e.ctx.And(st.guard, t)
		}
	}
}

// ---------- instruction semantics ----------

func (e *Exec) val(st *State, v ssa.Value, fr *Frame) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(e, x)
	case *ssa.Global:
		return Val{Typ: x.Type(), Addr: &Addr{Kind: 'G', Glob: x, Root: deref(x.Type()), Typ: deref(x.Type())}}
	case *ssa.Function:
		return Val{Typ: x.Type(), Clo: &Closure{Fn: x}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return Val{Typ: x.Type()}
	}
	r, ok := st.env[v]
	if !ok {
		e.unsup("no value for %s in %s", v.Name(), fr.fn.String())
	}
	return r
}

func (e *Exec) derefAddr(v Val, t types.Type, st *State, pos token.Pos, what string) *Addr {
	// address of the whole object behind pointer value v (pointing to t)
	if v.Addr != nil {
		return v.Addr
	}
	e.safety(st, e.ctx.Not(e.ctx.Eq(v.T, e.ctx.Int(0))), "nil dereference: "+what, pos)
	return nil
}

func (e *Exec) loadPtr(v Val, st *State, pos token.Pos, what string) Val {
	t := deref(v.Typ)
	var r Val
	if a := e.derefAddr(v, t, st, pos, what); a != nil {
		r = e.load(a, st)
	} else {
		r = e.loadObj(t, v.T, st)
	}
	r.Typ = t
	e.loadFacts(r, st)
	return r
}

func (e *Exec) loadFacts(v Val, st *State) {
	if v.T != nil {
		if len(v.T.Args) == 0 && v.T.Op != "const" && !strings.HasPrefix(v.T.S, "lr.") && !strings.HasPrefix(v.T.S, "lh.") {
			return
		}
		e.typeFacts(v, st)
		return
	}
	for _, s := range v.Sub {
		e.loadFacts(s, st)
	}
}

func (e *Exec) storePtr(v, x Val, st *State, pos token.Pos, what string) {
	t := deref(v.Typ)
	if a := e.derefAddr(v, t, st, pos, what); a != nil {
		e.store(a, x, st)
		return
	}
	if s, ok := under(t).(*types.Struct); ok {
		_ = s
		ts := e.flat(x, st)
		for i, l := range leaves(t) {
			e.wr(st, fcomp(t, l.path), l.sort, v.T, ts[i])
		}
		return
	}
	e.storeObj(t, v.T, x, st)
}

func (e *Exec) isLocalAlloc(a *ssa.Alloc) bool {
	e.w.tmu.Lock()
	if r, ok := e.w.localAlloc[a]; ok {
		e.w.tmu.Unlock()
		return r
	}
	e.w.tmu.Unlock()
	r := localUse(a, map[ssa.Value]bool{})
	if _, ok := under(deref(a.Type())).(*types.Array); ok {
		r = false
	}
	e.w.tmu.Lock()
	e.w.localAlloc[a] = r
	e.w.tmu.Unlock()
	return r
}

func localUse(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !localUse(x, seen) {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !localUse(fn.FreeVars[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (e *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	c := e.ctx
	for _, ins := range b.Instrs {
		if st.guard.isFalse() {
			return nil
		}
		e.curState = st
		switch x := ins.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Alloc:
			t := deref(x.Type())
			if e.isLocalAlloc(x) {
				e.nlocal++
				id := e.nlocal
				st.locals[id] = e.zero(t)
				e.localTyp[id] = t
				e.localName[id] = x.Comment
				st.env[x] = Val{Typ: x.Type(), Addr: &Addr{Kind: 'L', Local: id, Root: t, Typ: t}}
				break
			}
			r := e.newObj(t, st)
			st.env[x] = Val{Typ: x.Type(), T: r}
			if e.root != nil {
				for _, g := range e.root.ghostNew {
					if g.newTyp != shortT(t) {
						continue
					}
					vars := map[string]Val{}
					for k, v := range e.rootVars {
						vars[k] = v
					}
					vars[g.newVar] = Val{Typ: x.Type(), T: r}
					e.ghostAssign(&SEnv{e: e, vars: vars, st: st, old: e.entry}, g, st)
				}
			}
		case *ssa.BinOp:
			st.env[x] = e.binop(x, e.val(st, x.X, fr), e.val(st, x.Y, fr), st)
		case *ssa.UnOp:
			v := e.val(st, x.X, fr)
			switch x.Op {
			case token.MUL:
				r := e.loadPtr(v, st, x.Pos(), describe(x.X))
				r.Typ = x.Type()
				st.env[x] = r
			case token.NOT:
				st.env[x] = Val{Typ: x.Type(), T: c.Not(v.T)}
			case token.SUB:
				st.env[x] = Val{Typ: x.Type(), T: c.Neg(v.T)}
			default:
				st.env[x] = e.fresh("unop", x.Type(), st)
			}
		case *ssa.ChangeType:
			v := e.val(st, x.X, fr)
			v.Typ = x.Type()
			st.env[x] = v
		case *ssa.ChangeInterface:
			v := e.val(st, x.X, fr)
			v.Typ = x.Type()
			st.env[x] = v
		case *ssa.Convert:
			st.env[x] = e.convert(x, e.val(st, x.X, fr), st)
		case *ssa.MakeInterface:
			v := e.val(st, x.X, fr)
			st.env[x] = Val{Typ: x.Type(), T: c.MkI(e.tagOf(x.X.Type()), e.box(v, x.X.Type(), st))}
		case *ssa.Extract:
			st.env[x] = e.val(st, x.Tuple, fr).Sub[x.Index]
		case *ssa.Field:
			v := e.val(st, x.X, fr)
			st.env[x] = v.Sub[x.Field]
		case *ssa.FieldAddr:
			v := e.val(st, x.X, fr)
			t := deref(x.X.Type())
			ft := under(t).(*types.Struct).Field(x.Field).Type()
			if v.Addr != nil {
				a := *v.Addr
				a.Path = append(append([]int{}, a.Path...), x.Field)
				a.Typ = ft
				st.env[x] = Val{Typ: x.Type(), Addr: &a}
			} else {
				e.safety(st, c.Not(c.Eq(v.T, c.Int(0))), "nil dereference: "+describe(x.X)+"."+under(t).(*types.Struct).Field(x.Field).Name(), x.Pos())
				st.env[x] = Val{Typ: x.Type(), Addr: &Addr{Kind: 'F', Base: v.T, Root: t, Path: []int{x.Field}, Typ: ft}}
			}
		case *ssa.IndexAddr:
			st.env[x] = e.indexAddr(x, e.val(st, x.X, fr), e.val(st, x.Index, fr), st)
		case *ssa.Index:
			v, i := e.val(st, x.X, fr), e.val(st, x.Index, fr)
			if a, ok := under(x.X.Type()).(*types.Array); ok {
				e.safety(st, c.And(c.Le(c.Int(0), i.T), c.Lt(i.T, c.Int(a.Len()))), "index out of range", x.Pos())
				if i.T.isInt() && i.T.I >= 0 && i.T.I < a.Len() {
					st.env[x] = v.Sub[i.T.I]
					break
				}
			} else {
				e.safety(st, c.And(c.Le(c.Int(0), i.T), c.Lt(i.T, e.strlen(v.T))), "string index out of range", x.Pos())
			}
			st.env[x] = e.fresh("index", x.Type(), st)
		case *ssa.Store:
			e.storePtr(e.val(st, x.Addr, fr), e.val(st, x.Val, fr), st, x.Pos(), describe(x.Addr))
		case *ssa.MakeClosure:
			cl := &Closure{Fn: x.Fn.(*ssa.Function)}
			for _, bnd := range x.Bindings {
				cl.Binds = append(cl.Binds, e.val(st, bnd, fr))
			}
			st.env[x] = Val{Typ: x.Type(), Clo: cl}
		case *ssa.MakeMap:
			u := under(x.Type()).(*types.Map)
			r := e.allocRef(st)
			e.mapInit(r, u, st)
			st.env[x] = Val{Typ: x.Type(), T: r}
		case *ssa.MakeSlice:
			n := e.val(st, x.Len, fr)
			e.safety(st, c.Le(c.Int(0), n.T), "make with negative length", x.Pos())
			el := under(x.Type()).(*types.Slice).Elem()
			r := e.newArr(el, st)
			st.env[x] = Val{Typ: x.Type(), T: c.MkS(r, c.Int(0), n.T)}
		case *ssa.Slice:
			st.env[x] = e.slice(fr, x, st)
		case *ssa.Lookup:
			st.env[x] = e.lookup(fr, x, st)
		case *ssa.MapUpdate:
			m := e.val(st, x.Map, fr)
			u := under(x.Map.Type()).(*types.Map)
			e.safety(st, c.Not(c.Eq(m.T, c.Int(0))), "assignment to entry in nil map", x.Pos())
			e.mapSet(m.T, u, e.keyOf(e.val(st, x.Key, fr), st), e.val(st, x.Value, fr), st)
		case *ssa.Range:
			if u, ok := under(x.X.Type()).(*types.Map); ok {
				e.nlocal++
				id := e.nlocal
				vis := c.ConstArr(ArrS(keySort(u.Key()), "Bool"), c.False())
				st.locals[id] = Val{T: vis}
				e.nlocal++
				st.locals[e.nlocal] = Val{T: c.Int(0)} // keys visited so far
				mv := e.val(st, x.X, fr)
				st.env[x] = Val{Typ: x.Type(), Iter: &iterState{m: mv, typ: u, visited: c.Int(int64(id)), len0: e.rd(st, "ML", "Int", mv.T)}}
			} else {
				st.env[x] = Val{Typ: x.Type(), Iter: &iterState{visited: c.Int(0)}}
			}
		case *ssa.Next:
			st.env[x] = e.next(fr, x, st)
		case *ssa.TypeAssert:
			st.env[x] = e.typeAssert(x, e.val(st, x.X, fr), st)
		case *ssa.Call:
			r := e.call(fr, x, &x.Call, st)
			r.Typ = x.Type()
			st.env[x] = r
		case *ssa.Defer:
			e.ndefer++
			d := deferred{guard: st.guard, call: &x.Call, id: e.ndefer}
			if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
				d.fn = e.val(st, x.Call.Value, fr)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(st, a, fr))
			}
			st.defers = append(st.defers, d)
		case *ssa.RunDefers:
			st = e.runDefers(fr, x, st)
			if st == nil {
				return nil
			}
		case *ssa.Panic:
			e.oblige(st, c.False(), "safety", "reachable panic", e.posStr(x.Pos()), e.w.safetyProps(e.fn)...)
			return nil
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				v := e.val(st, r, fr)
				vs = append(vs, v)
			}
			fr.returns = append(fr.returns, retState{st, vs, x.Pos()})
			return nil
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.If:
			g := e.val(st, x.Cond, fr).T
			t, f := st.clone(), st
			t.guard = c.And(st.guard, g)
			f = st.clone()
			f.guard = c.And(st.guard, c.Not(g))
			var out []edge
			if !t.guard.isFalse() {
				out = append(out, edge{b, b.Succs[0], t})
			}
			if !f.guard.isFalse() {
				out = append(out, edge{b, b.Succs[1], f})
			}
			return out
		default:
			e.unsup("instruction %T in %s", ins, fr.fn)
		}
	}
	return nil
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return describe(x.X)
	case *ssa.FieldAddr:
		return describe(x.X) + "." + under(deref(x.X.Type())).(*types.Struct).Field(x.Field).Name()
	case *ssa.Field:
		return describe(x.X) + "." + under(x.X.Type()).(*types.Struct).Field(x.Field).Name()
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Global:
		return x.Name()
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		if x.Call.IsInvoke() {
			return x.Call.Method.Name() + "()"
		}
	case *ssa.IndexAddr:
		return describe(x.X) + "[]"
	case *ssa.Extract:
		return describe(x.Tuple)
	case *ssa.Phi:
		return x.Comment
	}
	return shortT(v.Type())
}

// newObj allocates and zero-initialises an object.
func (e *Exec) newObj(t types.Type, st *State) *Term {
	if a, ok := under(t).(*types.Array); ok {
		return e.newArr(a.Elem(), st)
	}
	r := e.allocRef(st)
	e.storeObj(t, r, e.zero(t), st)
	for _, g := range e.w.ghostFields[shortT(t)] {
		so, _ := ghostSort(e.w, g.typ)
		e.wr(st, "F|"+shortT(t)+"|"+g.name, so, r, zeroTerm(e.ctx, so))
	}
	return r
}

func (e *Exec) newArr(el types.Type, st *State) *Term {
	r := e.allocRef(st)
	for _, l := range leaves(el) {
		n := ecomp(el, l.path)
		rs := ArrS("Int", l.sort)
		h := e.comp(st, n, ArrS("Int", rs))
		e.setComp(st, n, e.ctx.Store(h, r, e.ctx.ConstArr(rs, zeroTerm(e.ctx, l.sort))))
		e.mods = append(e.mods, modEvent{comp: n, ref: r})
	}
	return r
}

func (e *Exec) binop(x *ssa.BinOp, a, b Val, st *State) Val {
	c := e.ctx
	bv := func(t *Term) Val { return Val{Typ: x.Type(), T: t} }
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		_, na := x.X.(*ssa.Const)
		_, nb := x.Y.(*ssa.Const)
		isnil := func(v ssa.Value, ok bool) bool { return ok && v.(*ssa.Const).Value == nil }
		if isnil(x.X, na) && !isStructLike(x.X.Type()) {
			a, b = b, a
			r = e.isNil(a)
		} else if isnil(x.Y, nb) && !isStructLike(x.Y.Type()) {
			r = e.isNil(a)
		} else if isIface(x.X.Type()) != isIface(x.Y.Type()) {
			// mixed comparison does not occur in SSA
			e.unsup("mixed comparison")
		} else {
			fa, fb := e.flat(a, st), e.flat(b, st)
			var cs []*Term
			for i := range fa {
				cs = append(cs, c.Eq(fa[i], fb[i]))
			}
			r = c.And(cs...)
		}
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return bv(r)
	}
	ta, tb := a.T, b.T
	if ta.Sort == "Str" {
		switch x.Op {
		case token.ADD:
			return bv(e.strcat(ta, tb))
		}
		return bv(c.App("strcmp."+x.Op.String(), "Bool", ta, tb))
	}
	if ta.Sort == "Bool" {
		switch x.Op {
		case token.AND:
			return bv(c.And(ta, tb))
		case token.OR:
			return bv(c.Or(ta, tb))
		}
	}
	switch x.Op {
	case token.ADD:
		return bv(c.Add(ta, tb))
	case token.SUB:
		return bv(c.Sub(ta, tb))
	case token.MUL:
		return bv(c.Mul(ta, tb))
	case token.LSS:
		return bv(c.Lt(ta, tb))
	case token.LEQ:
		return bv(c.Le(ta, tb))
	case token.GTR:
		return bv(c.Lt(tb, ta))
	case token.GEQ:
		return bv(c.Le(tb, ta))
	}
	if ta.isInt() && tb.isInt() {
		switch x.Op {
		case token.AND:
			return bv(c.Int(ta.I & tb.I))
		case token.OR:
			return bv(c.Int(ta.I | tb.I))
		case token.SHL:
			return bv(c.Int(ta.I << uint(tb.I)))
		case token.SHR:
			return bv(c.Int(ta.I >> uint(tb.I)))
		}
	}
	if x.Op == token.QUO || x.Op == token.REM {
		e.safety(st, c.Not(c.Eq(tb, c.Int(0))), "division by zero", x.Pos())
		if tb.isInt() && tb.I > 0 {
			// Go truncates; for non-negative operands this is SMT div/mod
			r := c.Fresh("div", "Int")
			if x.Op == token.QUO {
				e.assume(st, c.Imp(c.Le(c.Int(0), ta), c.And(c.Le(c.Mul(r, tb), ta), c.Lt(ta, c.Add(c.Mul(r, tb), tb)))))
			} else {
				e.assume(st, c.Imp(c.Le(c.Int(0), ta), c.And(c.Le(c.Int(0), r), c.Lt(r, tb))))
			}
			return bv(r)
		}
	}
	if x.Op == token.AND && ta.isInt() {
		ta, tb = tb, ta
	}
	if x.Op == token.AND && tb.isInt() && tb.I > 0 && tb.I&(tb.I-1) == 0 {
		// a single bit of a non-negative number: a = (2q+b)*bit + r, the result is b*bit
		q, b, r := c.Fresh("q", "Int"), c.Fresh("b", "Int"), c.Fresh("r", "Int")
		e.assume(st, c.Imp(c.Le(c.Int(0), ta), c.And(c.Le(c.Int(0), q), c.Le(c.Int(0), b), c.Le(b, c.Int(1)), c.Le(c.Int(0), r), c.Lt(r, tb),
			c.Eq(ta, c.Add(c.Mul(c.Add(c.Mul(c.Int(2), q), b), tb), r)))))
		return bv(c.Mul(b, tb))
	}
	return bv(c.App("bin."+opName(x.Op), "Int", ta, tb))
}

func opName(o token.Token) string {
	switch o {
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.XOR:
		return "xor"
	}
	return fmt.Sprintf("op%d", int(o))
}

func (e *Exec) isNil(v Val) *Term {
	c := e.ctx
	if v.Addr != nil || (v.Clo != nil && v.T == nil) {
		return c.False()
	}
	switch v.T.Sort {
	case "Iface":
		return c.Eq(c.ITag(v.T), c.Int(0))
	case "Slice":
		return c.Eq(c.SArr(v.T), c.Int(0))
	}
	return c.Eq(v.T, c.Int(0))
}

func (e *Exec) strlen(t *Term) *Term {
	if s, ok := e.ctx.litVal(t); ok {
		return e.ctx.Int(int64(len(s)))
	}
	r := e.ctx.App("strlen", "Int", t)
	if !r.bv && !e.ctx.boxed[r] {
		e.ctx.boxed[r] = true
		e.ctx.facts = append(e.ctx.facts, e.ctx.Le(e.ctx.Int(0), r))
		e.ctx.facts = append(e.ctx.facts, e.ctx.Eq(e.ctx.Eq(r, e.ctx.Int(0)), e.ctx.Eq(t, e.ctx.StrLit(""))))
	}
	return r
}
func (e *Exec) strcat(a, b *Term) *Term {
	x, ok1 := e.ctx.litVal(a)
	y, ok2 := e.ctx.litVal(b)
	if ok1 && ok2 {
		return e.ctx.StrLit(x + y)
	}
	return e.ctx.App("strcat", "Str", a, b)
}
func (e *Exec) strUpper(a *Term) *Term {
	if s, ok := e.ctx.litVal(a); ok {
		return e.ctx.StrLit(strings.ToUpper(s))
	}
	return e.ctx.App("upper", "Str", a)
}
func (e *Exec) strLower(a *Term) *Term {
	if s, ok := e.ctx.litVal(a); ok {
		return e.ctx.StrLit(strings.ToLower(s))
	}
	return e.ctx.App("lower", "Str", a)
}
func (e *Exec) str1(a *Term) *Term {
	if a.isInt() {
		return e.ctx.StrLit(string(rune(a.I)))
	}
	return e.ctx.App("str1", "Str", a)
}
func (e *Exec) str2(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return e.ctx.StrLit(string(rune(a.I)) + string(rune(b.I)))
	}
	return e.ctx.App("str2", "Str", a, b)
}

// runesToStr: the string made of the runes of a slice.
func (e *Exec) runesToStr(s *Term, st *State) *Term {
	c := e.ctx
	rn := types.Typ[types.Int32]
	n := c.SLen(s)
	at := func(i int64) *Term {
		return e.loadElem(rn, c.SArr(s), c.Ix(c.SOff(s), c.Int(i)), st).T
	}
	if n.isInt() {
		switch n.I {
		case 0:
			return c.StrLit("")
		case 1:
			return e.str1(at(0))
		case 2:
			return e.str2(at(0), at(1))
		}
		lit := ""
		for i := int64(0); i < n.I && i < 64; i++ {
			if t := at(i); t.isInt() {
				lit += string(rune(t.I))
			} else {
				lit = ""
				break
			}
		}
		if lit != "" {
			return c.StrLit(lit)
		}
	}
	row := c.Select(e.comp(st, ecomp(rn, ""), ArrS("Int", ArrS("Int", "Int"))), c.SArr(s))
	r := c.App("strOf", "Str", row, c.SOff(s), n)
	if !r.bv && !c.boxed[r] {
		c.boxed[r] = true
		c.facts = append(c.facts, c.Imp(c.Le(c.Int(0), n), c.Le(n, c.App("strlen", "Int", r))))
		c.facts = append(c.facts, c.Imp(c.Eq(n, c.Int(1)), c.Eq(r, c.App("str1", "Str", at(0)))))
		c.facts = append(c.facts, c.Imp(c.Eq(n, c.Int(2)), c.Eq(r, c.App("str2", "Str", at(0), at(1)))))
		c.facts = append(c.facts, c.Imp(c.Eq(n, c.Int(0)), c.Eq(r, c.StrLit(""))))
	}
	return r
}

func (e *Exec) convert(x *ssa.Convert, v Val, st *State) Val {
	c := e.ctx
	from, to := under(x.X.Type()), under(x.Type())
	if fb, ok := from.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
		if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			v.Typ = x.Type()
			return v
		}
		r := e.newArr(under(x.Type()).(*types.Slice).Elem(), st)
		n := c.Fresh("convlen", "Int")
		e.assume(st, c.Le(c.Int(0), n))
		// unknown contents
		el := under(x.Type()).(*types.Slice).Elem()
		nm := ecomp(el, "")
		h := e.comp(st, nm, ArrS("Int", ArrS("Int", "Int")))
		e.setComp(st, nm, c.Store(h, r, c.Fresh("conv", ArrS("Int", "Int"))))
		return Val{Typ: x.Type(), T: c.MkS(r, c.Int(0), n)}
	}
	if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		if sl, ok := from.(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Int32 {
				return Val{Typ: x.Type(), T: e.runesToStr(v.T, st)}
			}
			return e.fresh("bytes2str", x.Type(), st)
		}
		if fb, ok := from.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
			return Val{Typ: x.Type(), T: e.str1(v.T)}
		}
	}
	v.Typ = x.Type()
	return v
}

func (e *Exec) indexAddr(x *ssa.IndexAddr, v, i Val, st *State) Val {
	c := e.ctx
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		e.safety(st, c.And(c.Le(c.Int(0), i.T), c.Lt(i.T, c.SLen(v.T))), "index out of range: "+describe(x.X), x.Pos())
		return Val{Typ: x.Type(), Addr: &Addr{Kind: 'E', Base: c.SArr(v.T), Idx: c.Ix(c.SOff(v.T), i.T), Root: u.Elem(), Typ: u.Elem()}}
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		e.safety(st, c.And(c.Le(c.Int(0), i.T), c.Lt(i.T, c.Int(a.Len()))), "index out of range: "+describe(x.X), x.Pos())
		if v.Addr != nil {
			if i.T.isInt() {
				n := *v.Addr
				n.Path = append(append([]int{}, n.Path...), int(i.T.I))
				n.Typ = a.Elem()
				return Val{Typ: x.Type(), Addr: &n}
			}
			e.unsup("variable index into embedded array")
		}
		return Val{Typ: x.Type(), Addr: &Addr{Kind: 'E', Base: v.T, Idx: i.T, Root: a.Elem(), Typ: a.Elem()}}
	}
	e.unsup("IndexAddr on %s", x.X.Type())
	return Val{}
}

func (e *Exec) slice(fr *Frame, x *ssa.Slice, st *State) Val {
	c := e.ctx
	v := e.val(st, x.X, fr)
	var lo, hi *Term
	lo = c.Int(0)
	if x.Low != nil {
		lo = e.val(st, x.Low, fr).T
	}
	if x.High != nil {
		hi = e.val(st, x.High, fr).T
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Pointer:
		n := under(u.Elem()).(*types.Array).Len()
		if hi == nil {
			hi = c.Int(n)
		}
		e.safety(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Int(n))), "slice bounds out of range", x.Pos())
		return Val{Typ: x.Type(), T: c.MkS(e.scalar(v, st), lo, c.Sub(hi, lo))}
	case *types.Slice:
		if hi == nil {
			hi = c.SLen(v.T)
		}
		// stricter than Go: bounded by len rather than cap
		e.safety(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.SLen(v.T))), "slice bounds out of range: "+describe(x.X), x.Pos())
		return Val{Typ: x.Type(), T: c.MkS(c.SArr(v.T), c.Add(c.SOff(v.T), lo), c.Sub(hi, lo))}
	case *types.Basic:
		if hi == nil {
			hi = e.strlen(v.T)
		}
		e.safety(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, e.strlen(v.T))), "string slice bounds out of range", x.Pos())
		return Val{Typ: x.Type(), T: c.App("substr", "Str", v.T, lo, hi)}
	}
	e.unsup("slice of %s", x.X.Type())
	return Val{}
}

// ---------- maps ----------

func keySort(t types.Type) string {
	if isStructLike(t) {
		if len(leaves(t)) == 2 {
			return "P2"
		}
		panic(unsupported{"map key type " + t.String()})
	}
	return sortOf(t)
}

func (e *Exec) keyOf(v Val, st *State) *Term {
	if v.Typ != nil && isStructLike(v.Typ) {
		f := e.flat(v, st)
		return e.ctx.ctor("mkP2", "P2", f[0], f[1])
	}
	return e.scalar(v, st)
}

func (e *Exec) keyBack(t *Term, kt types.Type) Val {
	if isStructLike(kt) {
		ts := []*Term{e.ctx.proj("p20", "mkP2", 0, "Int", t), e.ctx.proj("p21", "mkP2", 1, "Int", t)}
		v, _ := e.unflat(kt, ts)
		return v
	}
	return Val{Typ: kt, T: t}
}

func mname(u *types.Map) string { return shortT(u.Key()) + "," + shortT(u.Elem()) }

func (e *Exec) mdSort(u *types.Map) string { return ArrS("Int", ArrS(keySort(u.Key()), "Bool")) }

func (e *Exec) mapHas(m *Term, u *types.Map, k *Term, st *State) *Term {
	row := e.ctx.Select(e.comp(st, "MD|"+mname(u), e.mdSort(u)), m)
	return e.ctx.And(e.ctx.Not(e.ctx.Eq(m, e.ctx.Int(0))), e.ctx.Select(row, k))
}

func (e *Exec) mapGetRaw(m *Term, u *types.Map, k *Term, st *State) Val {
	var ts []*Term
	has := e.mapHas(m, u, k, st)
	for _, l := range leaves(u.Elem()) {
		n := "MV|" + mname(u) + "|" + l.path
		row := e.ctx.Select(e.comp(st, n, ArrS("Int", ArrS(keySort(u.Key()), l.sort))), m)
		ts = append(ts, e.ctx.Ite(has, e.ctx.Select(row, k), zeroTerm(e.ctx, l.sort)))
	}
	v, _ := e.unflat(u.Elem(), ts)
	return v
}

func (e *Exec) mapSet(m *Term, u *types.Map, k *Term, v Val, st *State) {
	c := e.ctx
	n := "MD|" + mname(u)
	had := e.mapHas(m, u, k, st)
	h := e.comp(st, n, e.mdSort(u))
	e.setComp(st, n, c.Store(h, m, c.Store(c.Select(h, m), k, c.True())))
	e.logMod(st, n, m)
	ts := e.flat(v, st)
	for i, l := range leaves(u.Elem()) {
		n := "MV|" + mname(u) + "|" + l.path
		h := e.comp(st, n, ArrS("Int", ArrS(keySort(u.Key()), l.sort)))
		e.setComp(st, n, c.Store(h, m, c.Store(c.Select(h, m), k, ts[i])))
		e.logMod(st, n, m)
	}
	ln := e.rd(st, "ML", "Int", m)
	e.wr(st, "ML", "Int", m, c.Ite(had, ln, c.Add(ln, c.Int(1))))
}

func (e *Exec) mapInit(m *Term, u *types.Map, st *State) {
	c := e.ctx
	n := "MD|" + mname(u)
	h := e.comp(st, n, e.mdSort(u))
	e.setComp(st, n, c.Store(h, m, c.ConstArr(ArrS(keySort(u.Key()), "Bool"), c.False())))
	e.mods = append(e.mods, modEvent{comp: n, ref: m})
	e.wr(st, "ML", "Int", m, c.Int(0))
}

func (e *Exec) mapDelete(m *Term, u *types.Map, k *Term, st *State) {
	c := e.ctx
	n := "MD|" + mname(u)
	had := e.mapHas(m, u, k, st)
	h := e.comp(st, n, e.mdSort(u))
	e.setComp(st, n, c.Store(h, m, c.Store(c.Select(h, m), k, c.False())))
	e.logMod(st, n, m)
	ln := e.rd(st, "ML", "Int", m)
	e.wr(st, "ML", "Int", m, c.Ite(had, c.Sub(ln, c.Int(1)), ln))
}

func (e *Exec) lookup(fr *Frame, x *ssa.Lookup, st *State) Val {
	c := e.ctx
	m := e.val(st, x.X, fr)
	u, ok := under(x.X.Type()).(*types.Map)
	if !ok {
		i := e.val(st, x.Index, fr)
		e.safety(st, c.And(c.Le(c.Int(0), i.T), c.Lt(i.T, e.strlen(m.T))), "string index out of range", x.Pos())
		return e.fresh("strbyte", x.Type(), st)
	}
	k := e.keyOf(e.val(st, x.Index, fr), st)
	v := e.mapGetRaw(m.T, u, k, st)
	e.loadFacts(v, st)
	if x.CommaOk {
		return Val{Typ: x.Type(), Sub: []Val{v, {Typ: types.Typ[types.Bool], T: e.mapHas(m.T, u, k, st)}}}
	}
	return v
}

func (e *Exec) next(fr *Frame, x *ssa.Next, st *State) Val {
	c := e.ctx
	it := e.val(st, x.Iter, fr).Iter
	tt := x.Type().(*types.Tuple)
	ok := c.Fresh("more", "Bool")
	okv := Val{Typ: types.Typ[types.Bool], T: ok}
	if x.IsString || it.typ == nil {
		return Val{Typ: tt, Sub: []Val{okv, e.fresh("ri", tt.At(1).Type(), st), e.fresh("rr", tt.At(2).Type(), st)}}
	}
	id := int(it.visited.I)
	vis := st.locals[id].T
	k := c.Fresh("key", keySort(it.typ.Key()))
	kv := e.keyBack(k, it.typ.Key())
	has := e.mapHas(it.m.T, it.typ, k, st)
	e.assume(st, c.Imp(ok, c.And(has, c.Not(c.Select(vis, k)))))
	b := c.BV("k", k.Sort)
	e.assume(st, c.Imp(c.Not(ok), c.Forall([]*Term{b}, [][]*Term{{c.Select(vis, b)}, {e.mapSel(it.m.T, it.typ, b, st)}}, c.Imp(e.mapHas(it.m.T, it.typ, b, st), c.Select(vis, b)))))
	e.typeFacts(kv, st)
	v := e.mapGetRaw(it.m.T, it.typ, k, st)
	e.loadFacts(v, st)
	st.locals[id] = Val{T: c.Ite(ok, c.Store(vis, k, c.True()), vis)}
	e.modLocals[id] = true
	n := st.locals[id+1].T
	if e.rd(st, "ML", "Int", it.m.T) == it.len0 {
		e.assume(st, c.Imp(ok, c.Lt(n, it.len0)))
	}
	st.locals[id+1] = Val{T: c.Ite(ok, c.Add(n, c.Int(1)), n)}
	e.modLocals[id+1] = true
	return Val{Typ: tt, Sub: []Val{okv, kv, v}}
}

func (e *Exec) mapSel(m *Term, u *types.Map, k *Term, st *State) *Term {
	return e.ctx.mk("select", "", 0, "Bool", e.ctx.Select(e.comp(st, "MD|"+mname(u), e.mdSort(u)), m), k)
}

func (e *Exec) typeAssert(x *ssa.TypeAssert, v Val, st *State) Val {
	c := e.ctx
	tag := c.ITag(v.T)
	var ok *Term
	var r Val
	if isIface(x.AssertedType) {
		ok = e.implPred(tag, x.AssertedType)
		r = Val{Typ: x.AssertedType, T: v.T}
	} else {
		ok = c.Eq(tag, e.tagOf(x.AssertedType))
		r = e.unbox(c.IVal(v.T), x.AssertedType, guarded(st, c, ok))
		r.Typ = x.AssertedType
	}
	if x.CommaOk {
		z := e.zero(x.AssertedType)
		return Val{Typ: x.Type(), Sub: []Val{e.mergeVal(ok, r, z), {Typ: types.Typ[types.Bool], T: ok}}}
	}
	e.safety(st, ok, "failed type assertion to "+shortT(x.AssertedType), x.Pos())
	return r
}

func guarded(st *State, c *Ctx, g *Term) *State {
	n := *st
	n.guard = c.And(st.guard, g)
	return &n
}
