package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog      *ssa.Program
	pkgs      []*ssa.Package
	repo      string
	contracts map[string]*Contract
	ghostFns  map[string]*GhostFn

	ghostFields    map[string][]bvar
	defs           map[string]*Def
	axioms         []Axiom
	immut          []string
	sealed         []sealedRule
	fieldFns       map[string]*FieldFn
	ghostVars      map[string]string
	globalInvs     map[string][]*GlobalInv
	globalLoopInv  []LoopInv
	globalMeasures []*Ex
	groups         map[string]*Contract
	typeCache      map[string]types.Type
	tmu            sync.Mutex
	mu             sync.Mutex
	tags           map[string]int64
	tagTypes       map[int64]types.Type
	concrete       []types.Type
	localAlloc     map[*ssa.Alloc]bool
	loopCache      map[*ssa.Function]*loopInfo
	funcs          map[string]*ssa.Function
	safetyP        map[string][]string
	termP          map[string][]string
	verbose        bool
	verboseInv     bool
	constFns       map[*ssa.Global]*ssa.Function
	showPiece      bool
	dumpDir        string
	noFallback     bool
	fallbackSecs   int
	timeoutMs      int
	fnBudget       time.Duration
	constSlices    map[string][]*ssa.Function
	constSliceRef  map[string]string // element comp -> global
	loadErr        []string
	certify        bool
}

func newWorld(repo string) *World {
	return &World{repo: repo, contracts: map[string]*Contract{}, ghostFns: map[string]*GhostFn{}, ghostFields: map[string][]bvar{}, defs: map[string]*Def{},
		globalInvs: map[string][]*GlobalInv{}, groups: map[string]*Contract{}, typeCache: map[string]types.Type{}, tags: map[string]int64{}, tagTypes: map[int64]types.Type{},
		localAlloc: map[*ssa.Alloc]bool{}, loopCache: map[*ssa.Function]*loopInfo{}, funcs: map[string]*ssa.Function{}, safetyP: map[string][]string{}, termP: map[string][]string{},
		constSlices: map[string][]*ssa.Function{}, fieldFns: map[string]*FieldFn{}, ghostVars: map[string]string{}, fallbackSecs: 20, timeoutMs: 4000, fnBudget: 240 * time.Second}
}

func (w *World) load() error {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: w.repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on")}
	pkgs, err := packages.Load(cfg, "./runes", "./token", "./ext", "./log", "./ast/...", "./parser", "./parser/pcontext")
	if err != nil {
		return err
	}
	var keep []*packages.Package
	for _, p := range pkgs {
		if strings.HasSuffix(p.Name, "test") {
			continue
		}
		for _, er := range p.Errors {
			return fmt.Errorf("%s: %v", p.PkgPath, er)
		}
		keep = append(keep, p)
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].PkgPath < keep[j].PkgPath })
	prog, sp := ssautil.Packages(keep, ssa.GlobalDebug)
	prog.Build()
	w.prog = prog
	for _, p := range sp {
		if p != nil {
			w.pkgs = append(w.pkgs, p)
		}
	}
	for _, p := range w.pkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				w.addFn(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok || m.Object().(*types.TypeName).IsAlias() {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					if f := prog.FuncValue(nt.Method(i)); f != nil {
						w.addFn(f)
					}
				}
				if su, ok := nt.Underlying().(*types.Struct); ok {
					if c, ok := canonStruct.Load(su); !ok || len(c.(string)) > len(shortT(nt)) {
						canonStruct.Store(su, shortT(nt))
					}
				}
				if _, ok := nt.Underlying().(*types.Interface); !ok {
					w.concrete = append(w.concrete, nt, types.NewPointer(nt))
				}
			}
		}
	}
	for _, t := range w.concrete {
		w.tagOf(t)
	}
	return nil
}

func (w *World) addFn(f *ssa.Function) {
	w.funcs[w.keyOf(f)] = f
	for _, a := range f.AnonFuncs {
		w.addFn(a)
	}
}

func (w *World) keyOf(f *ssa.Function) string {
	if f.Synthetic != "" && f.Name() != "init" && f.Object() == nil {
		return "synthetic " + f.String()
	}
	if strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "promotion") {
		return "synthetic " + f.String()
	}
	if p := f.Parent(); p != nil {
		return w.keyOf(p) + strings.TrimPrefix(f.Name(), p.Name())
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
				return n.Obj().Pkg().Name() + ".(*" + n.Obj().Name() + ")." + f.Name()
			}
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func (w *World) pkgOf(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (w *World) globalByName(s string) *ssa.Global {
	i := strings.IndexByte(s, '.')
	for _, p := range w.pkgs {
		if p.Pkg.Name() == s[:i] {
			if g, ok := p.Members[s[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func (w *World) constByName(e *Exec, pkg, name string) (Val, bool) {
	for _, p := range w.pkgs {
		if p.Pkg.Name() == pkg {
			if c, ok := p.Members[name].(*ssa.NamedConst); ok {
				return constVal(e, c.Value), true
			}
		}
	}
	return Val{}, false
}

func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name()
	}
	return ""
}

func (w *World) safetyProps(f *ssa.Function) []string { return w.safetyP[fnPkg(f)] }
func (w *World) termProps(f *ssa.Function) []string   { return w.termP[fnPkg(f)] }

// FnResult is what verifying one function produced.
type FnResult struct {
	Key     string
	Obs     []ObRes
	Notes   []string
	Trusted []string
	Used    []string
	Inlined []string
	Edges   []recEdge
	Invs    []string
	Ms      int64
	Err     string
	Vacuous bool
}

func (w *World) newExec(fn *ssa.Function, key string, ct *Contract) *Exec {
	e := &Exec{w: w, ctx: NewCtx(), fn: fn, key: key, root: ct, init0: map[string]*Term{}, compSort: map[string]string{}, modLocals: map[int]bool{},
		obCount: map[string]int{}, implDone: map[string]bool{}, cloOf: map[*Term]*Closure{}, compName: map[*Term]string{}, notes: map[string]bool{}, factDone: map[string]bool{}, dropped: map[string]bool{}, softFresh: map[*Term]*Term{},
		gfDone: map[string]bool{}, localTyp: map[int]types.Type{}, localName: map[int]string{}, trustUsed: map[string]bool{}, contrUsed: map[string]bool{}, inlined: map[string]bool{}, ownAlloc: map[*Term]bool{}}
	e.deadline = time.Now().Add(w.fnBudget)
	return e
}

func (e *Exec) finish(r *FnResult, t0 time.Time) {
	r.Obs = e.obs
	for n := range e.notes {
		r.Notes = append(r.Notes, n)
	}
	for n := range e.trustUsed {
		r.Trusted = append(r.Trusted, n)
	}
	for n := range e.contrUsed {
		r.Used = append(r.Used, n)
	}
	for n := range e.inlined {
		r.Inlined = append(r.Inlined, n)
	}
	sort.Strings(r.Notes)
	sort.Strings(r.Trusted)
	sort.Strings(r.Used)
	sort.Strings(r.Inlined)
	r.Edges = e.edges
	r.Invs = e.invUsed
	r.Ms = time.Since(t0).Milliseconds()
}

func (e *Exec) axiomsFor(theories []string) {
	on := map[string]bool{"": true, "base": true}
	for _, t := range theories {
		on[t] = true
	}
	st := &State{guard: e.ctx.True(), comps: map[string]*Term{}, alloc: e.alloc0, locals: map[int]Val{}, env: map[ssa.Value]Val{}}
	env := &SEnv{e: e, vars: map[string]Val{}, st: st}
	for _, a := range e.w.axioms {
		if on[a.theory] {
			acc := map[string]bool{}
			e.w.heapReads(a.ex, acc)
			if len(acc) > 0 {
				hs := st.clone()
				henv := &SEnv{e: e, vars: map[string]Val{}, st: hs}
				for _, rd := range sortedKeys(acc) {
					n, so := e.w.readComp(e, rd)
					e.initComp(n, so)
					b := e.ctx.BV("H."+n, so)
					hs.comps[n] = b
					henv.heapBVs = append(henv.heapBVs, b)
				}
				e.sess.Assert(henv.bool(a.ex))
				continue
			}
			e.sess.Assert(env.bool(a.ex))
		}
	}
}

func catch(r *FnResult, f func()) {
	defer func() {
		if x := recover(); x != nil {
			switch v := x.(type) {
			case unsupported:
				r.Err = "outside the verifier's subset: " + v.msg
			case specErr:
				r.Err = "contract does not fit the code: " + v.msg
			default:
				if os.Getenv("GVC_PANIC") != "" {
					panic(x)
				}
				r.Err = fmt.Sprintf("internal error: %v", x)
			}
		}
	}()
	f()
}

// verify checks one function against its contract. When impl is non-nil the contract is an interface
// contract and impl the concrete receiver type.
func (w *World) verify(key string, ct *Contract, fn *ssa.Function, impl types.Type) *FnResult {
	var pre map[string]string
	for {
		r, e := w.verify1(key, ct, fn, impl, pre)
		if !e.late || len(e.compSort) == len(pre) {
			return r
		}
		// a part of the heap was first mentioned after a call that may change everything: start again with it in view
		pre = e.compSort
	}
}

func (w *World) verify1(key string, ct *Contract, fn *ssa.Function, impl types.Type, pre map[string]string) (*FnResult, *Exec) {
	t0 := time.Now()
	r := &FnResult{Key: key}
	e := w.newExec(fn, key, ct)
	e.sess = NewSession(e.ctx, key, w.timeoutMs)
	defer e.sess.Close()
	catch(r, func() {
		c := e.ctx
		e.alloc0 = c.NewAlloc()
		e.rawAssume(c.Lt(c.Int(100000), e.alloc0))
		e.axiomsFor(ct.theories)
		st := &State{guard: c.True(), comps: map[string]*Term{}, alloc: e.alloc0, locals: map[int]Val{}, env: map[ssa.Value]Val{}}
		for _, k := range sortedKeys(pre) {
			e.comp(st, k, pre[k])
		}
		e.entry = st.clone()
		e.curState = st
		fr := &Frame{fn: fn, contract: ct, vars: map[string]Val{}}
		e.frames = []*Frame{fr}
		var args []Val
		for i, p := range fn.Params {
			v := e.fresh("p."+p.Name(), p.Type(), st)
			if i < len(ct.params) {
				if cc, ok := ct.closures[ct.params[i]]; ok {
					cl := &Closure{Spec: &cloSpec{contract: cc}}
					e.cloOf[v.T] = cl
					e.assume(st, c.Lt(c.Int(0), v.T))
				}
			}
			st.env[p] = v
			args = append(args, v)
		}
		// captured variables of a function literal verified on its own
		for _, fv := range fn.FreeVars {
			fr.binds = append(fr.binds, e.fresh("fv."+fv.Name(), fv.Type(), st))
		}
		bargs := append([]Val{}, args...)
		if impl != nil {
			bargs[0] = Val{Typ: types.NewInterfaceType(nil, nil), T: c.MkI(e.tagOf(impl), e.box(args[0], impl, st))}
		}
		vars := e.bindParams(ct, fn.Signature, bargs, nil)
		for _, cl := range e.cloOf {
			if cl.Spec != nil {
				cl.Spec.env = vars
			}
		}
		fr.vars = vars
		e.rootVars = vars
		env := &SEnv{e: e, vars: vars, st: e.entry, old: e.entry}
		for _, q := range ct.requires {
			e.assumeEx(st, env, q.ex)
		}
		for _, q := range ct.facts {
			e.note("assumed in " + key + ": " + q.text)
			e.assumeEx(st, env, q.ex)
		}
		if ct.recmeas != nil {
			e.recEntry = env.term(ct.recmeas)
		}
		for _, m := range ct.modifies {
			if m.all != "" {
				for _, k := range e.matchComps(m.all) {
					al := allowedLoc{comp: k}
					if m.cond != nil {
						m := m
						al.cond = func(r *Term) *Term {
							return env.with(map[string]Val{"r": {Typ: types.Typ[types.Int], T: r}}).bool(m.cond)
						}
					}
					e.allowed = append(e.allowed, al)
				}
				continue
			}
			for _, l := range e.locOf(env, m.ex) {
				if m.when != nil {
					wh := env.bool(m.when)
					l := l
					ref := l.ref
					e.allowed = append(e.allowed, allowedLoc{comp: l.comp, cond: func(r *Term) *Term { return c.And(wh, c.Eq(r, ref)) }})
					continue
				}
				e.allowed = append(e.allowed, l)
			}
		}
		// share the entry components
		for k, v := range e.entry.comps {
			st.comps[k] = v
		}
		// vacuity: the precondition must be satisfiable as far as the solver can tell
		if e.sess.checkWith(nil) == "unsat" {
			r.Vacuous = true
			e.obs = append(e.obs, ObRes{Name: key + "/vacuity: precondition contradictory", Kind: "vacuity", OK: false})
			return
		}
		if own := w.contracts[w.keyOf(fn)]; impl != nil && own != nil && !own.inline {
			// the method has a contract of its own: the interface contract must follow from it
			res := e.callFn(fn, nil, args, st, fn.Pos())
			vals := res.Sub
			if fn.Signature.Results().Len() == 1 {
				vals = []Val{res}
			}
			fr.returns = append(fr.returns, retState{st: st, vals: vals})
		} else {
			e.runFunc(fr, st)
		}
		live := 0
		for _, rt := range fr.returns {
			if rt.st.guard.isFalse() {
				continue
			}
			live++
			e.checkExit(ct, fn, vars, rt)
		}
		if live == 0 && !ct.panics {
			e.note("no return is reachable syntactically")
		}
		// smoke: at least one exit is reachable as far as the solver can tell
		reach := 0
		for _, rt := range fr.returns {
			if rt.st.guard.isFalse() {
				continue
			}
			if e.sess.checkWith([]*Term{rt.st.guard}) != "unsat" {
				reach++
				break
			}
		}
		if reach == 0 {
			allok := true
			for _, o := range e.obs {
				if !o.OK {
					allok = false
				}
			}
			if allok {
				e.obs = append(e.obs, ObRes{Name: key + "/vacuity: no reachable exit", Kind: "vacuity", OK: false})
			}
		}
	})
	e.finish(r, t0)
	if r.Err != "" {
		r.Obs = append(r.Obs, ObRes{Name: key + "/engine: " + r.Err, Kind: "engine", OK: false})
	}
	return r, e
}

func (e *Exec) checkExit(ct *Contract, fn *ssa.Function, vars map[string]Val, rt retState) {
	c := e.ctx
	v := map[string]Val{}
	for k, x := range vars {
		v[k] = x
	}
	for i, n := range ct.results {
		if i < len(rt.vals) {
			x := rt.vals[i]
			x.Typ = fn.Signature.Results().At(i).Type()
			if x.T == nil && x.Clo == nil && x.Addr != nil {
				x = Val{Typ: x.Typ, T: e.scalar(x, rt.st)}
			}
			v[n] = x
		}
	}
	st := rt.st
	env := &SEnv{e: e, vars: v, st: st, old: e.entry}
	for _, g := range ct.ghost {
		e.ghostAssign(env, g, st)
	}
	for _, d := range ct.defines {
		t := e.scalar(v[d.name], st)
		none := c.False()
		if t.Sort == "Int" {
			none = c.Eq(t, c.Int(0))
		}
		if t.Sort == "Iface" {
			none = c.Eq(c.ITag(t), c.Int(0))
			t = c.IVal(t)
		}
		if len(ct.results) == 1 {
			none = c.False()
		} else if t.isInt() && t.I == 0 {
			continue // nothing is returned on this path
		}
		e.oblige(st, c.Or(none, c.Le(e.entry.alloc, t)), "post", "the object defined by "+d.name+" is new", e.posStr(rt.pos))
		if e.owns(t) {
			e.assumeEx(st, env, d.cl.ex)
			continue
		}
		// the object comes from a callee, which may have defined it already: prove the definition
		e.oblige(st, env.bool(d.cl.ex), "post", "definition of "+d.name, e.posStr(rt.pos), d.cl.props...)
	}
	e.checkFieldFns(st, v)
	for i, en := range ct.ensures {
		parts := splitConj(en.ex)
		for j, p := range parts {
			name := clauseName(en, i)
			if len(parts) > 1 {
				name = fmt.Sprintf("%s (part %d)", name, j+1)
			}
			e.oblige(st, env.bool(p), "post", name, e.posStr(rt.pos), en.props...)
		}
	}
	// returned function values with a contract
	for i, n := range ct.results {
		cc, ok := ct.closures[n]
		if !ok || i >= len(rt.vals) {
			continue
		}
		e.checkClosure(cc, rt.vals[i], v, st)
	}
}

// checkFieldFns checks the function values stored in fields with a contract against it.
func (e *Exec) checkFieldFns(st *State, vars map[string]Val) {
	for _, fs := range st.fnStores {
		v := map[string]Val{}
		if fs.ff.self != "" {
			v[fs.ff.self] = Val{Typ: types.NewPointer(e.w.typeByName(fs.ff.typ)), T: fs.ref}
		}
		s := st.clone()
		s.guard = e.ctx.And(st.guard, fs.guard)
		e.checkClosure(fs.ff.ct, fs.val, v, s)
	}
}

type fnStore struct {
	ff    *FieldFn
	ref   *Term
	val   Val
	guard *Term
}

func splitConj(x *Ex) []*Ex {
	if x.op == "bin" && x.s == "&&" {
		return append(splitConj(x.kids[0]), splitConj(x.kids[1])...)
	}
	return []*Ex{x}
}

// owns: every value of the term is an object this function allocated itself.
func (e *Exec) owns(t *Term) bool {
	if e.ownAlloc[t] {
		return true
	}
	return t.Op == "ite" && e.owns(t.Args[1]) && e.owns(t.Args[2])
}

func (e *Exec) ghostAssign(env *SEnv, g GhostAssign, st *State) {
	c := e.ctx
	val := env.term(g.value)
	locs := e.locOf(env, g.target)
	for _, l := range locs {
		h := e.comp(st, l.comp, l.sort)
		nv := val
		wst := st
		if g.cond != nil {
			cond := env.bool(g.cond)
			if cond.isFalse() {
				continue
			}
			nv = c.Ite(cond, val, c.Select(h, l.ref))
			wst = guarded(st, c, cond)
		}
		e.setComp(st, l.comp, c.Store(h, l.ref, nv))
		e.logMod(wst, l.comp, l.ref)
	}
}

// checkClosure verifies a returned function value against its contract, in an arbitrary later state.
func (e *Exec) checkClosure(cc *Contract, v Val, vars map[string]Val, st *State) {
	c := e.ctx
	if v.Clo == nil && v.T != nil {
		if cl, ok := e.cloOf[v.T]; ok {
			v.Clo = cl
		}
	}
	if v.Clo == nil || v.Clo.Fn == nil {
		if v.T != nil && v.T.Op == "ite" {
			a, b := st.clone(), st.clone()
			a.guard = c.And(st.guard, v.T.Args[0])
			b.guard = c.And(st.guard, c.Not(v.T.Args[0]))
			e.checkClosure(cc, Val{Typ: v.Typ, T: v.T.Args[1]}, vars, a)
			e.checkClosure(cc, Val{Typ: v.Typ, T: v.T.Args[2]}, vars, b)
			return
		}
		if v.Clo != nil && v.Clo.Spec != nil && v.Clo.Spec.contract == cc {
			return
		}
		e.oblige(st, c.False(), "engine", "returned function value not resolved", "")
		return
	}
	s := st.clone()
	names := sortedKeys(e.compSort)
	for _, k := range names {
		if strings.HasPrefix(k, "V|") || e.w.immutComp(k) {
			continue
		}
		e.setComp(s, k, c.Fresh("later."+k, e.compSort[k]))
	}
	na := c.NewAlloc(st.alloc)
	e.rawAssume(c.Le(st.alloc, na))
	s.alloc = na
	s.defers = nil
	cv := map[string]Val{}
	for k, x := range vars {
		cv[k] = x
	}
	fn := v.Clo.Fn
	var args []Val
	for i, p := range fn.Params {
		a := e.fresh("c."+p.Name(), p.Type(), s)
		args = append(args, a)
		if i < len(cc.params) {
			cv[cc.params[i]] = a
		}
	}
	pre := s.clone()
	savedOuter := e.outerSt
	e.outerSt = e.entry
	defer func() { e.outerSt = savedOuter }()
	env := &SEnv{e: e, vars: cv, st: pre, old: pre}
	for _, q := range cc.requires {
		e.assumeEx(s, env, q.ex)
	}
	savedAllowed, savedAlloc0, savedRoot := e.allowed, e.alloc0, e.root
	e.allowed = nil
	for _, m := range cc.modifies {
		if m.ex != nil && m.when != nil {
			wh := env.bool(m.when)
			for _, l := range e.locOf(env, m.ex) {
				ref := l.ref
				e.allowed = append(e.allowed, allowedLoc{comp: l.comp, cond: func(r *Term) *Term { return c.And(wh, c.Eq(r, ref)) }})
			}
		} else if m.ex != nil {
			e.allowed = append(e.allowed, e.locOf(env, m.ex)...)
		} else {
			for _, k := range e.matchComps(m.all) {
				al := allowedLoc{comp: k}
				if m.cond != nil {
					m := m
					al.cond = func(r *Term) *Term {
						return env.with(map[string]Val{"r": {Typ: types.Typ[types.Int], T: r}}).bool(m.cond)
					}
				}
				e.allowed = append(e.allowed, al)
			}
		}
	}
	e.alloc0 = pre.alloc
	for k, x := range pre.comps {
		if _, ok := s.comps[k]; !ok {
			s.comps[k] = x
		}
	}
	s.env = map[ssa.Value]Val{}
	res := e.callFn(fn, v.Clo.Binds, args, s, fn.Pos())
	for i, n := range cc.results {
		x := res
		if len(cc.results) > 1 {
			x = res.Sub[i]
		}
		cv[n] = x
	}
	env2 := &SEnv{e: e, vars: cv, st: s, old: pre}
	for i, en := range cc.ensures {
		e.oblige(s, env2.bool(en.ex), "post", "returned function: "+clauseName(en, i), "", en.props...)
	}
	e.allowed, e.alloc0, e.root = savedAllowed, savedAlloc0, savedRoot
}

// ---------- package initialisation ----------

func (e *Exec) globalFacts(g *ssa.Global, st *State) {
	n := gname(g)
	if e.gfDone[n] || e.initMode && e.fn.Pkg == g.Pkg {
		return
	}
	e.gfDone[n] = true
	invs := e.w.globalInvs[n]
	if len(invs) == 0 {
		return
	}
	base := e.entry
	if base == nil {
		base = st
	}
	env := &SEnv{e: e, vars: map[string]Val{}, st: base, old: base}
	for _, iv := range invs {
		if iv.once {
			continue
		}
		t := env.bool(iv.ex)
		e.ctx.facts = append(e.ctx.facts, t)
	}
}

// runInit executes the initialiser of a package; proves the global invariants when prove is set.
func (w *World) runInit(p *ssa.Package, prove bool) *FnResult {
	t0 := time.Now()
	key := p.Pkg.Name() + ".init"
	r := &FnResult{Key: key}
	fn := p.Func("init")
	ct := &Contract{key: key, closures: map[string]*Contract{}, modAll: true}
	e := w.newExec(fn, key, ct)
	e.initMode = true
	e.sess = NewSession(e.ctx, key, w.timeoutMs)
	defer e.sess.Close()
	if !prove {
		e.dry = 1
	}
	catch(r, func() {
		c := e.ctx
		e.alloc0 = c.NewAlloc()
		e.rawAssume(c.Lt(c.Int(100000), e.alloc0))
		e.axiomsFor(nil)
		st := &State{guard: c.True(), comps: map[string]*Term{}, alloc: e.alloc0, locals: map[int]Val{}, env: map[ssa.Value]Val{}}
		e.entry = st.clone()
		e.curState = st
		fr := &Frame{fn: fn, contract: ct, vars: map[string]Val{}}
		e.frames = []*Frame{fr}
		e.rootVars = map[string]Val{}
		e.runFunc(fr, st)
		for _, rt := range fr.returns {
			if rt.st.guard.isFalse() {
				continue
			}
			env := &SEnv{e: e, vars: map[string]Val{}, st: rt.st, old: e.entry}
			if prove {
				for _, n := range sortedKeys(w.globalInvs) {
					if !strings.HasPrefix(n, p.Pkg.Name()+".") {
						continue
					}
					for _, iv := range w.globalInvs[n] {
						for _, part := range splitConj(iv.ex) {
							e.oblige(rt.st, env.bool(part), "global", "initial value of "+n+": "+trunc(iv.text, 100), "", iv.props...)
						}
					}
				}
			} else {
				for _, n := range sortedKeys(p.Members) {
					g, ok := p.Members[n].(*ssa.Global)
					if !ok {
						continue
					}
					sl, ok := under(deref(g.Type())).(*types.Slice)
					if !ok {
						continue
					}
					if _, ok := under(sl.Elem()).(*types.Signature); !ok {
						continue
					}
					v := e.load(&Addr{Kind: 'G', Glob: g, Root: deref(g.Type()), Typ: deref(g.Type())}, rt.st)
					ln := c.SLen(v.T)
					if !ln.isInt() {
						continue
					}
					var fns []*ssa.Function
					for i := int64(0); i < ln.I; i++ {
						el := e.loadElem(sl.Elem(), c.SArr(v.T), c.Ix(c.SOff(v.T), c.Int(i)), rt.st)
						cl := e.cloOf[el.T]
						if cl == nil || cl.Fn == nil || len(cl.Binds) > 0 {
							fns = nil
							break
						}
						fns = append(fns, cl.Fn)
					}
					if fns != nil {
						w.mu.Lock()
						w.constSlices[gname(g)] = fns
						w.mu.Unlock()
					}
				}
			}
		}
	})
	e.finish(r, t0)
	if r.Err != "" {
		r.Obs = append(r.Obs, ObRes{Name: key + "/engine: " + r.Err, Kind: "engine", OK: false})
	}
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
