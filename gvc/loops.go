package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	idx    int
}

type loopInfo struct {
	rpo     []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*loop // by header
	inner   map[*ssa.BasicBlock]*loop // innermost loop containing a block
	irreduc bool
}

func (w *World) loopsOf(fn *ssa.Function) *loopInfo {
	w.tmu.Lock()
	defer w.tmu.Unlock()
	if li, ok := w.loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{loops: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	num := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] {
				if !s.Dominates(b) {
					li.irreduc = true
					continue
				}
				lp := li.loops[s]
				if lp == nil {
					lp = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = lp
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if lp.blocks[x] {
						continue
					}
					lp.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var ls []*loop
	for _, b := range li.rpo {
		if lp := li.loops[b]; lp != nil {
			lp.idx = len(ls)
			ls = append(ls, lp)
		}
	}
	for _, lp := range ls {
		for _, o := range ls {
			if o != lp && o.blocks[lp.header] && (lp.parent == nil || len(o.blocks) < len(lp.parent.blocks)) {
				lp.parent = o
			}
		}
		for b := range lp.blocks {
			if in := li.inner[b]; in == nil || len(lp.blocks) < len(in.blocks) {
				li.inner[b] = lp
			}
		}
	}
	w.loopCache[fn] = li
	return li
}

func (e *Exec) runFunc(fr *Frame, st *State) {
	fr.loops = e.w.loopsOf(fr.fn)
	if fr.loops.irreduc {
		e.unsup("irreducible control flow in %s", fr.fn)
	}
	e.runBody(fr, nil, st)
}

// runBody executes a loop body (or the whole function) from its header state.
func (e *Exec) runBody(fr *Frame, lp *loop, st *State) (exits, backs []edge) {
	li := fr.loops
	pending := map[*ssa.BasicBlock][]edge{}
	in := func(b *ssa.BasicBlock) bool { return lp == nil || lp.blocks[b] }
	route := func(es []edge) {
		for _, x := range es {
			switch {
			case x.st.guard.isFalse():
			case lp != nil && x.to == lp.header:
				ex, bk := e.splitBack(fr, lp, x)
				exits = append(exits, ex...)
				backs = append(backs, bk...)
			case !in(x.to):
				exits = append(exits, x)
			default:
				pending[x.to] = append(pending[x.to], x)
			}
		}
	}
	first := fr.fn.Blocks[0]
	if lp != nil {
		first = lp.header
	}
	for _, b := range li.rpo {
		if !in(b) {
			continue
		}
		if b == first {
			if lp == nil && li.loops[b] != nil {
				e.unsup("loop at function entry")
			}
			route(e.execBlock(fr, b, st))
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if child := li.loops[b]; child != nil {
			route(e.runLoop(fr, child, es))
			continue
		}
		s := e.join(fr, b, es)
		if s == nil {
			continue
		}
		if len(es) > 1 {
			e.cut(fr, s)
		}
		route(e.execBlock(fr, b, s))
	}
	return
}

// cut proves what the contract says holds at joins, so that it need not be traced back through them; what does not hold is left out.
func (e *Exec) cut(fr *Frame, s *State) {
	if e.dry > 0 || e.houdini > 0 || e.root == nil || fr.fn != e.fn || len(e.root.cuts) == 0 || s.guard.isFalse() {
		return
	}
	for _, x := range e.root.cuts {
		env := &SEnv{e: e, vars: e.rootVars, st: s, old: e.entry}
		t := env.bool(x)
		if e.proveCand(s, t) {
			e.rawAssume(e.ctx.Imp(s.guard, t))
		}
	}
}

// flagOf: the boolean variable which alone decides, at its head, whether a loop goes on, and the value with which it does.
func flagOf(lp *loop) (*ssa.Phi, bool) {
	var cond ssa.Value
	var not *ssa.UnOp
	for _, i := range lp.header.Instrs {
		switch i := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.UnOp:
			if i.Op != token.NOT || not != nil {
				return nil, false
			}
			not = i
		case *ssa.If:
			cond = i.Cond
		default:
			return nil, false
		}
	}
	if cond == nil {
		return nil, false
	}
	goes := true
	if not != nil {
		if cond != ssa.Value(not) {
			return nil, false
		}
		cond, goes = not.X, false
	}
	p, ok := cond.(*ssa.Phi)
	if !ok || p.Block() != lp.header {
		return nil, false
	}
	t, f := lp.blocks[lp.header.Succs[0]], lp.blocks[lp.header.Succs[1]]
	if t == f {
		return nil, false
	}
	if f {
		goes = !goes
	}
	return p, goes
}

// splitBack: where a flag decides at the head whether the loop goes on, the way back with which it does not is a way out.
func (e *Exec) splitBack(fr *Frame, lp *loop, x edge) (exits, backs []edge) {
	p, goes := flagOf(lp)
	if p == nil {
		return nil, []edge{x}
	}
	vs := e.phiVals(fr, x, lp.header)
	b := vs[p].T
	if b == nil {
		return nil, []edge{x}
	}
	if !goes {
		b = e.ctx.Not(b)
	}
	if st := x.st.clone(); true {
		st.guard = e.ctx.And(st.guard, e.ctx.Not(b))
		if !st.guard.isFalse() {
			for q, v := range vs {
				st.env[q] = v
			}
			for _, o := range e.execBlock(fr, lp.header, st) {
				if !lp.blocks[o.to] {
					exits = append(exits, o)
				}
			}
		}
	}
	y := x
	y.st = x.st.clone()
	y.st.guard = e.ctx.And(x.st.guard, b)
	if !y.st.guard.isFalse() {
		backs = append(backs, y)
	}
	return
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

// phiVals evaluates the phis of b along an edge.
func (e *Exec) phiVals(fr *Frame, x edge, b *ssa.BasicBlock) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	pi := -1
	for i, p := range b.Preds {
		if p == x.from {
			pi = i
			break
		}
	}
	for _, p := range phis(b) {
		v := e.val(x.st, p.Edges[pi], fr)
		v.Typ = p.Type()
		out[p] = v
	}
	return out
}

func (e *Exec) join(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var ss []*State
	for _, x := range es {
		if x.st.guard.isFalse() {
			continue
		}
		vs := e.phiVals(fr, x, b)
		s := x.st
		if len(vs) > 0 {
			s = x.st.clone()
			for p, v := range vs {
				s.env[p] = v
			}
		}
		ss = append(ss, s)
	}
	return e.merge(ss)
}

type compMod struct {
	full bool
	refs []*Term
}

type activeLoop struct {
	mods   map[string]*compMod
	alloc  *Term
	entry  *State
	header *State
}

// loopLimit: literal trip count of a range loop over a slice of known length.
func (e *Exec) loopLimit(fr *Frame, lp *loop, st *State) (int64, bool) {
	if lp.header.Comment != "rangeindex.loop" {
		return 0, false
	}
	iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return 0, false
	}
	defer func() { recover() }()
	v := e.val(st, bo.Y, fr)
	if v.T != nil && v.T.isInt() && (v.T.I <= 24 || e.initMode && v.T.I <= 200) {
		return v.T.I, true
	}
	return 0, false
}

type snapshot struct {
	nret  []int
	nobs  int
	edges int
}

func (e *Exec) snap() snapshot {
	s := snapshot{nobs: len(e.obs), edges: len(e.edges)}
	for _, f := range e.frames {
		s.nret = append(s.nret, len(f.returns))
	}
	return s
}
func (e *Exec) restore(s snapshot) {
	for i, f := range e.frames {
		if i < len(s.nret) {
			f.returns = f.returns[:s.nret[i]]
		}
	}
	e.obs = e.obs[:s.nobs]
	e.edges = e.edges[:s.edges]
}

func (e *Exec) runLoop(fr *Frame, lp *loop, es []edge) []edge {
	c := e.ctx
	entry := e.join(fr, lp.header, es)
	if entry == nil {
		return nil
	}
	if n, ok := e.loopLimit(fr, lp, entry); ok {
		var exits []edge
		st := entry
		for i := int64(0); i <= n+1; i++ {
			e.unrollPath = append(e.unrollPath, i)
			ex, backs := e.runBody(fr, lp, st)
			e.unrollPath = e.unrollPath[:len(e.unrollPath)-1]
			exits = append(exits, ex...)
			if len(backs) == 0 {
				return exits
			}
			st = e.join(fr, lp.header, backs)
			if st == nil {
				return exits
			}
		}
		e.unsup("range loop over a literal did not terminate")
	}
	seq0 := c.nsym
	nlocal0 := e.nlocal
	mods := map[string]*compMod{}
	locals := map[int]bool{}
	ps := phis(lp.header)

	mkHeader := func() *State {
		h := entry.clone()
		na := c.NewAlloc(entry.alloc)
		e.rawAssume(c.Le(entry.alloc, na))
		h.alloc = na
		for _, k := range sortedKeys(mods) {
			m := mods[k]
			so := e.compSort[k]
			cur := e.comp(entry, k, so)
			h.comps[k] = cur
			if strings.HasPrefix(k, "V|") || m.full {
				h.comps[k] = c.Fresh("lh."+k, so)
				continue
			}
			t := cur
			for _, r := range m.refs {
				t = c.Store(t, r, c.Fresh("lr."+k, arrElem(so)))
			}
			h.comps[k] = t
		}
		var ids []int
		for id := range locals {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			v, ok := entry.locals[id]
			if !ok {
				continue
			}
			if t := e.localTyp[id]; t != nil {
				h.locals[id] = e.fresh("ll."+e.localName[id], t, h)
			} else if v.T != nil {
				h.locals[id] = Val{T: c.Fresh("lv", v.T.Sort)}
			}
		}
		for _, p := range ps {
			h.env[p] = e.fresh("phi."+p.Comment, p.Type(), h)
		}
		return h
	}

	// 1. which locations change: dry runs to a fixpoint
	for round := 0; ; round++ {
		if round > 12 {
			e.unsup("loop modification analysis does not converge in %s", fr.fn)
		}
		e.dry++
		h := mkHeader()
		savedMods, savedLocals := e.mods, e.modLocals
		e.mods, e.modLocals = nil, map[int]bool{}
		sn := e.snap()
		fdone := len(h.defers)
		_, backs := e.runBody(fr, lp, h)
		for _, b := range backs {
			if len(b.st.defers) != fdone {
				e.unsup("defer inside a loop in %s", fr.fn)
			}
		}
		e.restore(sn)
		ev, lm := e.mods, e.modLocals
		e.mods, e.modLocals = savedMods, savedLocals
		e.dry--
		changed := false
		for _, m := range ev {
			cm := mods[m.comp]
			if cm == nil {
				cm = &compMod{}
				mods[m.comp] = cm
				changed = true
			}
			if cm.full {
				continue
			}
			if m.ref == nil {
				cm.full = true
				changed = true
				continue
			}
			// fresh in the loop?
			if c.Le(h.alloc, m.ref).isTrue() || e.softFreshIn(m.ref, h.alloc) {
				continue
			}
			if m.ref.seq <= seq0 {
				dup := false
				for _, r := range cm.refs {
					if r == m.ref {
						dup = true
					}
				}
				if !dup {
					cm.refs = append(cm.refs, m.ref)
					changed = true
				}
				if len(cm.refs) > 6 {
					cm.full = true
				}
				continue
			}
			cm.full = true
			changed = true
		}
		for id := range lm {
			if id <= nlocal0 && !locals[id] {
				locals[id] = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// the enclosing context sees these modifications too
	for k, m := range mods {
		if m.full {
			e.mods = append(e.mods, modEvent{comp: k})
		}
		for _, r := range m.refs {
			e.mods = append(e.mods, modEvent{comp: k, ref: r})
		}
	}
	for id := range locals {
		e.modLocals[id] = true
	}
	if e.dry > 0 {
		h := mkHeader()
		exits, _ := e.runBody(fr, lp, h)
		return exits
	}

	// 2. invariants: Houdini over the candidates
	cands := e.candidates(fr, lp, entry, ps, mods)
	var live []*cand
	// a candidate dropped under the strongest invariants of the loops around is not tried again under weaker ones
	where := fmt.Sprintf("%p%v", lp.header, e.unrollPath)
	for _, f := range e.frames {
		where += fmt.Sprintf("/%p", f.callIns)
	}
	drop := func(cd *cand) {
		if len(e.active) > 0 {
			e.dropped[where+cd.text] = true
		}
	}
	for _, cd := range cands {
		if e.dropped[where+cd.text] {
			continue
		}
		t := e.candTerm(cd, fr, entry, entry, nil)
		if t == nil {
			continue
		}
		e.light = true
		ok := e.proveCand(entry, t)
		e.light = false
		if ok {
			live = append(live, cd)
		} else {
			drop(cd)
			if e.w.verboseInv {
				fmt.Printf("  [%s loop %d] dropped at entry: %s\n", e.key, lp.idx, cd.text)
			}
		}
	}
	var hd *State
	act := &activeLoop{mods: mods, entry: entry}
	run := func() (exits, backs []edge) {
		hd = mkHeader()
		act.alloc = hd.alloc
		act.header = hd
		for _, cd := range live {
			if t := e.candTerm(cd, fr, hd, entry, hd); t != nil {
				e.assume(hd, t)
			}
		}
		e.active = append(e.active, act)
		exits, backs = e.runBody(fr, lp, hd.clone())
		e.active = e.active[:len(e.active)-1]
		return
	}
	for round := 0; len(live) > 0; round++ {
		sn := e.snap()
		e.sess.Push()
		e.houdini++
		_, backs := run()
		e.houdini--
		var keep []*cand
		bad := map[*cand]bool{}
		for _, b := range backs {
			bs := b.st.clone()
			for p, v := range e.phiVals(fr, b, lp.header) {
				bs.env[p] = v
			}
			for _, cd := range live {
				if bad[cd] {
					continue
				}
				t := e.candTerm(cd, fr, bs, entry, hd)
				if t == nil || !e.proveCand(bs, t) {
					bad[cd] = true
					drop(cd)
					if e.w.verboseInv {
						fmt.Printf("  [%s loop %d] dropped at back edge: %s\n", e.key, lp.idx, cd.text)
						if e.w.dumpDir != "" && t != nil {
							os.WriteFile(fmt.Sprintf("%s/inv%d.smt2", e.w.dumpDir, len(bad)), []byte(e.sess.script([]*Term{bs.guard, e.ctx.Not(t)})), 0644)
						}
						if e.failedPiece != nil {
							fmt.Printf("      PIECE %s\n", e.failedPiece.Str())
						}
					}
				}
			}
		}
		e.sess.Pop()
		e.restore(sn)
		for _, cd := range live {
			if !bad[cd] {
				keep = append(keep, cd)
			}
		}
		n := len(live)
		live = keep
		if len(live) == n {
			break
		}
	}
	for _, cd := range live {
		e.invUsed = append(e.invUsed, fmt.Sprintf("%s loop %d: %s", e.w.keyOf(fr.fn), lp.idx, cd.text))
	}
	// 3. final round with the surviving invariants
	exits, backs := run()
	if e.houdini == 0 {
		for _, b := range backs {
			bs := b.st.clone()
			for p, v := range e.phiVals(fr, b, lp.header) {
				bs.env[p] = v
			}
			for _, cd := range live {
				if t := e.candTerm(cd, fr, bs, entry, hd); t != nil {
					e.oblige(bs, t, "invariant", "loop invariant preserved: "+cd.text, e.posStr(lp.header.Instrs[0].Pos()))
				}
			}
		}
		e.termination(fr, lp, hd, backs, ps)
	}
	return exits
}

func (e *Exec) proveCand(st *State, t *Term) bool {
	return e.prove(st, t)
}

func (e *Exec) softFreshIn(ref, alloc *Term) bool {
	a, ok := e.softFresh[ref]
	if !ok {
		return false
	}
	return e.ctx.Le(alloc, a).isTrue()
}

// ---------- candidates ----------

type cand struct {
	ex   *Ex
	text string
	bind func(st *State, entry *State) map[string]Val
	fn   func(st, entry, header *State) *Term
}

type scopeVal struct {
	name string
	typ  types.Type
	get  func(st *State) (Val, bool)
}

func (e *Exec) scopeVals(fr *Frame, lp *loop, entry *State, ps []*ssa.Phi) []scopeVal {
	var out []scopeVal
	seen := map[string]bool{}
	for _, p := range ps {
		p := p
		out = append(out, scopeVal{"phi " + p.Comment, p.Type(), func(st *State) (Val, bool) { v, ok := st.env[p]; return v, ok }})
	}
	addV := func(name string, t types.Type, v Val, key string) {
		if seen[key] {
			return
		}
		seen[key] = true
		out = append(out, scopeVal{name, t, func(*State) (Val, bool) { return v, true }})
	}
	// values defined before the loop in this frame and in the callers
	var envs []map[ssa.Value]Val
	envs = append(envs, entry.env)
	for i := len(e.frames) - 2; i >= 0; i-- {
		if e.frames[i].env != nil {
			envs = append(envs, e.frames[i].env)
		}
	}
	isPhi := map[ssa.Value]bool{}
	for _, p := range ps {
		isPhi[p] = true
	}
	for _, en := range envs {
		var vs []ssa.Value
		for v := range en {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			if isPhi[v] {
				continue
			}
			x := en[v]
			if x.Addr != nil && x.Addr.Kind == 'L' && len(x.Addr.Path) == 0 {
				id := x.Addr.Local
				k := fmt.Sprint("local", id)
				if !seen[k] {
					seen[k] = true
					out = append(out, scopeVal{e.localName[id], e.localTyp[id], func(st *State) (Val, bool) { v, ok := st.locals[id]; v.Typ = e.localTyp[id]; return v, ok }})
				}
				continue
			}
			if x.T == nil || x.Typ == nil {
				continue
			}
			addV(v.Name(), x.Typ, x, fmt.Sprint(x.T.id, shortT(x.Typ)))
			// a variable that outlives its function lives in the heap: its content counts
			if pt, ok := under(x.Typ).(*types.Pointer); ok {
				if _, ok := under(pt.Elem()).(*types.Slice); ok {
					el, r, k := pt.Elem(), x.T, fmt.Sprint("*", x.T.id)
					if !seen[k] {
						seen[k] = true
						out = append(out, scopeVal{"*" + v.Name(), el, func(st *State) (Val, bool) {
							w := e.loadObj(el, r, st)
							w.Typ = el
							e.loadFacts(w, st)
							return w, true
						}})
					}
				}
			}
		}
	}
	// captured cells
	for _, f := range e.frames {
		for i, b := range f.binds {
			if b.Addr != nil && b.Addr.Kind == 'L' && len(b.Addr.Path) == 0 {
				id := b.Addr.Local
				k := fmt.Sprint("local", id)
				if !seen[k] {
					seen[k] = true
					out = append(out, scopeVal{f.fn.FreeVars[i].Name(), e.localTyp[id], func(st *State) (Val, bool) { v, ok := st.locals[id]; v.Typ = e.localTyp[id]; return v, ok }})
				}
			}
		}
	}
	return out
}

func (e *Exec) candidates(fr *Frame, lp *loop, entry *State, ps []*ssa.Phi, mods map[string]*compMod) []*cand {
	var out []*cand
	var scope []scopeVal
	scopeDone := false
	addInv := func(inv LoopInv, vars map[string]Val) {
		if len(inv.foreach) == 0 {
			out = append(out, &cand{ex: inv.ex, text: inv.text, bind: func(st, en *State) map[string]Val { return vars }})
			return
		}
		if !scopeDone {
			scope = e.scopeVals(fr, lp, entry, ps)
			scopeDone = true
		}
		var rec func(i int, acc []scopeVal)
		rec = func(i int, acc []scopeVal) {
			if len(out) > 400 {
				return
			}
			if i == len(inv.foreach) {
				a := append([]scopeVal{}, acc...)
				var names []string
				for _, s := range a {
					names = append(names, s.name)
				}
				out = append(out, &cand{ex: inv.ex, text: inv.text + " {" + strings.Join(names, ", ") + "}", bind: func(st, en *State) map[string]Val {
					m := map[string]Val{}
					for k, v := range vars {
						m[k] = v
					}
					for j, s := range a {
						v, ok := s.get(st)
						if !ok {
							return nil
						}
						m[inv.foreach[j].name] = v
					}
					return m
				}})
				return
			}
			for _, s := range scope {
				if s.typ != nil && (typeMatches(s.typ, inv.foreach[i].typ) || e.w.plainSliceOf(s.typ, inv.foreach[i].typ)) {
					rec(i+1, append(acc, s))
					// the last index done rather than the next: what is said of one loop form holds of the other
					if inv.foreach[i].typ == "int" && strings.HasPrefix(s.name, "phi ") && s.name != "phi rangeindex" {
						s := s
						rec(i+1, append(acc, scopeVal{s.name + "-1", s.typ, func(st *State) (Val, bool) {
							v, ok := s.get(st)
							if !ok || v.T == nil {
								return v, false
							}
							v.T = e.ctx.Add(v.T, e.ctx.Int(-1))
							return v, true
						}}))
					}
				}
			}
		}
		rec(0, nil)
	}
	if e.root != nil {
		for _, inv := range e.root.loopinv {
			addInv(inv, e.rootVars)
		}
	}
	if fr.contract != nil && fr.contract != e.root {
		for _, inv := range fr.contract.loopinv {
			v := map[string]Val{}
			for k, x := range e.rootVars {
				v[k] = x
			}
			for k, x := range fr.vars {
				v[k] = x
			}
			addInv(inv, v)
		}
	}
	for _, inv := range e.w.globalLoopInv {
		addInv(inv, e.rootVars)
	}
	// automatic: integer phis
	c := e.ctx
	if p, goes := flagOf(lp); p != nil {
		out = append(out, &cand{text: p.Comment + " says to go on", fn: func(st, en, h *State) *Term {
			if goes {
				return st.env[p].T
			}
			return c.Not(st.env[p].T)
		}})
	}
	for _, p := range ps {
		p := p
		switch under(p.Type()).(type) {
		case *types.Pointer, *types.Interface:
			// still nothing found
			for i, v := range p.Edges {
				if k, ok := v.(*ssa.Const); ok && k.Value == nil && !lp.blocks[lp.header.Preds[i]] {
					out = append(out, &cand{text: p.Comment + " is still nil", fn: func(st, en, h *State) *Term {
						return c.Eq(st.env[p].T, en.env[p].T)
					}})
					break
				}
			}
			continue
		}
		b, ok := under(p.Type()).(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		out = append(out, &cand{text: p.Comment + " >= entry value", fn: func(st, en, h *State) *Term {
			return c.Le(en.env[p].T, st.env[p].T)
		}})
		if iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.LSS {
				if _, ok := e.pureIn(fr, lp, entry, bo.Y); ok {
					lim := func(st *State) *Term {
						v, ok := e.pureIn(fr, lp, st, bo.Y)
						if !ok {
							return nil
						}
						return v.T
					}
					out = append(out, &cand{text: p.Comment + " <= limit", fn: func(st, en, h *State) *Term {
						l := lim(st)
						if l == nil {
							return c.False()
						}
						return c.Le(st.env[p].T, l)
					}}, &cand{text: p.Comment + " < limit or still the entry value", fn: func(st, en, h *State) *Term {
						l := lim(st)
						if l == nil {
							return c.False()
						}
						return c.Or(c.Lt(st.env[p].T, l), c.Eq(st.env[p].T, en.env[p].T))
					}})
				}
			}
		}
	}
	return out
}

// pureIn: the value that v, which the header of the loop works out anew on each round, has in state st;
// only for what can be read off the state: values from before the loop, fields of them and lengths.
func (e *Exec) pureIn(fr *Frame, lp *loop, st *State, v ssa.Value) (Val, bool) {
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || !lp.blocks[in.Block()] {
		switch v.(type) {
		case *ssa.Const:
			return e.val(st, v, fr), true
		}
		r, ok := st.env[v]
		return r, ok && (r.T != nil || r.Addr != nil)
	}
	switch x := v.(type) {
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return Val{}, false
		}
		if _, ok := under(x.Call.Args[0].Type()).(*types.Slice); !ok {
			return Val{}, false
		}
		a, ok := e.pureIn(fr, lp, st, x.Call.Args[0])
		if !ok || a.T == nil {
			return Val{}, false
		}
		return Val{Typ: x.Type(), T: e.ctx.SLen(a.T)}, true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return Val{}, false
		}
		a, ok := e.pureIn(fr, lp, st, x.X)
		if !ok {
			return Val{}, false
		}
		var r Val
		if a.Addr != nil {
			r = e.load(a.Addr, st)
		} else {
			r = e.loadObj(deref(x.X.Type()), a.T, st)
		}
		r.Typ = x.Type()
		e.loadFacts(r, st)
		return r, r.T != nil
	case *ssa.FieldAddr:
		a, ok := e.pureIn(fr, lp, st, x.X)
		if !ok {
			return Val{}, false
		}
		t := deref(x.X.Type())
		ft := under(t).(*types.Struct).Field(x.Field).Type()
		if a.Addr != nil {
			d := *a.Addr
			d.Path = append(append([]int{}, d.Path...), x.Field)
			d.Typ = ft
			return Val{Typ: x.Type(), Addr: &d}, true
		}
		return Val{Typ: x.Type(), Addr: &Addr{Kind: 'F', Base: a.T, Root: t, Path: []int{x.Field}, Typ: ft}}, true
	}
	return Val{}, false
}

// plainSliceOf: t is an unnamed slice type with the elements of the named one that is wanted
func (w *World) plainSliceOf(t types.Type, want string) bool {
	sl, ok := types.Unalias(t).(*types.Slice)
	if !ok || strings.HasPrefix(want, "[") || !strings.Contains(want, ".") || strings.HasPrefix(want, "*") {
		return false
	}
	n := w.typeByName(want)
	if n == nil {
		return false
	}
	o, ok := n.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), o.Elem())
}

func typeMatches(t types.Type, want string) bool {
	s := shortT(t)
	if want == "rune" {
		want = "int32"
	}
	if want == "bool" || want == "int" || want == "string" {
		return s == want
	}
	if want == "slice" {
		_, ok := under(t).(*types.Slice)
		return ok
	}
	return s == want
}

func (e *Exec) candTerm(cd *cand, fr *Frame, st, entry, header *State) (r *Term) {
	defer func() {
		if x := recover(); x != nil {
			if se, ok := x.(specErr); ok {
				if e.w.verboseInv {
					fmt.Printf("  candidate %s: %s\n", cd.text, se.msg)
				}
				r = nil
				return
			}
			panic(x)
		}
	}()
	if cd.fn != nil {
		return cd.fn(st, entry, header)
	}
	vars := cd.bind(st, entry)
	if vars == nil {
		return nil
	}
	env := &SEnv{e: e, vars: vars, st: st, old: e.entry, loopEntry: entry}
	return env.bool(cd.ex)
}

// termination checks that some measure decreases on every back edge.
func (e *Exec) termination(fr *Frame, lp *loop, hd *State, backs []edge, ps []*ssa.Phi) {
	if e.dry > 0 || e.houdini > 0 || len(backs) == 0 {
		return
	}
	props := e.w.termProps(e.fn)
	pos := e.posStr(lp.header.Instrs[0].Pos())
	cm := lp.header.Comment
	if cm == "rangeindex.loop" || cm == "rangeiter.loop" {
		e.obs = append(e.obs, ObRes{Name: e.obName("termination: range loop"), Kind: "termination", Props: props, OK: true, By: "syntactic", Pos: pos})
		return
	}
	c := e.ctx
	type meas struct {
		text string
		f    func(st *State) *Term
	}
	var ms []meas
	add := func(x *Ex, vars map[string]Val) {
		ms = append(ms, meas{"declared measure", func(st *State) *Term {
			env := &SEnv{e: e, vars: vars, st: st, old: e.entry}
			var r *Term
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(specErr); !ok {
							panic(x)
						}
					}
				}()
				r = env.term(x)
			}()
			return r
		}})
	}
	if e.root != nil {
		for _, m := range e.root.measures {
			add(m, e.rootVars)
		}
	}
	if fr.contract != nil && fr.contract != e.root {
		for _, m := range fr.contract.measures {
			v := map[string]Val{}
			for k, x := range e.rootVars {
				v[k] = x
			}
			for k, x := range fr.vars {
				v[k] = x
			}
			add(m, v)
		}
	}
	for _, m := range e.w.globalMeasures {
		add(m, e.rootVars)
	}
	for _, p := range ps {
		p := p
		if b, ok := under(p.Type()).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		ms = append(ms, meas{"counter going down", func(st *State) *Term { return st.env[p].T }})
		if iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.LEQ) && bo.X == ssa.Value(p) {
				var lim *Term
				if k, ok := bo.Y.(*ssa.Const); ok {
					lim = constVal(e, k).T
				} else if v, ok := hd.env[bo.Y]; ok {
					lim = v.T
				} else {
					// computed in the header from loop-invariant parts: use its value in the back-edge environment
					if len(backs) > 0 {
						if v, ok := backs[0].st.env[bo.Y]; ok {
							lim = v.T
						}
					}
				}
				if lim != nil {
					ms = append(ms, meas{"distance to the limit", func(st *State) *Term { return c.Sub(c.Add(lim, c.Int(1)), st.env[p].T) }})
				}
			}
		}
	}
	ok := false
	for _, m := range ms {
		m0 := m.f(hd)
		if m0 == nil {
			continue
		}
		all := true
		for _, b := range backs {
			bs := b.st.clone()
			for p, v := range e.phiVals(fr, b, lp.header) {
				bs.env[p] = v
			}
			m1 := m.f(bs)
			if m1 == nil || !e.prove(bs, c.And(c.Le(c.Int(0), m0), c.Lt(m1, m0))) {
				all = false
				break
			}
		}
		if all {
			ok = true
			e.obs = append(e.obs, ObRes{Name: e.obName("termination: " + m.text + " decreases"), Kind: "termination", Props: props, OK: true, By: "z3", Pos: pos})
			break
		}
	}
	if !ok {
		e.obs = append(e.obs, ObRes{Name: e.obName("termination: loop makes progress"), Kind: "termination", Props: props, OK: false, By: "z3", Pos: pos, Detail: "no measure decreases on every back edge"})
		if e.w.verbose {
			fmt.Printf("FAIL %s termination [%s]\n", e.key, pos)
		}
	}
}

func (e *Exec) obName(s string) string {
	base := e.key + "/" + s
	e.obCount[base]++
	if n := e.obCount[base]; n > 1 {
		return fmt.Sprintf("%s #%d", base, n)
	}
	return base
}
