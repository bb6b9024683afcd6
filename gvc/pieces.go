package main

import "time"

// Goals are split along their structure when a solver does not accept them whole.

type piece struct {
	hyps []*Term
	goal *Term
}

func (c *Ctx) pieces(hyps []*Term, t *Term, out []piece) []piece {
	if len(out) > 60 {
		return append(out, piece{hyps, t})
	}
	with := func(h *Term) []*Term { return append(append([]*Term{}, hyps...), h) }
	switch {
	case t.Op == "and":
		for _, a := range t.Args {
			out = c.pieces(hyps, a, out)
		}
		return out
	case t.Op == "or":
		for i, a := range t.Args {
			if a.Op == "and" || a.Op == "ite" || a.Op == "forall" {
				h := hyps
				for j, b := range t.Args {
					if j != i {
						h = append(append([]*Term{}, h...), c.Not(b))
					}
				}
				return c.pieces(h, a, out)
			}
		}
	case t.Op == "=>":
		return c.pieces(with(t.Args[0]), t.Args[1], out)
	case t.Op == "ite" && t.Sort == "Bool":
		out = c.pieces(with(t.Args[0]), t.Args[1], out)
		return c.pieces(with(c.Not(t.Args[0])), t.Args[2], out)
	case t.Op == "=" && t.Args[0].Sort == "Bool":
		out = c.pieces(with(t.Args[0]), t.Args[1], out)
		return c.pieces(with(t.Args[1]), t.Args[0], out)
	}
	return append(out, piece{hyps, t})
}

// rebuild applies a substitution and simplifies on the way.
func (c *Ctx) rebuild(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.Op == "forall" {
		n := int(t.I)
		body := c.rebuild(t.Args[n], m, memo)
		if body == t.Args[n] {
			r = t
		} else {
			var tr [][]*Term
			for _, g := range t.trig {
				var ng []*Term
				for _, x := range g {
					ng = append(ng, c.rebuild(x, m, memo))
				}
				tr = append(tr, ng)
			}
			r = c.Forall(t.Args[:n], tr, body)
		}
		memo[t] = r
		return r
	}
	as := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		as[i] = c.rebuild(a, m, memo)
		if as[i] != a {
			same = false
		}
	}
	if same {
		memo[t] = t
		return t
	}
	switch t.Op {
	case "and":
		r = c.And(as...)
	case "or":
		r = c.Or(as...)
	case "not":
		r = c.Not(as[0])
	case "=>":
		r = c.Imp(as[0], as[1])
	case "=":
		r = c.Eq(as[0], as[1])
	case "ite":
		r = c.Ite(as[0], as[1], as[2])
	case "+":
		r = c.Add(as[0], as[1])
	case "-":
		r = c.Sub(as[0], as[1])
	case "*":
		r = c.Mul(as[0], as[1])
	case "<":
		r = c.Lt(as[0], as[1])
	case "select":
		r = c.Select(as[0], as[1])
	case "store":
		r = c.Store(as[0], as[1], as[2])
	case "app":
		switch t.S {
		case "itag":
			r = c.ITag(as[0])
		case "ival":
			r = c.IVal(as[0])
		case "sarr":
			r = c.SArr(as[0])
		case "soff":
			r = c.SOff(as[0])
		case "slen":
			r = c.SLen(as[0])
		case "ix":
			r = c.Ix(as[0], as[1])
		default:
			r = c.mk(t.Op, t.S, t.I, t.Sort, as...)
		}
	default:
		r = c.mk(t.Op, t.S, t.I, t.Sort, as...)
	}
	memo[t] = r
	return r
}

// literals a formula fixes: conjuncts that hold, negations that do not
func (c *Ctx) literals(f *Term, m map[*Term]*Term) {
	switch f.Op {
	case "and":
		for _, a := range f.Args {
			c.literals(a, m)
		}
	case "not":
		m[f.Args[0]] = c.False()
		if f.Args[0].Op == "or" {
			for _, a := range f.Args[0].Args {
				c.literals(c.Not(a), m)
			}
		}
	case "true", "false":
	default:
		m[f] = c.True()
	}
}

// caseAtom: an atom of a condition of an ite in t, free of bound variables
func caseAtom(t *Term, seen map[*Term]bool) *Term {
	if seen[t] || len(t.Args) == 0 {
		return nil
	}
	seen[t] = true
	if t.Op == "ite" && !t.Args[0].bv {
		x := t.Args[0]
		for {
			switch x.Op {
			case "and", "or", "not", "=>", "ite":
				x = x.Args[0]
				continue
			}
			break
		}
		if a := caseAtom(x, seen); a != nil {
			return a
		}
		return x
	}
	args := t.Args
	if t.Op == "forall" {
		args = t.Args[t.I:]
	}
	for _, a := range args {
		if r := caseAtom(a, seen); r != nil {
			return r
		}
	}
	return nil
}

// prove decides one piece; it is split further, along quantifiers and cases, when the solver gives up.
func (e *Exec) provePiece(guard *Term, p piece, depth int, first bool, budget *int) string {
	c := e.ctx
	lits := map[*Term]*Term{}
	c.literals(guard, lits)
	for _, h := range p.hyps {
		c.literals(h, lits)
	}
	g := p.goal
	if depth > 0 {
		g = c.rebuild(g, lits, map[*Term]*Term{})
	}
	if g.isTrue() {
		return "unsat"
	}
	fs := append([]*Term{guard}, p.hyps...)
	fs = append(fs, c.Not(g))
	r := "unknown"
	if !first {
		r = e.sess.checkWith(fs)
		if r == "unsat" || r == "sat" {
			if r == "sat" {
				e.failedPiece = g
			}
			return r
		}
	}
	if e.light {
		e.failedPiece, e.failedFs = g, fs
		return r
	}
	if depth == 0 && e.sess.retry(fs) {
		return "unsat"
	}
	if time.Now().After(e.goalEnd) {
		e.failedPiece, e.failedFs = g, fs
		return r
	}
	if g.Op == "forall" && depth < 10 {
		m := map[*Term]*Term{}
		for _, v := range g.Args[:g.I] {
			m[v] = c.Fresh("sk."+v.S, v.Sort)
		}
		mm := map[*Term]*Term{}
		b := c.rebuild(g.Args[g.I], m, mm)
		// keep the terms of the patterns in sight of the solver: hint is a predicate nothing else is said about
		hyps := append([]*Term{}, p.hyps...)
		for _, tr := range g.trig {
			for _, x := range tr {
				x = c.rebuild(x, m, mm)
				hyps = append(hyps, c.App("hint."+sanitize(x.Sort), "Bool", x))
			}
		}
		for _, q := range c.pieces(hyps, b, nil) {
			if r := e.provePiece(guard, q, depth+1, false, budget); r != "unsat" {
				return r
			}
		}
		return "unsat"
	}
	if depth == 0 {
		g2 := c.rebuild(g, lits, map[*Term]*Term{})
		if g2 != g {
			for _, q := range c.pieces(p.hyps, g2, nil) {
				if r := e.provePiece(guard, q, depth+1, false, budget); r != "unsat" {
					return r
				}
			}
			return "unsat"
		}
	}
	if depth < 10 && *budget > 0 {
		if a := caseAtom(g, map[*Term]bool{}); a != nil {
			*budget--
			for _, v := range []bool{true, false} {
				h := a
				if !v {
					h = c.Not(a)
				}
				g2 := c.rebuild(g, map[*Term]*Term{a: c.Bool(v)}, map[*Term]*Term{})
				for _, q := range c.pieces(append(append([]*Term{}, p.hyps...), h), g2, nil) {
					if r := e.provePiece(guard, q, depth+1, false, budget); r != "unsat" {
						return r
					}
				}
			}
			return "unsat"
		}
	}
	if depth == 0 || !e.sess.retry(fs) {
		e.failedPiece = g
		e.failedFs = fs
		return r
	}
	return "unsat"
}

// checkGoal: "unsat" when the goal follows from the assumptions and the guard.
func (e *Exec) checkGoal(guard, t *Term) string {
	c := e.ctx
	r := e.sess.checkWith([]*Term{guard, c.Not(t)})
	if r == "unsat" || r == "sat" {
		return r
	}
	ps := c.pieces(nil, t, nil)
	budget := 40
	e.goalEnd = time.Now().Add(10 * time.Second)
	for _, p := range ps {
		if r := e.provePiece(guard, p, 0, len(ps) == 1, &budget); r != "unsat" {
			return r
		}
	}
	return "unsat"
}
