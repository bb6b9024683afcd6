package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // const int true false app and or not => = ite + - * < <= select store forall
	S    string // symbol / function name
	I    int64
	Args []*Term
	Sort string
	id   int
	seq  int  // creation number of the newest symbol occurring in the term
	bv   bool // contains a bound variable
	size int
	trig [][]*Term
}

type Ctx struct {
	tab     map[string]*Term
	nid     int
	nsym    int
	decls   []string // pending declarations (flushed by the session)
	symDecl map[string]bool
	fnDecl  map[string]bool
	ub      map[*Term]map[*Term]int64 // alloc const -> ancestors -> offset: const >= anc+off
	strLits map[string]*Term
	strList []string
	facts   []*Term // pending unconditional facts (string literals, boxing)
	boxed   map[*Term]bool
	loMemo  map[*Term]int
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, symDecl: map[string]bool{}, fnDecl: map[string]bool{},
		ub: map[*Term]map[*Term]int64{}, strLits: map[string]*Term{}, boxed: map[*Term]bool{}}
}

func (c *Ctx) mk(op, s string, i int64, sortn string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(i, 10))
	b.WriteByte('|')
	b.WriteString(sortn)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.nid++
	t := &Term{Op: op, S: s, I: i, Sort: sortn, Args: args, id: c.nid, size: 1}
	for _, a := range args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		if a.bv {
			t.bv = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) True() *Term       { return c.mk("true", "", 0, "Bool") }
func (c *Ctx) False() *Term      { return c.mk("false", "", 0, "Bool") }
func (c *Ctx) Int(i int64) *Term { return c.mk("int", "", i, "Int") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' {
			b.WriteRune(r)
		} else if r == '*' {
			b.WriteString("ptr.")
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Fresh makes a new symbol.
func (c *Ctx) Fresh(name, sortn string) *Term {
	c.nsym++
	n := fmt.Sprintf("%s!%d", sanitize(name), c.nsym)
	t := c.mk("const", n, 0, sortn)
	t.seq = c.nsym
	c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", n, sortn))
	return t
}

// Named makes (or returns) a global symbol, oldest sequence number.
func (c *Ctx) Named(name, sortn string) *Term {
	n := sanitize(name)
	t := c.mk("const", n, 0, sortn)
	if !c.symDecl[n] {
		c.symDecl[n] = true
		c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", n, sortn))
	}
	return t
}

// BV makes a bound variable.
func (c *Ctx) BV(name, sortn string) *Term {
	c.nsym++
	t := c.mk("const", fmt.Sprintf("%s?%d", sanitize(name), c.nsym), 0, sortn)
	t.bv = true
	return t
}

// App applies an uninterpreted function, declaring it on demand.
func (c *Ctx) App(fn, sortn string, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Named(fn, sortn)
	}
	n := sanitize(fn)
	if !c.fnDecl[n] {
		c.fnDecl[n] = true
		var ss []string
		for _, a := range args {
			ss = append(ss, a.Sort)
		}
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), sortn))
	}
	return c.mk("app", n, 0, sortn, args...)
}

func (t *Term) isTrue() bool  { return t.Op == "true" }
func (t *Term) isFalse() bool { return t.Op == "false" }
func (t *Term) isInt() bool   { return t.Op == "int" }

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.Args[0]
	}
	return c.mk("not", "", 0, "Bool", a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isTrue() || seen[a] {
			return true
		}
		if a.isFalse() {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", 0, "Bool", out...)
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.isFalse() || seen[a] {
			continue
		}
		if a.isTrue() {
			return a
		}
		xs := []*Term{a}
		if a.Op == "or" {
			xs = a.Args
		}
		for _, x := range xs {
			if seen[x] {
				continue
			}
			if seen[c.Not(x)] {
				return c.True()
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	// factor complementary guards: (p & c) | (p & !c) -> p
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(out) && !changed; i++ {
			for j := i + 1; j < len(out) && !changed; j++ {
				if m := c.orPair(out[i], out[j]); m != nil {
					out[i] = m
					out = append(out[:j], out[j+1:]...)
					changed = true
				}
			}
		}
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", 0, "Bool", out...)
}

func (c *Ctx) orPair(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	if len(ca) > 60 || len(cb) > 60 {
		return nil
	}
	sa, sb := map[*Term]bool{}, map[*Term]bool{}
	for _, x := range ca {
		sa[x] = true
	}
	for _, x := range cb {
		sb[x] = true
	}
	var common, da, db []*Term
	for _, x := range ca {
		if sb[x] {
			common = append(common, x)
		} else {
			da = append(da, x)
		}
	}
	for _, x := range cb {
		if !sa[x] {
			db = append(db, x)
		}
	}
	if len(da) == 0 || len(db) == 0 {
		return c.And(common...)
	}
	if len(da) == 1 && len(db) == 1 && da[0] == c.Not(db[0]) {
		return c.And(common...)
	}
	// p&x | p&!x&y -> p&(x|y) : absorb the negated part
	if len(da) == 1 {
		for i, y := range db {
			if y == c.Not(da[0]) {
				rest := append(append([]*Term{}, db[:i]...), db[i+1:]...)
				return c.And(append(append([]*Term{}, common...), c.mkOr2(da[0], c.And(rest...)))...)
			}
		}
	}
	if len(db) == 1 {
		for i, y := range da {
			if y == c.Not(db[0]) {
				rest := append(append([]*Term{}, da[:i]...), da[i+1:]...)
				return c.And(append(append([]*Term{}, common...), c.mkOr2(db[0], c.And(rest...)))...)
			}
		}
	}
	return nil
}

func (c *Ctx) mkOr2(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.True()
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	return c.mk("or", "", 0, "Bool", a, b)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() || a == b {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk("=>", "", 0, "Bool", a, b)
}

// offset form: base + k
func split(t *Term) (*Term, int64) {
	if t.Op == "int" {
		return nil, t.I
	}
	if t.Op == "+" && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].I
	}
	return t, 0
}

func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "true" || t.Op == "false" || (t.Op == "const" && strings.HasPrefix(t.S, "lit."))
}

// distinctRefs: syntactically certain that a != b
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	ba, ka := split(a)
	bb, kb := split(b)
	if ba == bb && ka != kb {
		return true
	}
	if a.Sort != "Int" {
		return false
	}
	return c.less(ba, ka, bb, kb) || c.less(bb, kb, ba, ka)
}

// certain that a+ka < b+kb from allocation order
func (c *Ctx) less(a *Term, ka int64, b *Term, kb int64) bool {
	if b == nil || a == nil {
		// literals (nil, globals) are below every allocation counter
		if a == nil && b != nil && ka <= 0 {
			if _, ok := c.ub[b]; ok && kb >= 0 {
				return true
			}
		}
		return false
	}
	if m, ok := c.ub[b]; ok {
		if off, ok := m[a]; ok && ka < off+kb {
			return true
		}
		// values known to lie below an allocation counter
	}
	return false
}

// NewAlloc makes an allocation counter >= every base+off that is common to all parents.
func (c *Ctx) NewAlloc(parents ...*Term) *Term {
	t := c.Fresh("alloc", "Int")
	var acc map[*Term]int64
	for _, p := range parents {
		b, k := split(p)
		m := map[*Term]int64{}
		if b != nil {
			m[b] = k
			for a, o := range c.ub[b] {
				m[a] = o + k
			}
		}
		if acc == nil {
			acc = m
		} else {
			for a, o := range acc {
				if o2, ok := m[a]; !ok {
					delete(acc, a)
				} else if o2 < o {
					acc[a] = o2
				}
			}
		}
	}
	if acc == nil {
		acc = map[*Term]int64{}
	}
	c.ub[t] = acc
	return t
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a.Str(), a.Sort, b.Str(), b.Sort))
	}
	if c.distinct(a, b) {
		return c.False()
	}
	if a.Sort == "Bool" {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.Op == "app" && b.Op == "app" && a.S == b.S && (a.S == "mkI" || a.S == "mkS" || a.S == "mkP2") {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.Op == "ite" && (isLit(b) || isCtor(b)) {
		x, y := c.Eq(a.Args[1], b), c.Eq(a.Args[2], b)
		if isLit(x) || isLit(y) {
			return c.Ite(a.Args[0], x, y)
		}
	}
	if b.Op == "ite" && (isLit(a) || isCtor(a)) {
		return c.Eq(b, a)
	}
	if a.Op == "+" && b.Op == "int" && a.Args[1].Op == "int" {
		return c.Eq(a.Args[0], c.Int(b.I-a.Args[1].I))
	}
	if b.Op == "+" && a.Op == "int" && b.Args[1].Op == "int" {
		return c.Eq(b.Args[0], c.Int(a.I-b.Args[1].I))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", 0, "Bool", a, b)
}

func isCtor(t *Term) bool { return t.Op == "app" && (t.S == "mkI" || t.S == "mkS") }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a.Sort != b.Sort {
		panic("Ite sort mismatch " + a.Sort + " " + b.Sort + " " + a.Str() + " " + b.Str())
	}
	if a.Sort == "Bool" {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if g.Op == "not" {
		return c.Ite(g.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == g {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == g {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// stores to the same place
	if a.Op == "store" && b.Op == "store" && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] {
		return c.Store(a.Args[0], a.Args[1], c.Ite(g, a.Args[2], b.Args[2]))
	}
	if a.Op == "store" && a.Args[0] == b {
		return c.Store(b, a.Args[1], c.Ite(g, a.Args[2], c.Select(b, a.Args[1])))
	}
	if b.Op == "store" && b.Args[0] == a {
		return c.Store(a, b.Args[1], c.Ite(g, c.Select(a, b.Args[1]), b.Args[2]))
	}
	return c.mk("ite", "", 0, a.Sort, g, a, b)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return c.Int(a.I + b.I)
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.I == 0 {
			return a
		}
		if a.Op == "+" && a.Args[1].isInt() {
			return c.Add(a.Args[0], c.Int(a.Args[1].I+b.I))
		}
		return c.mk("+", "", 0, "Int", a, b)
	}
	if a.Op == "+" && a.Args[1].isInt() {
		return c.Add(c.Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && b.Args[1].isInt() {
		return c.Add(c.Add(a, b.Args[0]), b.Args[1])
	}
	return c.mk("+", "", 0, "Int", a, b)
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.isInt() {
		return c.Int(-a.I)
	}
	return c.mk("-", "", 0, "Int", c.Int(0), a)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if b.isInt() {
		return c.Add(a, c.Int(-b.I))
	}
	if a == b {
		return c.Int(0)
	}
	ba, ka := split(a)
	bb, kb := split(b)
	if ba == bb {
		return c.Int(ka - kb)
	}
	if b.Op == "+" && b.Args[1].isInt() {
		return c.Add(c.Sub(a, b.Args[0]), c.Int(-b.Args[1].I))
	}
	if a.Op == "+" && a.Args[1].isInt() {
		return c.Add(c.Sub(a.Args[0], b), a.Args[1])
	}
	return c.mk("-", "", 0, "Int", a, b)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return c.Int(a.I * b.I)
	}
	return c.mk("*", "", 0, "Int", a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a == b {
		return c.False()
	}
	if a.isInt() && b.isInt() {
		return c.Bool(a.I < b.I)
	}
	ba, ka := split(a)
	bb, kb := split(b)
	if ba == bb {
		return c.Bool(ka < kb)
	}
	if c.less(ba, ka, bb, kb) {
		return c.True()
	}
	return c.mk("<", "", 0, "Bool", a, b)
}
func (c *Ctx) Le(a, b *Term) *Term { return c.Not(c.Lt(b, a)) }

func arrElem(s string) string {
	// (Array Int X) or (Array Str X)...
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	// skip index sort
	if strings.HasPrefix(s, "(") {
		d := 0
		for i, r := range s {
			if r == '(' {
				d++
			}
			if r == ')' {
				d--
				if d == 0 {
					return strings.TrimSpace(s[i+1:])
				}
			}
		}
	}
	i := strings.IndexByte(s, ' ')
	return s[i+1:]
}

func ArrS(idx, el string) string { return "(Array " + idx + " " + el + ")" }

func (c *Ctx) Select(a, i *Term) *Term {
	for steps := 0; steps < 100000; steps++ {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if c.distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "ite" {
			x, y := c.Select(a.Args[1], i), c.Select(a.Args[2], i)
			if x == y {
				return x
			}
			return c.Ite(a.Args[0], x, y)
		}
		break
	}
	return c.mk("select", "", 0, arrElem(a.Sort), a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if arrElem(a.Sort) != v.Sort {
		panic("Store sort mismatch: " + a.Sort + " <- " + v.Sort + " " + v.Str())
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", "", 0, a.Sort, a, i, v)
}

func (c *Ctx) ConstArr(sortn string, v *Term) *Term { return c.mk("constarr", "", 0, sortn, v) }

func (c *Ctx) ctor(name, sortn string, args ...*Term) *Term {
	return c.mk("app", name, 0, sortn, args...)
}
func (c *Ctx) MkI(tag, val *Term) *Term { return c.ctor("mkI", "Iface", tag, val) }
func (c *Ctx) MkS(arr, off, n *Term) *Term {
	return c.ctor("mkS", "Slice", arr, off, n)
}
func (c *Ctx) proj(name, ctor string, idx int, sortn string, t *Term) *Term {
	if t.Op == "app" && t.S == ctor {
		return t.Args[idx]
	}
	if t.Op == "ite" {
		return c.Ite(t.Args[0], c.proj(name, ctor, idx, sortn, t.Args[1]), c.proj(name, ctor, idx, sortn, t.Args[2]))
	}
	return c.mk("app", name, 0, sortn, t)
}
func (c *Ctx) ITag(t *Term) *Term { return c.proj("itag", "mkI", 0, "Int", t) }
func (c *Ctx) IVal(t *Term) *Term { return c.proj("ival", "mkI", 1, "Int", t) }
func (c *Ctx) SArr(t *Term) *Term { return c.proj("sarr", "mkS", 0, "Int", t) }
func (c *Ctx) SOff(t *Term) *Term { return c.proj("soff", "mkS", 1, "Int", t) }
func (c *Ctx) SLen(t *Term) *Term { return c.proj("slen", "mkS", 2, "Int", t) }

// StrLit: a string literal.
func (c *Ctx) StrLit(s string) *Term {
	if t, ok := c.strLits[s]; ok {
		return t
	}
	n := "lit." + strconv.Itoa(len(c.strLits))
	t := c.mk("const", n, 0, "Str")
	c.strLits[s] = t
	c.strList = append(c.strList, s)
	c.decls = append(c.decls, fmt.Sprintf("(declare-const %s Str) ; %q", n, s))
	c.decls = append(c.decls, fmt.Sprintf("(assert (= (litid %s) %d))", n, len(c.strLits)))
	rs := []rune(s)
	c.decls = append(c.decls, fmt.Sprintf("(assert (= (strlen %s) %d))", n, len(rs)))
	c.fnDecl["str1"] = true
	if len(rs) == 1 {
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (str1 %d) %s))", rs[0], n))
	}
	if len(rs) == 2 {
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (str2 %d %d) %s))", rs[0], rs[1], n))
	}
	up, lo := strings.ToUpper(s), strings.ToLower(s)
	if up == s {
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (upper %s) %s))", n, n))
	} else {
		u := c.StrLit(up)
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (upper %s) %s))", n, u.S))
	}
	if lo == s {
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (lower %s) %s))", n, n))
	} else {
		u := c.StrLit(lo)
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (lower %s) %s))", n, u.S))
	}
	return t
}

func (c *Ctx) litVal(t *Term) (string, bool) {
	if t.Op != "const" || !strings.HasPrefix(t.S, "lit.") {
		return "", false
	}
	i, err := strconv.Atoi(t.S[4:])
	if err != nil {
		return "", false
	}
	return c.strList[i], true
}

// Forall builds a quantified formula.
func (c *Ctx) Forall(vars []*Term, trig [][]*Term, body *Term) *Term {
	if body.isTrue() {
		return body
	}
	for i, g := range trig {
		var ng []*Term
		for _, x := range g {
			ng = append(ng, patTerms(x)...)
		}
		trig[i] = ng
	}
	trig = c.trigCases(trig)
	var b strings.Builder
	for _, v := range vars {
		b.WriteString(v.S + ":" + v.Sort + " ")
	}
	for _, g := range trig {
		b.WriteString("{")
		for _, x := range g {
			b.WriteString(strconv.Itoa(x.id) + " ")
		}
		b.WriteString("}")
	}
	args := append(append([]*Term{}, vars...), body)
	t := c.mk("forall", b.String(), int64(len(vars)), "Bool", args...)
	t.trig = trig
	// free bound variables of outer quantifiers?
	t.bv = false
	inner := map[*Term]bool{}
	for _, v := range vars {
		inner[v] = true
	}
	var walk func(x *Term, bound map[*Term]bool) bool
	memo := map[*Term]bool{}
	walk = func(x *Term, bound map[*Term]bool) bool {
		if !x.bv {
			return false
		}
		if x.Op == "const" {
			return !bound[x]
		}
		if x.Op == "forall" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range x.Args[:x.I] {
				nb[v] = true
			}
			return walk(x.Args[x.I], nb)
		}
		if v, ok := memo[x]; ok {
			return v
		}
		r := false
		for _, a := range x.Args {
			if walk(a, bound) {
				r = true
				break
			}
		}
		memo[x] = r
		return r
	}
	t.bv = walk(body, inner)
	return t
}

func (t *Term) Str() string {
	var b strings.Builder
	n := 0
	t.write(&b, func(x *Term) (string, bool) {
		n++
		if n > 400 {
			return "...", true
		}
		return "", false
	})
	return b.String()
}

func (t *Term) write(b *strings.Builder, named func(*Term) (string, bool)) {
	if s, ok := named(t); ok {
		b.WriteString(s)
		return
	}
	switch t.Op {
	case "const":
		b.WriteString(t.S)
	case "int":
		if t.I < 0 {
			fmt.Fprintf(b, "(- %d)", -t.I)
		} else {
			fmt.Fprintf(b, "%d", t.I)
		}
	case "true", "false":
		b.WriteString(t.Op)
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.Sort)
		t.Args[0].write(b, named)
		b.WriteString(")")
	case "forall":
		b.WriteString("(forall (")
		for _, v := range t.Args[:t.I] {
			fmt.Fprintf(b, "(%s %s)", v.S, v.Sort)
		}
		b.WriteString(") ")
		if len(t.trig) > 0 {
			b.WriteString("(! ")
		}
		t.Args[t.I].write(b, named)
		if len(t.trig) > 0 {
			for _, g := range t.trig {
				b.WriteString(" :pattern (")
				for i, x := range g {
					if i > 0 {
						b.WriteString(" ")
					}
					x.write(b, named)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		op := t.Op
		if op == "app" {
			op = t.S
		}
		b.WriteString("(" + op)
		for _, a := range t.Args {
			b.WriteString(" ")
			a.write(b, named)
		}
		b.WriteString(")")
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Ix is the array index of slice element i: offset + i, kept as one symbol so that it can be a trigger.
func (c *Ctx) Ix(off, i *Term) *Term {
	if off.isInt() {
		return c.Add(off, i)
	}
	return c.App("ix", "Int", off, i)
}

// patTerms returns the maximal subterms of x that mention a bound variable and may occur in a pattern.
func patTerms(x *Term) []*Term {
	switch x.Op {
	case "and", "or", "not", "=", "=>", "ite", "<", "<=", "+", "-", "*":
		var out []*Term
		for _, a := range x.Args {
			if a.bv {
				out = append(out, patTerms(a)...)
			}
		}
		return out
	}
	if x.Op == "const" {
		return nil
	}
	return []*Term{x}
}

func iteCond(t *Term) *Term {
	if !strings.Contains("ite select store app + - *", t.Op) || len(t.Args) == 0 {
		return nil
	}
	if t.Op == "ite" && !t.Args[0].bv {
		return t.Args[0]
	}
	for _, a := range t.Args {
		if r := iteCond(a); r != nil {
			return r
		}
	}
	return nil
}

// trigCases: a pattern may not contain if-then-else; each case becomes a pattern of its own.
func (c *Ctx) trigCases(trig [][]*Term) [][]*Term {
	var out [][]*Term
	for len(trig) > 0 {
		g := trig[0]
		trig = trig[1:]
		var cond *Term
		for _, x := range g {
			if cond = iteCond(x); cond != nil {
				break
			}
		}
		if cond == nil || len(trig)+len(out) > 12 {
			out = append(out, g)
			continue
		}
		for _, v := range []bool{true, false} {
			m := map[*Term]*Term{cond: c.Bool(v)}
			memo := map[*Term]*Term{}
			var ng []*Term
			for _, x := range g {
				x = c.rebuild(x, m, memo)
				if x.bv {
					ng = append(ng, patTerms(x)...)
				}
			}
			trig = append(trig, ng)
		}
	}
	seen := map[string]bool{}
	var res [][]*Term
	for _, g := range out {
		k := ""
		for _, x := range g {
			k += strconv.Itoa(x.id) + " "
		}
		if !seen[k] && len(g) > 0 {
			seen[k] = true
			res = append(res, g)
		}
	}
	return res
}
