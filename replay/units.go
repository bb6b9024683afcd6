package main

// A bounded stand-in for what the contracts assume of loading a program's units: ProgramParser.LoadUnits,
// UnitParser.LoadFile and the ordering in UnitParsers (map iteration and a dependency, go-toposort, decide it).
// Bound: programs of up to three units, each with a constant X or without, every interface uses list over the
// other units, every order of the program's uses clause; some with uses in implementations, and some broken ones.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// perms gives all orders of all subsets (all orders of the whole with full)
func perms(l []int, full bool) [][]int {
	var out [][]int
	var rec func(acc []int, left []int)
	rec = func(acc, left []int) {
		if !full || len(left) == 0 {
			out = append(out, append([]int{}, acc...))
		}
		for i, x := range left {
			rest := append(append([]int{}, left[:i]...), left[i+1:]...)
			rec(append(append([]int{}, acc...), x), rest)
		}
	}
	rec(nil, l)
	return out
}

type unitCase struct {
	has   []bool  // unit i declares X
	intf  [][]int // uses of the interface
	impl  [][]int // uses of the implementation
	order []int   // uses of the program
	prog  bool    // the program declares X
}

func (u unitCase) encode() Case {
	n := []int{len(u.has)}
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	l := func(x []int) { n = append(n, len(x)); n = append(n, x...) }
	for i := range u.has {
		n = append(n, b(u.has[i]))
		l(u.intf[i])
		l(u.impl[i])
	}
	l(u.order)
	n = append(n, b(u.prog))
	return Case{Kind: "units", Nums: n, Args: u.files()}
}

func decodeUnits(n []int) (u unitCase) {
	i := 0
	next := func() int { i++; return n[i-1] }
	l := func() (r []int) {
		for k := next(); k > 0; k-- {
			r = append(r, next())
		}
		return
	}
	k := next()
	for j := 0; j < k; j++ {
		u.has = append(u.has, next() == 1)
		u.intf = append(u.intf, l())
		u.impl = append(u.impl, l())
	}
	u.order = l()
	u.prog = next() == 1
	return
}

// files: the program first, then the units
func (u unitCase) files() []string {
	uses := func(l []int) string {
		if len(l) == 0 {
			return ""
		}
		var s []string
		for _, i := range l {
			s = append(s, fmt.Sprintf("Unit%d", i))
		}
		return "uses " + strings.Join(s, ", ") + ";\n"
	}
	var s []string
	for _, i := range u.order {
		s = append(s, fmt.Sprintf("unit%d in 'u%d.pas'", i, i))
	}
	q := ""
	for i := range u.has {
		if u.has[i] {
			q += fmt.Sprintf("  R := UNIT%d.x;\n", i)
		}
	}
	own := ""
	if u.prog {
		own = "const X = 9;\n"
	}
	out := []string{fmt.Sprintf("program Main;\nuses %s;\n%svar R: Integer;\nbegin\n  R := x;\n%send.\n", strings.Join(s, ", "), own, q)}
	for i := range u.has {
		x := ""
		if u.has[i] {
			x = fmt.Sprintf("  X = %d;\n", i)
		}
		out = append(out, fmt.Sprintf("unit Unit%d;\ninterface\n%sconst\n%s  Y%d = x;\nimplementation\n%sprocedure P%d;\nvar R: Integer;\nbegin\n  R := x;\nend;\nend.\n", i, uses(u.intf[i]), x, i, uses(u.impl[i]), i))
	}
	return out
}

// last: the last unit of the list which declares X, or -1
func (u unitCase) last(l []int) int {
	for k := len(l) - 1; k >= 0; k-- {
		if u.has[l[k]] {
			return l[k]
		}
	}
	return -1
}

func (u unitCase) cyclic() bool {
	state := make([]int, len(u.has))
	var visit func(i int) bool
	visit = func(i int) bool {
		if state[i] == 1 {
			return true
		}
		if state[i] == 2 {
			return false
		}
		state[i] = 1
		for _, j := range u.intf[i] {
			if visit(j) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	for i := range u.has {
		if visit(i) {
			return true
		}
	}
	return false
}

// xnames: what the names x in a tree are bound to, in order, each with the namespace it is qualified by
func xnames(n ast.Node) (out []*ast.QualId) {
	astcore.WalkDown(n, func(x astcore.Node) error {
		if q, ok := x.(*ast.QualId); ok && strings.ToLower(q.Ident.Name) == "x" {
			out = append(out, q)
		}
		return nil
	})
	return
}

func loadFiles(fs []string) (*parser.Program, error) {
	dir, err := os.MkdirTemp("", "gvcunits")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for i, t := range fs {
		f := "main.dpr"
		if i > 0 {
			f = fmt.Sprintf("u%d.pas", i-1)
		} else {
			t = strings.ReplaceAll(t, "in '", "in '"+dir+"/")
		}
		if err := os.WriteFile(filepath.Join(dir, f), []byte(t), 0o600); err != nil {
			panic(err)
		}
	}
	return parser.ParseProgram(filepath.Join(dir, "main.dpr"))
}

func checkUnits(c Case) string {
	if c.Kind == "files" { // no oracle but: it ends, with a tree or an error
		loadFiles(c.Args)
		return ""
	}
	u := decodeUnits(c.Nums)
	pr, err := loadFiles(u.files())
	if u.cyclic() {
		if err == nil {
			return "units which use each other in their interfaces were accepted"
		}
		return ""
	}
	if err != nil {
		return "rejected: " + err.Error()
	}
	if len(pr.Units) != len(u.has) {
		return fmt.Sprintf("%d units instead of %d", len(pr.Units), len(u.has))
	}
	// the declaration of X in each unit, and of the program
	decl := make([]*ast.ConstantDecl, len(u.has))
	unit := make([]*ast.Unit, len(u.has))
	for i := range u.has {
		unit[i] = pr.Units.ByName(fmt.Sprintf("unit%d", i))
		if unit[i] == nil {
			return fmt.Sprintf("Unit%d is missing", i)
		}
		for _, s := range unit[i].InterfaceSection.InterfaceDecls {
			for _, d := range s.(ast.ConstSection) {
				if d.Ident.Name == "X" {
					decl[i] = d
				}
			}
		}
		if (decl[i] != nil) != u.has[i] {
			return fmt.Sprintf("the declarations of Unit%d are not those of its file", i)
		}
	}
	is := func(where string, q *ast.QualId, want int) string {
		if want < 0 {
			if q.Ident.Ref != nil {
				return where + ": x is bound though nothing visible declares it"
			}
			return ""
		}
		if q.Ident.Ref == nil {
			return fmt.Sprintf("%s: x is not bound to the X of Unit%d", where, want)
		}
		if q.Ident.Ref.Node != astcore.DeclNode(decl[want]) {
			return fmt.Sprintf("%s: x is bound to another declaration than the X of Unit%d", where, want)
		}
		return ""
	}
	for i := range u.has {
		want := i
		if !u.has[i] {
			want = u.last(u.intf[i])
		}
		l := xnames(unit[i].InterfaceSection)
		if len(l) != 1 {
			return fmt.Sprintf("Unit%d: %d names x in the interface", i, len(l))
		}
		if m := is(fmt.Sprintf("interface of Unit%d", i), l[0], want); m != "" {
			return m
		}
		l = xnames(unit[i].ImplementationSection)
		if len(l) != 1 {
			return fmt.Sprintf("Unit%d: %d names x in the implementation", i, len(l))
		}
		if want < 0 {
			want = u.last(u.impl[i])
		}
		if m := is(fmt.Sprintf("implementation of Unit%d", i), l[0], want); m != "" {
			return m
		}
	}
	l := xnames(pr.Program)
	if u.prog {
		var own *ast.ConstantDecl
		for _, s := range pr.Program.ProgramBlock.Block.DeclSections {
			if cs, ok := s.(ast.ConstSection); ok {
				own = cs[0]
			}
		}
		if len(l) == 0 || l[0].Ident.Ref == nil || l[0].Ident.Ref.Node != astcore.DeclNode(own) {
			return "program: x is not bound to the X the program declares"
		}
	} else if m := is("program", l[0], u.last(u.order)); m != "" {
		return m
	}
	k := 1
	for i := range u.has {
		if u.has[i] {
			if m := is(fmt.Sprintf("program, Unit%d.x", i), l[k], i); m != "" {
				return m
			}
			k++
		}
	}
	return ""
}

func enumUnits(yield func(Case) bool) {
	// broken and unusual programs: no oracle but that they end with a tree or an error
	un := func(name, uses string) string {
		return "unit " + name + ";\ninterface\n" + uses + "const X = 1;\nimplementation\nend.\n"
	}
	main := func(uses string) string { return "program Main;\nuses " + uses + ";\nbegin\n  x;\nend.\n" }
	for _, fs := range [][]string{
		{main("Unit0 in 'u0.pas', Unit1 in 'u1.pas'"), un("Unit0", "uses Y;\n"), un("Unit0", "uses Y;\n")},
		{main("Unit0 in 'u0.pas', Unit1 in 'u1.pas'"), un("Unit0", ""), un("Unit0", "")},
		{main("Unit0 in 'u0.pas', Unit1 in 'u0.pas'"), un("Unit0", "")},
		{main("Unit0 in 'u0.pas', UNIT0 in 'u0.pas'"), un("Unit0", "")},
		{main("Unit0 in 'u0.pas'"), un("Other", "")},
		{main("Unit0 in 'u0.pas'"), un("Main", "")},
		{main("Unit0 in 'u9.pas'"), un("Unit0", "")},
		{main("Unit0"), un("Unit0", "")},
		{main("SysUtils, Unit0 in 'u0.pas'"), un("Unit0", "uses SysUtils;\n")},
		{main("SysUtils, Unit0 in 'u0.pas'"), un("Unit0", "uses Nowhere;\n")},
		{main("Unit0 in 'u0.pas'"), un("Unit0", "uses Unit0;\n")},
		{main("Unit0 in 'u0.pas'"), un("Unit0", "uses Nowhere, Nowhere;\n")},
		{main("Unit0 in 'u0.pas'"), ""},
		{main("Unit0 in 'u0.pas'"), "unit Unit0;\ninterface\n"},
		{main("Unit0 in 'u0.pas'"), "unit Unit0;\ninterface\nimplementation\n"},
		{main("Unit0 in 'u0.pas'"), "unit Unit0;\ninterface\nconst X = 1, Y = ;\nimplementation\nend.\n"},
		{"program Main;\nuses Unit0 in 'u0.pas';\nbegin\n  SysUtils.x;\nend.\n", un("Unit0", "")},
		{"program Main;\nuses SysUtils;\nbegin\n  SysUtils.x;\nend.\n"},
		{""},
	} {
		if !yield(Case{Kind: "files", Args: fs}) {
			return
		}
	}
	for n := 1; n <= 3; n++ {
		var others [][]int
		all := []int{}
		for i := 0; i < n; i++ {
			all = append(all, i)
		}
		for i := 0; i < n; i++ {
			var o []int
			for j := 0; j < n; j++ {
				if j != i {
					o = append(o, j)
				}
			}
			others = append(others, o)
		}
		orders := perms(all, true)
		count := 0
		for mask := 0; mask < 1<<n; mask++ {
			var rec func(i int, intf [][]int) bool
			rec = func(i int, intf [][]int) bool {
				if i < n {
					for _, l := range perms(others[i], false) {
						if !rec(i+1, append(append([][]int{}, intf...), l)) {
							return false
						}
					}
					return true
				}
				count++
				u := unitCase{intf: intf, impl: make([][]int, n)}
				for k := 0; k < n; k++ {
					u.has = append(u.has, mask&(1<<k) != 0)
				}
				for k, o := range orders {
					u.order = o
					u.prog = (count+k)%3 == 0
					// the implementation of one unit uses what its interface does not
					u.impl = make([][]int, n)
					if w := (count + k) % (n + 1); w < n && len(intf[w]) == 0 {
						ps := perms(others[w], true)
						u.impl[w] = ps[(count+k)%len(ps)]
					}
					if !yield(u.encode()) {
						return false
					}
				}
				return true
			}
			if !rec(0, nil) {
				return
			}
		}
	}
}

func init() {
	props["units"] = &prop{enum: enumUnits, check: checkUnits}
}
