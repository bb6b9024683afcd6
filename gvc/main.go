package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

type task struct {
	key  string
	ct   *Contract
	fn   *ssa.Function
	impl types.Type
	init *ssa.Package
}

func (w *World) tasks() []task {
	var out []task
	for _, k := range sortedKeys(w.contracts) {
		ct := w.contracts[k]
		if ct.trusted || ct.extern {
			continue
		}
		if ct.iface {
			i := strings.LastIndex(k, ".")
			it := w.typeByName(k[:i])
			if it == nil {
				out = append(out, task{key: k, ct: ct})
				continue
			}
			iu, ok := under(it).(*types.Interface)
			if !ok {
				out = append(out, task{key: k, ct: ct})
				continue
			}
			var m *types.Func
			for j := 0; j < iu.NumMethods(); j++ {
				if iu.Method(j).Name() == k[i+1:] {
					m = iu.Method(j)
				}
			}
			if m == nil {
				out = append(out, task{key: k, ct: ct})
				continue
			}
			for _, t := range w.concrete {
				if !types.Implements(t, iu) || slices.Contains(ct.except, shortT(t)) {
					continue
				}
				sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
				fn := w.prog.MethodValue(sel)
				// a value type and its pointer share the method: the wrapper adds nothing but a load
				if p, ok := t.(*types.Pointer); ok && types.Implements(p.Elem(), iu) {
					continue
				}
				out = append(out, task{key: k + " by " + shortT(t), ct: ct, fn: fn, impl: t})
			}
			continue
		}
		if ct.inline {
			continue
		}
		if w.funcs[k] == nil {
			if fn := w.promoted(k); fn != nil {
				out = append(out, task{key: k, ct: ct, fn: fn})
				continue
			}
			w.loadErr = append(w.loadErr, "the function named by the contract of "+k+" does not exist in this tree; its callers are checked against what they call instead")
			continue
		}
		out = append(out, task{key: k, ct: ct, fn: w.funcs[k]})
	}
	for _, p := range w.pkgs {
		has := false
		for n := range w.globalInvs {
			if strings.HasPrefix(n, p.Pkg.Name()+".") {
				has = true
			}
		}
		if has {
			out = append(out, task{key: p.Pkg.Name() + ".init", init: p})
		}
	}
	return out
}

// promoted finds the method of the type named by the contract when the type gets it from an embedded field.
func (w *World) promoted(k string) *ssa.Function {
	i := strings.LastIndex(k, ".")
	if i < 0 {
		return nil
	}
	tn := k[:i]
	if j := strings.Index(tn, "(*"); j >= 0 {
		tn = "*" + tn[:j] + strings.TrimSuffix(tn[j+2:], ")")
	}
	if !strings.Contains(tn, ".") {
		return nil
	}
	t := w.typeByName(tn)
	if t == nil {
		return nil
	}
	sel := types.NewMethodSet(t).Lookup(nil, k[i+1:])
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

func (w *World) runTask(t task) *FnResult {
	if t.init != nil {
		return w.runInit(t.init, true)
	}
	if t.fn == nil || len(t.fn.Blocks) == 0 {
		return &FnResult{Key: t.key, Obs: []ObRes{{Name: t.key + "/engine: the function named by the contract no longer exists", Kind: "missing", OK: false}}}
	}
	return w.verify(t.key, t.ct, t.fn, t.impl)
}

func (w *World) runAll(ts []task) []*FnResult {
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].cost() > ts[j].cost() })
	res := make([]*FnResult, len(ts))
	var wg sync.WaitGroup
	ch := make(chan int)
	n := runtime.NumCPU()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				res[j] = w.runTask(ts[j])
			}
		}()
	}
	for j := range ts {
		ch <- j
	}
	close(ch)
	wg.Wait()
	return res
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gvc verify|ssa|check …")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	spec := fs.String("spec", "/verif/contracts", "contracts")
	match := fs.String("m", "", "only functions whose key contains this")
	verbose := fs.Bool("v", false, "")
	inv := fs.Bool("inv", false, "")
	dump := fs.String("dump", "", "directory for failing queries")
	nofb := fs.Bool("nofb", false, "no fallback solvers")
	tmo := fs.Int("t", 4000, "query timeout ms")
	slow := fs.Bool("slow", false, "")
	fs.Parse(os.Args[2:])
	if cmd == "replay" {
		os.Exit(replayFile(fs.Arg(1), *repo, fs.Arg(0)))
	}
	w := newWorld(*repo)
	w.showPiece = *inv
	w.verbose, w.verboseInv, w.dumpDir, w.noFallback, w.timeoutMs = *verbose, *inv, *dump, *nofb, *tmo
	t0 := time.Now()
	if err := w.load(); err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if cmd == "ssa" {
		for _, k := range sortedKeys(w.funcs) {
			if strings.Contains(k, *match) {
				fmt.Println("###", k)
				w.funcs[k].WriteTo(os.Stdout)
			}
		}
		return
	}
	if cmd == "keys" {
		for _, k := range sortedKeys(w.funcs) {
			fmt.Println(k)
		}
		return
	}
	w.loadSpecs(*spec)
	for _, p := range w.pkgs {
		r := w.runInit(p, false)
		if r.Err != "" && *verbose {
			fmt.Println("init", p.Pkg.Name(), r.Err)
		}
	}
	if cmd == "check" {
		os.Exit(w.check(fs.Args(), t0))
	}
	var ts []task
	for _, t := range w.tasks() {
		if *match == "" || strings.Contains(t.key, *match) {
			ts = append(ts, t)
		}
	}
	rs := w.runAll(ts)
	tot, ok := 0, 0
	sort.Slice(rs, func(i, j int) bool { return rs[i].Ms > rs[j].Ms })
	for i, r := range rs {
		bad := 0
		for _, o := range r.Obs {
			tot++
			if o.OK {
				ok++
			} else {
				bad++
			}
		}
		if *slow && i < 15 || bad > 0 || *match != "" {
			fmt.Printf("%-60s obs %3d bad %d %6dms\n", r.Key, len(r.Obs), bad, r.Ms)
		}
		for _, o := range r.Obs {
			if !o.OK {
				fmt.Printf("   FAIL %s [%s] %v %s\n", o.Name, o.Pos, o.Props, o.Detail)
			}
		}
		if *verbose {
			for _, n := range r.Notes {
				fmt.Println("   note:", n)
			}
			for _, n := range r.Inlined {
				fmt.Println("   inlined:", n)
			}
			for _, n := range r.Invs {
				fmt.Println("   inv:", n)
			}
			for _, n := range r.Edges {
				fmt.Println("   edge:", n)
			}
		}
	}
	for _, m := range w.recursionProblems(rs) {
		fmt.Println("RECURSION", m)
	}
	fmt.Printf("functions %d obligations %d discharged %d queries %d fallback %d solver %.1fs errors %d wall %.1fs\n", len(rs), tot, ok, statQueries, statFallback, float64(statSolverNs)/1e9, solverErrors.Load(), time.Since(t0).Seconds())
}

// recursionProblems: every cycle of contract calls must contain a strictly decreasing step and no step without measure.
func (w *World) recursionProblems(rs []*FnResult) []string {
	type ed struct {
		to   string
		kind string
		pos  string
	}
	norm := func(k string) string {
		if i := strings.Index(k, " by "); i >= 0 {
			return k[:i]
		}
		return k
	}
	g := map[string][]ed{}
	for _, r := range rs {
		for _, x := range r.Edges {
			g[norm(x.From)] = append(g[norm(x.From)], ed{norm(x.To), x.Kind, x.Pos})
		}
	}
	reach := func(from, to string, weakOnly bool) bool {
		seen := map[string]bool{}
		st := []string{from}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == to {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			for _, y := range g[x] {
				if weakOnly && y.kind == "strict" {
					continue
				}
				st = append(st, y.to)
			}
		}
		return false
	}
	var out []string
	for _, f := range sortedKeys(g) {
		for _, x := range g[f] {
			if x.kind == "bad" && reach(x.to, f, false) {
				out = append(out, fmt.Sprintf("%s -> %s at %s: recursive call without a decreasing measure", f, x.to, x.pos))
			}
			if x.kind == "weak" && reach(x.to, f, true) {
				out = append(out, fmt.Sprintf("%s -> %s at %s: recursion cycle on which no measure strictly decreases", f, x.to, x.pos))
			}
		}
	}
	return out
}
