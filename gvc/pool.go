package main

import (
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// cost: a guess at how long a task takes, so that long ones are started first
func (t task) cost() int {
	if t.init != nil {
		return 1 << 30
	}
	if t.fn == nil {
		return 0
	}
	n := 0
	for _, b := range t.fn.Blocks {
		n += len(b.Instrs)
	}
	if t.ct != nil {
		n *= 3 + len(t.ct.ensures)
	}
	return n
}

// runClosure verifies the tasks in start and then, as soon as they are known to be used, the functions among all whose
// contracts those proofs rest on.
func (w *World) runClosure(start, all []task) map[string]*FnResult {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	done := map[string]bool{}
	out := map[string]*FnResult{}
	var queue []task
	running := 0
	add := func(t task) {
		if !done[t.key] {
			done[t.key] = true
			queue = append(queue, t)
		}
	}
	for _, t := range start {
		add(t)
	}
	byBase := map[string][]task{}
	for _, t := range all {
		if t.init == nil {
			byBase[baseKey(t.key)] = append(byBase[baseKey(t.key)], t)
		}
	}
	// those which the calls in the code lead to are known from the start: long ones should not be met last
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		for _, a := range fn.AnonFuncs {
			walk(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil || len(callee.Blocks) == 0 {
					continue
				}
				key := w.keyOf(callee)
				ct := w.contracts[key]
				if ct != nil && !ct.inline {
					for _, x := range byBase[key] {
						add(x)
					}
					if ct.trusted {
						continue
					}
				}
				if callee.Pkg != nil && strings.HasPrefix(callee.Pkg.Pkg.Path(), "github.com/akm/tparser") {
					walk(callee)
				}
			}
		}
	}
	for _, t := range start {
		walk(t.fn)
	}
	order := func() { sort.SliceStable(queue, func(i, j int) bool { return queue[i].cost() > queue[j].cost() }) }
	order()
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for {
				for len(queue) == 0 && running > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					cond.Broadcast()
					return
				}
				t := queue[0]
				queue = queue[1:]
				running++
				mu.Unlock()
				r := w.runTask(t)
				mu.Lock()
				running--
				out[t.key] = r
				for _, u := range r.Used {
					for _, x := range byBase[u] {
						add(x)
					}
				}
				order()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	return out
}
