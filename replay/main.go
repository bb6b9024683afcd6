// Command zz_verif_replay searches concrete inputs for a violation of one property of the tree it is
// built from. It is used only after the verifier has rejected an obligation (to attach a failing input)
// and, in thorough runs, as a bounded cross-check of the specification against the running code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Case is one concrete input.
type Case struct {
	Kind string   `json:"kind"`
	Text string   `json:"text,omitempty"`
	Args []string `json:"args,omitempty"`
	Nums []int    `json:"nums,omitempty"`
}

type prop struct {
	// fixed yields deterministic cases in order; nil when done
	enum func(yield func(Case) bool)
	gen  func(r *rand.Rand) Case
	// check returns "" when the property holds on the case
	check func(c Case) string
}

var props = map[string]*prop{}

func guarded(p *prop, c Case) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("panic: %v\n%s", x, st)
		}
	}()
	return p.check(c)
}

// run executes the check with a watchdog; hang is reported as a violation.
func run(p *prop, c Case) (string, bool) {
	ch := make(chan string, 1)
	go func() { ch <- guarded(p, c) }()
	deadline := time.After(4 * time.Second)
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case m := <-ch:
			return m, false
		case <-deadline:
			return "did not terminate within 4 s", true
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				return "did not terminate (memory grows without bound)", true
			}
		}
	}
}

func main() {
	pn := flag.String("p", "", "property")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Int("budget", 60, "seconds")
	hints := flag.String("hints", "", "")
	out := flag.String("out", "", "")
	one := flag.String("one", "", "")
	flag.Parse()
	_ = hints
	debug.SetMaxStack(256 << 20)
	stdlog.SetOutput(io.Discard)
	p := props[*pn]
	if p == nil {
		names := []string{}
		for n := range props {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println("no replay oracle for", *pn, "known:", strings.Join(names, " "))
		os.Exit(3)
	}
	if *one != "" {
		b, err := os.ReadFile(*one)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var doc struct {
			Case Case `json:"case"`
		}
		json.Unmarshal(b, &doc)
		m, _ := run(p, doc.Case)
		if m != "" {
			fmt.Println("VIOLATED:", m)
			os.Exit(1)
		}
		fmt.Println("holds on this input")
		return
	}
	end := time.Now().Add(time.Duration(*budget) * time.Second)
	nEnum, nGen := 0, 0
	var foundCase *Case
	var foundMsg string
	try := func(c Case) bool {
		m, hang := run(p, c)
		if m != "" {
			cc := c
			foundCase, foundMsg = &cc, m
			if !hang {
				shrink(p, foundCase, &foundMsg)
			}
			return false
		}
		return time.Now().Before(end)
	}
	half := time.Now().Add(time.Duration(*budget) * time.Second / 2)
	if p.enum != nil {
		p.enum(func(c Case) bool {
			nEnum++
			return try(c) && time.Now().Before(half)
		})
	}
	if foundCase == nil && p.gen != nil {
		r := rand.New(rand.NewSource(*seed))
		for {
			nGen++
			if !try(p.gen(r)) {
				break
			}
		}
	}
	doc := map[string]interface{}{"stats": map[string]interface{}{"enumerated_inputs": nEnum, "random_inputs": nGen, "seed": *seed, "accepted_texts": accepted, "rejected_texts": rejected}}
	if os.Getenv("RPDEBUG") != "" {
		fmt.Println(lastErr)
	}
	if foundCase != nil {
		doc["found"] = map[string]interface{}{"case": foundCase, "message": foundMsg}
		fmt.Println(foundMsg)
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	if foundCase != nil {
		os.Exit(1)
	}
}

// shrink removes chunks of the text while the violation persists.
func shrink(p *prop, c *Case, msg *string) {
	t := []rune(c.Text)
	end := time.Now().Add(10 * time.Second)
	for n := len(t) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(t) && time.Now().Before(end); {
			nt := append(append([]rune{}, t[:i]...), t[i+n:]...)
			nc := *c
			nc.Text = string(nt)
			m, hang := run(p, nc)
			if hang {
				return
			}
			if m != "" {
				t = nt
				*c, *msg = nc, m
			} else {
				i += n
			}
		}
	}
}
