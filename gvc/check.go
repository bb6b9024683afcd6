package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func contains(s []string, x string) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}

func (ct *Contract) hasProp(p string) bool {
	for _, c := range ct.ensures {
		if contains(c.props, p) {
			return true
		}
	}
	for _, c := range ct.requires {
		if contains(c.props, p) {
			return true
		}
	}
	for _, cc := range ct.closures {
		if cc.hasProp(p) {
			return true
		}
	}
	return false
}

func (ct *Contract) anyProp() bool {
	for _, c := range ct.ensures {
		if len(c.props) > 0 {
			return true
		}
	}
	for _, c := range ct.requires {
		if len(c.props) > 0 {
			return true
		}
	}
	for _, cc := range ct.closures {
		if cc.anyProp() {
			return true
		}
	}
	return false
}

func keyPkg(k string) string {
	if i := strings.IndexByte(k, '.'); i >= 0 {
		return k[:i]
	}
	return k
}

func baseKey(k string) string {
	if i := strings.Index(k, " by "); i >= 0 {
		return k[:i]
	}
	return k
}

func (w *World) inScope(t task, p string) bool {
	pk := keyPkg(t.key)
	if t.init != nil {
		for n, gs := range w.globalInvs {
			if strings.HasPrefix(n, t.init.Pkg.Name()+".") {
				for _, g := range gs {
					if contains(g.props, p) {
						return true
					}
				}
			}
		}
		return false
	}
	if t.fn != nil {
		pk = fnPkg(t.fn)
	}
	return t.ct.hasProp(p) || contains(w.safetyP[pk], p) || contains(w.termP[pk], p)
}

type fnReport struct {
	Function    string   `json:"function"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Ms          int64    `json:"ms"`
	Inlined     []string `json:"inlined,omitempty"`
}

type failure struct {
	Obligation string   `json:"obligation"`
	Where      string   `json:"where"`
	Props      []string `json:"properties,omitempty"`
	Output     string   `json:"verifier_output"`
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func uniq(s []string) []string {
	sort.Strings(s)
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// check decides one property: it verifies every function whose contract carries the property (and the
// untagged contracts those rely on) and reports failed obligations.
func (w *World) check(args []string, t0 time.Time) int {
	p := args[0]
	verif := args[1]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(args) > 2 && args[2] == "thorough" {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	if tier == "thorough" {
		w.timeoutMs = 20000
		w.fallbackSecs = 60
		w.fnBudget = 20 * time.Minute
		w.certify = true
	}
	all := w.tasks()
	var results []*FnResult
	var cur []task
	for _, t := range all {
		if w.inScope(t, p) {
			cur = append(cur, t)
		}
	}
	ntagged := len(cur)
	ran := w.runClosure(cur, all)
	// the property's own part: its functions and, from there, those that carry no property of their own
	own := map[string]bool{}
	for len(cur) > 0 {
		need := map[string]bool{}
		for _, t := range cur {
			own[t.key] = true
			results = append(results, ran[t.key])
			for _, u := range ran[t.key].Used {
				need[u] = true
			}
		}
		cur = nil
		for _, t := range all {
			if !own[t.key] && t.init == nil && need[baseKey(t.key)] && !t.ct.anyProp() {
				cur = append(cur, t)
			}
		}
	}
	tot, ok := 0, 0
	by := map[string]int{}
	var fails []failure
	var other []string
	// contracts of callees that carry other properties: the proof rests on them too. When one of them no longer
	// holds, this property is reported only with a failing input of its own; otherwise it is the other property's alarm.
	deps, ndep := 0, 0
	for _, k := range sortedKeys(ran) {
		if own[k] {
			continue
		}
		deps++
		for _, o := range ran[k].Obs {
			ndep++
			if !o.OK {
				other = append(other, o.Name)
			}
		}
	}
	var trusted, used, notes []string
	var fns []fnReport
	var solverMs int64
	for _, r := range results {
		fr := fnReport{Function: r.Key, Ms: r.Ms, Inlined: r.Inlined}
		for _, o := range r.Obs {
			mine := len(o.Props) == 0 || contains(o.Props, p)
			if !mine {
				if !o.OK {
					other = append(other, o.Name)
				}
				continue
			}
			fr.Obligations++
			solverMs += o.Ms
			if o.OK {
				fr.Discharged++
				by[o.By]++
			} else {
				fails = append(fails, failure{o.Name, o.Pos, o.Props, o.Detail})
			}
		}
		tot += fr.Obligations
		ok += fr.Discharged
		fns = append(fns, fr)
		trusted = append(trusted, r.Trusted...)
		used = append(used, r.Used...)
		notes = append(notes, r.Notes...)
	}
	term := false
	for _, ps := range w.termP {
		if contains(ps, p) {
			term = true
		}
	}
	if term {
		n := 0
		for _, r := range results {
			n += len(r.Edges)
		}
		tot += n
		ok += n
		by["recursion graph"] += n
		for _, m := range w.recursionProblems(results) {
			ok--
			by["recursion graph"]--
			fails = append(fails, failure{"termination: " + m, "", []string{p}, "no decreasing measure"})
		}
	}
	if ntagged == 0 {
		fails = append(fails, failure{"no function carries this property any more", "", nil, ""})
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Function < fns[j].Function })
	for _, x := range w.loadErr {
		notes = append(notes, x)
	}
	ass := []string{}
	for _, x := range uniq(trusted) {
		ass = append(ass, "assumed contract of a dependency: "+x)
	}
	ass = append(ass, uniq(notes)...)
	ass = append(ass, w.standing()...)
	ev := evidence{Property: p, Tier: tier, Seed: seed, Level: "proof", Assumptions: ass}
	ev.Coverage = map[string]interface{}{
		"obligations": tot, "discharged": ok,
		"checker_cmd":                                fmt.Sprintf("bash %s/check.sh %s %s", verif, p, tier),
		"trusted_base":                               append([]string{"gvc (the verification-condition generator in /verif/gvc)", "golang.org/x/tools/go/ssa", "z3 5.x / z3 4.8 / cvc5", "contracts/*.spec axioms (definitions of the specification functions)"}, uniq(trusted)...),
		"functions_under_contract":                   fns,
		"discharged_by":                              by,
		"solver_ms":                                  solverMs,
		"callees_of_other_properties_verified":       map[string]int{"functions": deps, "obligations": ndep},
		"failed_obligations_of_other_properties":     uniq(other),
		"specification_functions_and_axioms":         len(w.ghostFns) + len(w.axioms),
		"loop_invariant_candidates_proved_inductive": w.countInvs(results),
	}
	if len(fails) > 0 {
		ev.Coverage["failed"] = fails
	}
	for _, k := range knownFindings(filepath.Join(verif, "known_findings.txt"), p) {
		fmt.Println("KNOWN-FINDING: property=" + p + " " + k)
	}
	code := 0
	edir := filepath.Join(verif, "evidence")
	os.MkdirAll(edir, 0o755)
	// loading the files of a program's units is assumed by the contracts: a bounded check stands in for it
	var sfound json.RawMessage
	if standIn[p] {
		f, out, stats := runReplay(verif, w.repo, "units", seed, 60, nil)
		if stats == nil {
			stats = map[string]interface{}{"not_run": out}
		}
		stats["functions"] = []string{"parser.(*ProgramParser).LoadUnits", "parser.(*UnitParser).LoadFile", "parser.UnitParsers.Sort", "parser.UnitParsers.Graph"}
		stats["bound"] = "every program of at most three units: which of them declare a name, every uses list of their interfaces, every order of the program's uses clause, one uses list in an implementation; 19 broken programs"
		stats["label"] = "bounded, not proved"
		ev.Coverage["bounded_stand_in"] = stats
		sfound = f
	}
	if sfound != nil {
		code = 1
		ev.Violations = 1 + len(fails)
		rp := filepath.Join(edir, p+".violation.json")
		doc := map[string]interface{}{"property": p, "oracle": "units", "failed_obligations": fails, "failing_input": sfound,
			"rerun": fmt.Sprintf("bash %s/check.sh %s", verif, p), "replay_cmd": fmt.Sprintf("bash %s/check.sh --replay %s", verif, rp)}
		b, _ := json.MarshalIndent(doc, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("failing input of the bounded stand-in for loading units: %s\n", trunc(string(sfound), 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p, rp)
	} else if len(fails) > 0 || len(other) > 0 || tier == "thorough" {
		budget := 75
		if tier == "thorough" {
			budget = 240
			if len(fails) == 0 {
				budget = 60
			}
		}
		found, out, stats := runReplay(verif, w.repo, p, seed, budget, fails)
		if stats != nil {
			ev.Coverage["bounded_cross_check"] = stats
		}
		if found != nil || len(fails) > 0 {
			code = 1
			ev.Violations = len(fails)
			if found != nil && len(fails) == 0 {
				ev.Violations = 1
			}
			rp := filepath.Join(edir, p+".violation.json")
			doc := map[string]interface{}{"property": p, "failed_obligations": fails, "rerun": fmt.Sprintf("bash %s/check.sh %s", verif, p)}
			if found != nil {
				doc["failing_input"] = found
				doc["replay_cmd"] = fmt.Sprintf("bash %s/check.sh --replay %s", verif, rp)
			} else {
				doc["failing_input"] = nil
				doc["replay_search"] = out
			}
			b, _ := json.MarshalIndent(doc, "", " ")
			os.WriteFile(rp, append(b, '\n'), 0o644)
			for _, f := range fails {
				fmt.Printf("FAILED obligation %s at %s: %s\n", f.Obligation, f.Where, trunc(f.Output, 300))
			}
			if found != nil {
				fmt.Printf("failing input: %s\n", trunc(string(found), 600))
				fmt.Printf("VIOLATION property=%s replay=%s\n", p, rp)
			} else {
				fmt.Println(trunc(out, 400))
				fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", p, rp)
			}
		}
	}
	ev.WallS = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(edir, p+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d functions, %d of %d obligations discharged, %.1f s\n", p, tier, len(results), ok, tot, ev.WallS)
	return code
}

func (w *World) countInvs(rs []*FnResult) int {
	n := 0
	for _, r := range rs {
		n += len(r.Invs)
	}
	return n
}

// standing assumptions of the memory model
func (w *World) standing() []string {
	return []string{
		"machine integers are treated as mathematical integers (indices and counts stay far below 2^63)",
		"append is modelled as copying into a fresh array; code that relied on two slices sharing spare capacity would be modelled imprecisely",
		"slices are bounded by their length, not their capacity (stricter than Go)",
		"no other goroutine runs; memory and stack exhaustion are not modelled",
		"the set of dynamic types behind an interface value is the set of types of this repository",
	}
}

func knownFindings(f, p string) []string {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if s := strings.TrimPrefix(l, "known: property="+p+" "); s != l {
			out = append(out, s)
		}
	}
	return out
}

// runReplay builds the concrete harness against the current tree and searches for a failing input.
// standIn: the properties for which loading units counts
var standIn = map[string]bool{"C05": true, "C14": true}

func runReplay(verif, repo, p string, seed, budget int, fails []failure) (json.RawMessage, string, map[string]interface{}) {
	tmp, err := os.MkdirTemp("", "gvcreplay")
	if err != nil {
		return nil, err.Error(), nil
	}
	defer os.RemoveAll(tmp)
	bin, out, err := buildReplay(verif, repo, tmp)
	if err != nil {
		return nil, "the replay harness does not build against this tree: " + out, nil
	}
	var hints []string
	for _, f := range fails {
		hints = append(hints, f.Obligation)
	}
	hf := filepath.Join(tmp, "hints")
	os.WriteFile(hf, []byte(strings.Join(hints, "\n")), 0o644)
	res := filepath.Join(tmp, "result.json")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget+60)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-p", p, "-seed", fmt.Sprint(seed), "-budget", fmt.Sprint(budget), "-hints", hf, "-out", res)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB")
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	cmd.Run()
	var doc struct {
		Found json.RawMessage        `json:"found"`
		Stats map[string]interface{} `json:"stats"`
	}
	b, err := os.ReadFile(res)
	if err != nil {
		s := o.String()
		if len(s) > 2000 {
			s = s[:1000] + "\n...\n" + s[len(s)-1000:]
		}
		return nil, "replay harness ended without a result: " + s, nil
	}
	json.Unmarshal(b, &doc)
	if len(doc.Found) > 0 && string(doc.Found) != "null" {
		return doc.Found, "", doc.Stats
	}
	return nil, fmt.Sprintf("no failing input among %v", doc.Stats), doc.Stats
}

func buildReplay(verif, repo, tmp string) (string, string, error) {
	rep := map[string]string{}
	dir := filepath.Join(verif, "replay")
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			rep[filepath.Join(repo, "zz_verif_replay", e.Name())] = filepath.Join(dir, e.Name())
		}
	}
	// files laid into packages of the repository: replay/in/<pkg path>/x.go
	filepath.Walk(filepath.Join(dir, "in"), func(path string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(filepath.Join(dir, "in"), path)
			rep[filepath.Join(repo, rel)] = path
		}
		return nil
	})
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	bin := filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zz_verif_replay")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	return bin, string(out), err
}

// replayFile re-runs the input recorded in a violation file.
func replayFile(verif, repo, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var doc struct {
		Property string          `json:"property"`
		Oracle   string          `json:"oracle"`
		Input    json.RawMessage `json:"failing_input"`
	}
	json.Unmarshal(b, &doc)
	if len(doc.Input) == 0 || string(doc.Input) == "null" {
		fmt.Println("the file names failed obligations only; re-run the check:", doc.Property)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "gvcreplay")
	defer os.RemoveAll(tmp)
	bin, out, err := buildReplay(verif, repo, tmp)
	if err != nil {
		fmt.Println(out)
		return 2
	}
	in := filepath.Join(tmp, "in.json")
	os.WriteFile(in, doc.Input, 0o644)
	if doc.Oracle == "" {
		doc.Oracle = doc.Property
	}
	cmd := exec.Command(bin, "-p", doc.Oracle, "-one", in)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.Dir = tmp
	if err := cmd.Run(); err != nil {
		return 1
	}
	return 0
}

var _ = types.Typ
