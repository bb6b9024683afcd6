package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"
)

const prelude = `(set-option :global-declarations true)
(declare-sort Str 0)
(declare-datatypes ((Iface 0)) (((mkI (itag Int) (ival Int)))))
(declare-datatypes ((Slice 0)) (((mkS (sarr Int) (soff Int) (slen Int)))))
(declare-datatypes ((P2 0)) (((mkP2 (p20 Int) (p21 Int)))))
(declare-fun litid (Str) Int)
(declare-fun strlen (Str) Int)
(declare-fun str1 (Int) Str)
(declare-fun str2 (Int Int) Str)
(declare-fun upper (Str) Str)
(declare-fun lower (Str) Str)
(declare-fun strOf ((Array Int Int) Int Int) Str)
(declare-fun strcat (Str Str) Str)
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
`

var predeclared = []string{"litid", "strlen", "str1", "str2", "upper", "lower", "strOf", "strcat", "ix", "mkI", "itag", "ival", "mkS", "sarr", "soff", "slen", "mkP2", "p20", "p21"}

var statQueries, statFallback int64
var statSolverNs int64

// Session is an incremental z3 process plus a replayable log.
type Session struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	named   map[*Term]string
	defs    []string // declarations and definitions in order (global)
	stack   [][]string
	timeout int
	dead    bool
	buf     strings.Builder
	name    string
	glob    []gfact
}

func NewSession(ctx *Ctx, name string, timeoutMs int) *Session {
	s := &Session{ctx: ctx, named: map[*Term]string{}, timeout: timeoutMs, name: name}
	for _, f := range predeclared {
		ctx.fnDecl[f] = true
	}
	s.start()
	s.stack = [][]string{{}}
	return s
}

func (s *Session) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.raw("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 50)\n(set-option :smt.case_split 3)\n(set-option :smt.arith.solver 2)\n")
	s.raw(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	s.raw(prelude)
}

func (s *Session) raw(t string) { s.buf.WriteString(t) }
func (s *Session) flush() {
	if s.buf.Len() > 0 {
		io.WriteString(s.in, s.buf.String())
		s.buf.Reset()
	}
}

func (s *Session) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Session) drain() {
	for len(s.ctx.decls) > 0 || len(s.ctx.facts) > 0 {
		ds := s.ctx.decls
		s.ctx.decls = nil
		for _, d := range ds {
			s.defs = append(s.defs, d)
			// facts asserted through decls must survive pop: they are re-asserted by global list
			if strings.HasPrefix(d, "(assert") {
				s.assertGlobal(d)
			} else {
				s.raw(d + "\n")
			}
		}
		fs := s.ctx.facts
		s.ctx.facts = nil
		for _, f := range fs {
			str := "(assert " + s.print(f) + ")"
			s.defs = append(s.defs, str)
			s.assertGlobal(str)
		}
	}
}

// global facts: asserted now and re-asserted after each pop below the level of assertion
type gfact struct {
	text  string
	level int
}

var _ = gfact{}

func (s *Session) assertGlobal(d string) {
	s.raw(d + "\n")
	s.glob = append(s.glob, gfact{d, len(s.stack)})
}

func (s *Session) print(t *Term) string {
	// name large closed subterms
	var visit func(x *Term)
	seen := map[*Term]bool{}
	visit = func(x *Term) {
		if seen[x] || s.named[x] != "" {
			return
		}
		seen[x] = true
		for _, a := range x.Args {
			visit(a)
		}
		if x.bv || x.size < 12 || x.Op == "forall" || len(x.Args) == 0 {
			return
		}
		var b strings.Builder
		x.write(&b, func(y *Term) (string, bool) {
			if y == x {
				return "", false
			}
			n, ok := s.named[y]
			return n, ok
		})
		n := fmt.Sprintf("d!%d", x.id)
		d := fmt.Sprintf("(define-fun %s () %s %s)", n, x.Sort, b.String())
		s.defs = append(s.defs, d)
		s.raw(d + "\n")
		s.named[x] = n
	}
	visit(t)
	var b strings.Builder
	t.write(&b, func(y *Term) (string, bool) { n, ok := s.named[y]; return n, ok })
	return b.String()
}

func (s *Session) Push() {
	s.drain()
	s.raw("(push 1)\n")
	s.stack = append(s.stack, nil)
}
func (s *Session) Pop() {
	s.drain()
	s.raw("(pop 1)\n")
	s.stack = s.stack[:len(s.stack)-1]
	for i := range s.glob {
		if s.glob[i].level > len(s.stack) {
			s.raw(s.glob[i].text + "\n")
			s.glob[i].level = len(s.stack)
		}
	}
}

func (s *Session) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.drain()
	p := s.print(t)
	s.drain()
	a := "(assert " + p + ")"
	s.stack[len(s.stack)-1] = append(s.stack[len(s.stack)-1], a)
	s.raw(a + "\n")
}

func (s *Session) readLine(d time.Duration) (string, bool) {
	type res struct {
		l string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			l, e := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if e == nil && l == "" {
				continue
			}
			ch <- res{l, e}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.e != nil {
			return "", false
		}
		return r.l, true
	case <-time.After(d):
		return "", false
	}
}

func (s *Session) restart() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.buf.Reset()
	s.start()
	for _, d := range s.defs {
		s.raw(d + "\n")
	}
	for i, lv := range s.stack {
		if i > 0 {
			s.raw("(push 1)\n")
		}
		for _, a := range lv {
			s.raw(a + "\n")
		}
	}
	for i := range s.glob {
		s.glob[i].level = 1
	}
}

// CheckSat with one extra formula list asserted; returns "unsat", "sat", "unknown".
func (s *Session) checkWith(fs []*Term) string {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&statSolverNs, int64(time.Since(t0))) }()
	atomic.AddInt64(&statQueries, 1)
	s.drain()
	var ps []string
	for _, f := range fs {
		ps = append(ps, s.print(f))
	}
	s.drain()
	s.raw("(push 1)\n")
	for _, p := range ps {
		s.raw("(assert " + p + ")\n")
	}
	s.raw("(check-sat)\n")
	s.flush()
	l, ok := s.readLine(time.Duration(s.timeout)*time.Millisecond*3 + 5*time.Second)
	if !ok {
		s.restart()
		return "unknown"
	}
	for strings.HasPrefix(l, "(error") {
		fmt.Fprintf(os.Stderr, "z3 error in %s: %s\n", s.name, l)
		solverErrors.Add(1)
		l, ok = s.readLine(time.Duration(s.timeout)*time.Millisecond*3 + 5*time.Second)
		if !ok {
			s.restart()
			return "unknown"
		}
	}
	s.raw("(pop 1)\n")
	return l
}

var solverErrors atomic.Int64

func (s *Session) script(fs []*Term) string {
	s.drain()
	var ps []string
	for _, f := range fs {
		ps = append(ps, s.print(f))
	}
	s.drain()
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(strings.Replace(prelude, "(set-option :global-declarations true)\n", "", 1))
	for _, d := range s.defs {
		b.WriteString(d + "\n")
	}
	for _, lv := range s.stack {
		for _, a := range lv {
			b.WriteString(a + "\n")
		}
	}
	for _, p := range ps {
		b.WriteString("(assert " + p + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// fallback: run other back ends on the stand-alone script.
func (s *Session) fallback(fs []*Term, secs int) (string, string) {
	atomic.AddInt64(&statFallback, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&statSolverNs, int64(time.Since(t0))) }()
	txt := s.script(fs)
	f, err := os.CreateTemp("", "gvc-*.smt2")
	if err != nil {
		return "unknown", ""
	}
	f.WriteString(txt)
	f.Close()
	defer os.Remove(f.Name())
	type r struct{ res, who string }
	ch := make(chan r, 3)
	cx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cmds := [][]string{
		{"z3-new", "smt.mbqi=false", "smt.auto_config=false", f.Name()},
		{"z3-new", f.Name()},
		{"cvc5", "--incremental", "--tlimit=" + fmt.Sprint(secs*1000), f.Name()},
	}
	for _, c := range cmds {
		go func(c []string) {
			out, _ := exec.CommandContext(cx, c[0], c[1:]...).Output()
			l := strings.TrimSpace(string(out))
			if i := strings.IndexByte(l, '\n'); i >= 0 {
				l = l[:i]
			}
			ch <- r{l, filepath.Base(c[0])}
		}(c)
	}
	for i := 0; i < len(cmds); i++ {
		x := <-ch
		if x.res == "unsat" {
			return "unsat", x.who
		}
	}
	return "unknown", ""
}

// retry asks a fresh z3 that also instantiates on terms it considers irrelevant; cheap, short limit.
func (s *Session) retry(fs []*Term) bool {
	atomic.AddInt64(&statRetry, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&statSolverNs, int64(time.Since(t0))) }()
	cx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cx, "z3-new", "smt.auto_config=false", "smt.mbqi=false", "smt.qi.eager_threshold=50", "smt.relevancy=0", "smt.arith.solver=2", "-T:4", "-in", "-smt2")
	cmd.Stdin = strings.NewReader(s.script(fs))
	out, _ := cmd.Output()
	return strings.HasPrefix(strings.TrimSpace(string(out)), "unsat")
}

var statRetry int64
