package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"

	"github.com/akm/tparser/token"
)

// ---- reference lexer, written from the property statements ----

type rtok struct {
	kind       token.Type
	start, end int
}

var refReserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`AND ARRAY AS ASM BEGIN CASE CLASS CONST CONSTRUCTOR DESTRUCTOR DISPINTERFACE DIV DO DOWNTO ELSE END
 EXCEPT EXPORTS FILE FINALIZATION FINALLY FOR FUNCTION GOTO IF IMPLEMENTATION IN INHERITED INITIALIZATION INLINE INTERFACE IS LABEL
 LIBRARY MOD NIL NOT OBJECT OF OR OUT PACKED PROCEDURE PROGRAM PROPERTY RAISE RECORD REPEAT RESOURCESTRING SET SHL SHR STRING THEN
 THREADVAR TO TRY TYPE UNIT UNTIL USES VAR WHILE WITH XOR`) {
		refReserved[w] = true
	}
}

func refDigit(r rune) bool { return '0' <= r && r <= '9' }
func refHead(r rune) bool  { return r == '_' || unicode.IsLetter(r) }

// refLex returns every token of the text, spaces and comments included, up to and including EOF.
func refLex(t []rune) []rtok {
	at := func(i int) rune {
		if i >= 0 && i < len(t) {
			return t[i]
		}
		return 0
	}
	nx := func(i int) int {
		if i < len(t) {
			return i + 1
		}
		return i
	}
	var out []rtok
	for i := 0; ; {
		r := at(i)
		j := i
		k := token.EOF
		switch {
		case r == 0:
			return append(out, rtok{token.EOF, i, i})
		case r == '{':
			k = token.Comment
			for j = i + 1; at(j) != '}' && at(j) != 0; j++ {
			}
			j = nx(j)
		case r == '/' && at(i+1) == '/':
			k = token.Comment
			for j = i + 1; at(j) != '\n' && at(j) != 0; j++ {
			}
		case r == '(' && at(i+1) == '*':
			k = token.Comment
			for j = i + 1; ; j++ {
				if at(j) == '*' && at(j+1) == ')' {
					j += 2
					break
				}
				if at(j) == 0 {
					j = nx(j)
					break
				}
			}
		case r == '\'':
			k = token.CharacterString
			for j = i + 1; at(j) != 0 && !(at(j) == '\'' && at(j-1) != '\\'); j++ {
			}
			j = nx(j)
		case refDigit(r) || r == '-' && refDigit(at(i+1)):
			k = token.NumeralInt
			for j = i + 1; ; j++ {
				if refDigit(at(j)) {
					continue
				}
				if at(j) == '.' && at(j+1) != '.' && k == token.NumeralInt {
					k = token.NumeralReal
					continue
				}
				break
			}
		case strings.Contains(" (. .) .. := <= >= <> ", " "+string([]rune{r, at(i + 1)})+" ") && at(i+1) != 0 && at(i+1) != ' ' && r != ' ':
			k, j = token.SpecialSymbol, i+2
		case strings.ContainsRune("#$&'()*+,-./:;<=>@[]^{}", r):
			k, j = token.SpecialSymbol, i+1
		case refHead(r):
			for j = i + 1; refHead(at(j)) || refDigit(at(j)); j++ {
			}
			k = token.Identifier
			if refReserved[strings.ToUpper(string(t[i:j]))] {
				k = token.ReservedWord
			}
		case unicode.IsSpace(r):
			for j = i + 1; unicode.IsSpace(at(j)); j++ {
			}
			k = token.Space
		default:
			k, j = token.Illegal, i+1
		}
		out = append(out, rtok{k, i, j})
		i = j
	}
}

// refPos: line and column of index i. A line feed at index 0 is not counted (known finding K01).
func refPos(t []rune, i int) (int, int) {
	line, col := 1, 1
	for j := 0; j < i && j < len(t); j++ {
		if t[j] == '\n' && j != 0 {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col
}

var lexAlphabet = []string{"{", "}", "(", "*", ")", "/", "\n", "'", "\\", "0", "5", ".", "-", "_", "a", "E", "n", "d", " ", "\t", ":", "=", "<", ">", ";", "#", "?", "\x00", "é", "あ", "$", "&", "+", ",", "@", "[", "]", "^", "~", "\r", "\u00a0", "\u3000", "\u0663", "\u2028", "ǅ", "²"}
var lexShort = []string{"{", "}", "(", "*", ")", "/", "\n", "'", "\\", "5", ".", "-", "a", " ", ":", "=", "<", ">", "?", "\x00"}

func lexEnum(yield func(Case) bool) {
	// every reserved word, near misses, and its cases
	for w := range refReserved {
		for _, s := range []string{w, strings.ToLower(w), w[:1] + strings.ToLower(w[1:]), w + "X", "_" + w, w[1:], w + "1"} {
			if !yield(Case{Kind: "lex", Text: s}) || !yield(Case{Kind: "lex", Text: "x " + s + ";"}) {
				return
			}
		}
	}
	for _, s := range []string{"", "AUTOMATED ABSOLUTE READ WRITE ON AT NAME INDEX"} {
		if !yield(Case{Kind: "lex", Text: s}) {
			return
		}
	}
	var odd []rune
	for r := rune(0); r < 0x250; r++ {
		odd = append(odd, r)
	}
	for r := rune(0x250); r < 0x20000; r++ {
		if unicode.IsDigit(r) || unicode.IsSpace(r) || unicode.IsNumber(r) || r%37 == 0 {
			odd = append(odd, r)
		}
	}
	for _, r := range odd {
		if !yield(Case{Kind: "lex", Text: string(r)}) || !yield(Case{Kind: "lex", Text: "a" + string(r) + "b"}) {
			return
		}
	}
	var rec func(al []string, pre string, n int) bool
	rec = func(al []string, pre string, n int) bool {
		if n == 0 {
			return yield(Case{Kind: "lex", Text: pre})
		}
		for _, a := range al {
			if !rec(al, pre+a, n-1) {
				return false
			}
		}
		return true
	}
	for n := 1; n <= 3; n++ {
		if !rec(lexAlphabet, "", n) {
			return
		}
	}
	rec(lexShort, "", 4)
	rec([]string{"'", "\\", "a", "\n", "5", ".", "-", "*", ")", "("}, "", 5)
}

func lexGen(r *rand.Rand) Case {
	n := 1 + r.Intn(40)
	var b strings.Builder
	words := []string{"begin", "END", "foo", "Unit1", "1.5", "-3", "1..2", "'it''s'", "'a\\'b'", "{ c }", "(* x *)", "// y\n", ":=", "..", "(.", ".)", "<>", "\n", "\n\n", "  ", "\r\n", "1.2.3", "'", "{", "(*"}
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			b.WriteString(words[r.Intn(len(words))])
		} else {
			b.WriteString(lexAlphabet[r.Intn(len(lexAlphabet))])
		}
	}
	return Case{Kind: "lex", Text: b.String(), Nums: []int{r.Intn(12)}}
}

// collect reads all tokens; the tokenizer is cloned after `split` tokens when split > 0.
func collect(text []rune, flags token.TokeninzerFlag, split int) ([]*token.Token, string) {
	tk := token.NewTokenizer(&text, flags)
	var out []*token.Token
	for n := 0; ; n++ {
		if split > 0 && n == split {
			c := tk.Clone()
			// what the original does afterwards must not matter
			for i := 0; i < 2; i++ {
				tk.GetNext()
			}
			tk = c
		}
		t := tk.GetNext()
		if t == nil {
			return out, fmt.Sprintf("no token after %d tokens", n)
		}
		out = append(out, t)
		if t.Type == token.EOF {
			return out, ""
		}
		if n > 2*len(text)+4 {
			return out, "does not reach the end of the text"
		}
	}
}

func lexCheck(which string) func(c Case) string {
	return func(c Case) string {
		text := []rune(c.Text)
		split := 0
		if len(c.Nums) > 0 {
			split = c.Nums[0]
		}
		ref := refLex(text)
		for fl := token.TokeninzerFlag(0); fl < 4; fl++ {
			toks, err := collect(text, fl, split)
			var want []rtok
			for _, x := range ref {
				if x.kind == token.Space && fl&token.LoadSpace == 0 || x.kind == token.Comment && fl&token.LoadComment == 0 {
					continue
				}
				want = append(want, x)
			}
			if which == "C04" {
				if err != "" {
					return err
				}
				for _, t := range toks {
					if t.Type != token.EOF && t.End.Index <= t.Start.Index {
						return fmt.Sprintf("token %v makes no progress", t)
					}
					_ = t.String()
				}
				continue
			}
			if err != "" {
				continue // left to C04
			}
			switch which {
			case "C01":
				pos := 0
				for _, t := range toks {
					if fl == 3 && t.Start.Index != pos || t.Start.Index < pos || t.End.Index < t.Start.Index || t.End.Index > len(text) {
						return fmt.Sprintf("flags %d: token at %d..%d after index %d", fl, t.Start.Index, t.End.Index, pos)
					}
					if t.RawString() != string(text[t.Start.Index:t.End.Index]) || t.Len() != t.End.Index-t.Start.Index {
						return "token text differs from the source"
					}
					v := t.RawString()
					if t.Type == token.ReservedWord {
						v = strings.ToUpper(v)
					}
					if t.Value() != v {
						return fmt.Sprintf("value %q of token %q", t.Value(), t.RawString())
					}
					cl := t.Clone()
					if *cl.Start != *t.Start || *cl.End != *t.End || cl.RawString() != t.RawString() || cl.Type != t.Type {
						return "clone of a token differs"
					}
					pos = t.End.Index
				}
				if pos < len(text) && text[pos] != 0 {
					return fmt.Sprintf("flags %d: text after %d is not covered", fl, pos)
				}
				if len(toks) == len(want) {
					for i := range toks {
						if toks[i].Start.Index != want[i].start || toks[i].End.Index != want[i].end {
							return fmt.Sprintf("flags %d: token %d spans %d..%d, expected %d..%d", fl, i, toks[i].Start.Index, toks[i].End.Index, want[i].start, want[i].end)
						}
					}
				} else {
					return fmt.Sprintf("flags %d: %d tokens, expected %d", fl, len(toks), len(want))
				}
			case "C02":
				for _, t := range toks {
					l, cc := refPos(text, t.Start.Index)
					if t.Start.Line != l || t.Start.Col != cc {
						return fmt.Sprintf("flags %d: token at index %d reported at %d:%d, is at %d:%d", fl, t.Start.Index, t.Start.Line, t.Start.Col, l, cc)
					}
					l, cc = refPos(text, t.End.Index)
					if t.End.Line != l || t.End.Col != cc {
						return fmt.Sprintf("flags %d: token end at index %d reported at %d:%d, is at %d:%d", fl, t.End.Index, t.End.Line, t.End.Col, l, cc)
					}
				}
			case "C03":
				for i := range want {
					if i >= len(toks) {
						return fmt.Sprintf("flags %d: %d tokens, expected %d", fl, len(toks), len(want))
					}
					if toks[i].Start.Index != want[i].start || toks[i].End.Index != want[i].end || toks[i].Type != want[i].kind {
						return fmt.Sprintf("flags %d: token %d is %v %d..%d, expected %v %d..%d", fl, i, toks[i].Type, toks[i].Start.Index, toks[i].End.Index, want[i].kind, want[i].start, want[i].end)
					}
				}
			}
		}
		return ""
	}
}

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04"} {
		props[p] = &prop{enum: lexEnum, gen: lexGen, check: lexCheck(p)}
	}
}
