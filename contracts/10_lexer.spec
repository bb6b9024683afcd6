// Lexical specification of the Object Pascal dialect, written from the property statements.
// p stands for the text (the *[]rune the cursor walks), i/j for rune indices.

// tch(p,i): the rune at index i, 0 outside the text.   tlen(p): number of runes.
ghost func tch(p ref, i int) int
ghost func tlen(p ref) int
axiom tch_end: forall p ref, i int {tch(p,i)} :: (i >= tlen(p) || i < 0) ==> tch(p,i) == 0
axiom tlen_nonneg: forall p ref {tlen(p)} :: tlen(p) >= 0

// Unicode classes (Go's unicode package).
ghost func uletter(r int) bool
ghost func uspace(r int) bool
axiom !uletter(0) && !uspace(0)

def digit(r) = 48 <= r && r <= 57
def wordhead(r) = r == '_' || uletter(r)
def wordch(r) = wordhead(r) || digit(r)
def nx(p,i) = i < tlen(p) ? i + 1 : i

// line and column of index i. A line feed which is the very first rune is not counted (known finding K01).
ghost func line(p ref, i int) int
ghost func col(p ref, i int) int
def brk(p,i) = tch(p,i) == 10 && i != 0
axiom forall p ref {line(p,0)} :: line(p,0) == 1
axiom forall p ref {col(p,0)} :: col(p,0) == 1
axiom forall p ref, i int {line(p,i), tch(p,i)} :: 0 <= i < tlen(p) ==>
   line(p,i+1) == line(p,i) + (brk(p,i) ? 1 : 0) && col(p,i+1) == (brk(p,i) ? 1 : col(p,i) + 1)

// ttext(p,i,j): the runes from i to j as a string
ghost func ttext(p ref, i int, j int) str
axiom forall p ref, i int {ttext(p,i,i)} :: ttext(p,i,i) == ""
ghost func reservedw(s str) bool
axiom forall s str {reservedw(s)} :: reservedw(s) <==> (
   s == "AND" || s == "ARRAY" || s == "AS" || s == "ASM" || s == "BEGIN" || s == "CASE"
   || s == "CLASS" || s == "CONST" || s == "CONSTRUCTOR" || s == "DESTRUCTOR" || s == "DISPINTERFACE" || s == "DIV"
   || s == "DO" || s == "DOWNTO" || s == "ELSE" || s == "END" || s == "EXCEPT" || s == "EXPORTS"
   || s == "FILE" || s == "FINALIZATION" || s == "FINALLY" || s == "FOR" || s == "FUNCTION" || s == "GOTO"
   || s == "IF" || s == "IMPLEMENTATION" || s == "IN" || s == "INHERITED" || s == "INITIALIZATION" || s == "INLINE"
   || s == "INTERFACE" || s == "IS" || s == "LABEL" || s == "LIBRARY" || s == "MOD" || s == "NIL"
   || s == "NOT" || s == "OBJECT" || s == "OF" || s == "OR" || s == "OUT" || s == "PACKED"
   || s == "PROCEDURE" || s == "PROGRAM" || s == "PROPERTY" || s == "RAISE" || s == "RECORD" || s == "REPEAT"
   || s == "RESOURCESTRING" || s == "SET" || s == "SHL" || s == "SHR" || s == "STRING" || s == "THEN"
   || s == "THREADVAR" || s == "TO" || s == "TRY" || s == "TYPE" || s == "UNIT" || s == "UNTIL"
   || s == "USES" || s == "VAR" || s == "WHILE" || s == "WITH" || s == "XOR")
theory lex
// where the several kinds of token end (j is the first index after the opening)
ghost func bend(p ref, j int) int
axiom forall p ref, j int {bend(p,j), tch(p,j)} :: j >= 0 ==>
  bend(p,j) == (tch(p,j) == '}' || tch(p,j) == 0 ? nx(p,j) : bend(p,j+1))
ghost func lend(p ref, j int) int
axiom forall p ref, j int {lend(p,j), tch(p,j)} :: j >= 0 ==>
  lend(p,j) == (tch(p,j) == 10 || tch(p,j) == 0 ? j : lend(p,j+1))
ghost func pend(p ref, j int) int
axiom forall p ref, j int {pend(p,j), tch(p,j)} :: j >= 0 ==>
  pend(p,j) == (tch(p,j) == '*' && tch(p,j+1) == ')' ? j + 2 : (tch(p,j) == 0 ? nx(p,j) : pend(p,j+1)))
ghost func send(p ref, j int) int
axiom forall p ref, j int {send(p,j), tch(p,j)} :: j >= 1 ==>
  send(p,j) == (tch(p,j) == 0 || (tch(p,j) == 39 && tch(p,j-1) != 92) ? nx(p,j) : send(p,j+1))
ghost func nend(p ref, j int, b bool) int
axiom forall p ref, j int, b bool {nend(p,j,b), tch(p,j)} :: j >= 0 ==>
  nend(p,j,b) == (digit(tch(p,j)) ? nend(p,j+1,b) : (tch(p,j) == '.' && tch(p,j+1) != '.' && !b ? nend(p,j+1,true) : j))
ghost func nreal(p ref, j int, b bool) bool
axiom forall p ref, j int, b bool {nreal(p,j,b), tch(p,j)} :: j >= 0 ==>
  (nreal(p,j,b) <==> (digit(tch(p,j)) ? nreal(p,j+1,b) : (tch(p,j) == '.' && tch(p,j+1) != '.' && !b ? nreal(p,j+1,true) : b)))
ghost func wend(p ref, j int) int
axiom forall p ref, j int {wend(p,j), tch(p,j)} :: j >= 0 ==> wend(p,j) == (wordch(tch(p,j)) ? wend(p,j+1) : j)
ghost func spend(p ref, j int) int
axiom forall p ref, j int {spend(p,j), tch(p,j)} :: j >= 0 ==> spend(p,j) == (uspace(tch(p,j)) ? spend(p,j+1) : j)

def double(a,b) = (a == '(' && b == '.') || (a == '.' && b == ')') || (a == '.' && b == '.') || (a == ':' && b == '=')
   || (a == '<' && b == '=') || (a == '>' && b == '=') || (a == '<' && b == '>')
def single(r) = r == '#' || r == '$' || r == '&' || r == 39 || r == '(' || r == ')' || r == '*' || r == '+' || r == ','
   || r == '-' || r == '.' || r == '/' || r == ':' || r == ';' || r == '<' || r == '=' || r == '>' || r == '@'
   || r == '[' || r == ']' || r == '^' || r == '{' || r == '}'

// starts of tokens, in order of precedence
def sBrace(p,i) = tch(p,i) == '{'
def sLine(p,i) = tch(p,i) == '/' && tch(p,i+1) == '/'
def sParen(p,i) = tch(p,i) == '(' && tch(p,i+1) == '*'
def sComment(p,i) = sBrace(p,i) || sLine(p,i) || sParen(p,i)
def sString(p,i) = tch(p,i) == 39
def sNum(p,i) = digit(tch(p,i)) || (tch(p,i) == '-' && digit(tch(p,i+1)))
def sDouble(p,i) = double(tch(p,i), tch(p,i+1))
def sSingle(p,i) = single(tch(p,i))
def sWord(p,i) = wordhead(tch(p,i))
def sSpace(p,i) = uspace(tch(p,i))
def cend(p,i) = sBrace(p,i) ? bend(p,i+1) : (sLine(p,i) ? lend(p,i+1) : pend(p,i+1))

// the token that starts at i: kind and end
ghost func tkind(p ref, i int) int
ghost func tend(p ref, i int) int
axiom forall p ref, i int {tkind(p,i)} :: tkind(p,i) ==
   (tch(p,i) == 0 ? token.EOF : (sComment(p,i) ? token.Comment : (sString(p,i) ? token.CharacterString :
   (sNum(p,i) ? (nreal(p,i+1,false) ? token.NumeralReal : token.NumeralInt) :
   (sDouble(p,i) || sSingle(p,i) ? token.SpecialSymbol :
   (sWord(p,i) ? (reservedw(upper(ttext(p,i,wend(p,i+1)))) ? token.ReservedWord : token.Identifier) :
   (sSpace(p,i) ? token.Space : token.Illegal)))))))
axiom forall p ref, i int {tend(p,i)} :: tend(p,i) ==
   (tch(p,i) == 0 ? i : (sComment(p,i) ? cend(p,i) : (sString(p,i) ? send(p,i+1) :
   (sNum(p,i) ? nend(p,i+1,false) : (sDouble(p,i) ? i + 2 : (sSingle(p,i) ? i + 1 :
   (sWord(p,i) ? wend(p,i+1) : (sSpace(p,i) ? spend(p,i+1) : i + 1))))))))

theory base
// ---------- runes ----------

// linked(p): the runes at p are those of tch/tlen/ttext, now and later (the text is not changed while it is read)
ghost func linked(p ref) bool
def link(p) = linked(ref(p))
def clink(p) = tlen(ref(p)) == len(*p) && (forall i int {tch(ref(p),i)} :: 0 <= i < len(*p) ==> tch(ref(p),i) == (*p)[i])
   && (forall i int, j int {ttext(ref(p),i,j)} :: 0 <= i <= j <= len(*p) ==> ttext(ref(p),i,j) == rstr(slice(*p,i,j)))
def cur(c) = c.Position.Index
def P(c) = ref(c.Text)
// inside the text
def inside(c) = c != nil && c.Position != nil && c.Text != nil && c.Len == tlen(P(c)) && link(c.Text) && 0 <= cur(c) <= c.Len
// a well-formed cursor: inside the text, with line and column in step
def cursor(c) = inside(c) && c.Position.Line == line(P(c), cur(c)) && c.Position.Col == col(P(c), cur(c))
   && (c.wasLF <==> brk(P(c), cur(c)))
def posat(q,p,i) = q != nil && q.Index == i && q.Line == line(p,i) && q.Col == col(p,i)

func runes.NewCursor(text)(c) {
  requires text != nil && link(text)
  fact clink(text)
  ensures fresh(c) && c.Text == text && fresh(c.Position)
  ensures [C02] start: cursor(c) && cur(c) == 0
}
func runes.(*Cursor).Clone(c)(r) {
  requires cursor(c)
  fact clink(c.Text)
  ensures fresh(r) && fresh(r.Position) && r.Text == c.Text && cur(r) == cur(c)
  ensures [C02] same_place: cursor(r)
}
func runes.(*Cursor).Seek(c, n)(r) {
  requires inside(c) && n >= 0
  fact clink(c.Text)
  ensures [C01,C03] r == tch(P(c), cur(c) + n)
}
func runes.(*Cursor).Next(c)(r) {
  requires cursor(c)
  fact clink(c.Text)
  modifies c.Position.Index, c.Position.Line, c.Position.Col, c.wasLF
  ensures inside(c)
  ensures [C02] line_and_column: cursor(c)
  ensures [C01,C03] one_step: cur(c) == nx(P(c), old(cur(c)))
  ensures [C01,C03] rune_returned: r == tch(P(c), cur(c))
  ensures tch(P(c), old(cur(c))) == tch(P(c), old(cur(c)))
}
func runes.(*Position).Clone(p)(r) {
  requires p != nil
  ensures fresh(r) && r.Index == p.Index && r.Line == p.Line && r.Col == p.Col
}
func runes.Equal(a, b)(r) {
  ensures [C03] r <==> seqeq(a, b)
  foreach k int :: forall j int {a[j]} {b[j]} :: 0 <= j < k ==> a[j] == b[j]
  foreach k int :: forall j int {a[j]} {b[j]} :: 0 <= j <= k ==> a[j] == b[j]
}
extern unicode.IsLetter(r)(b) { ensures b == uletter(r) }
extern unicode.IsSpace(r)(b) { ensures b == uspace(r) }
axiom forall s str {upper(upper(s))} :: upper(upper(s)) == upper(s)
extern strings.ToUpper(s)(r) { ensures r == upper(s) }
extern strings.ToLower(s)(r) { ensures r == lower(s) }
// errors made here are never the parser's own signal to leave a list
extern errors.Errorf(format, args)(r) { ensures r != nil && !typeis(r, *parser.QuitUntilType) }
extern errors.Wrapf(e, format, args)(r) { ensures ((r == nil) <==> (e == nil)) && !typeis(r, *parser.QuitUntilType) }
extern fmt.Errorf(format, args)(r) { ensures r != nil && !typeis(r, *parser.QuitUntilType) }
extern strings.EqualFold(a, b)(r) { ensures upper(a) == upper(b) ==> r }

// ---------- token ----------
// t is the token of kind k from i to e of the cursor's text, and shares nothing with the cursor
def tokspan(t,c,i,e) = fresh(t) && t.text == c.Text && t.Start.Index == i && t.End.Index == e && 0 <= i <= e <= c.Len
def tokpos(t,c,i,e) = posat(t.Start, P(c), i) && posat(t.End, P(c), e)
def tokown(t) = t.Start != nil && t.End != nil && fresh(t.Start) && fresh(t.End)

group proc {
  theory lex
  requires cursor(c)
  fact clink(c.Text)
  modifies c.Position.Index, c.Position.Line, c.Position.Col, c.wasLF
  ensures cursor(c)
  ensures [C04] nil_stays: t == nil ==> cur(c) == old(cur(c))
  ensures [C04] advances: t != nil ==> cur(c) > old(cur(c)) || t.Type == token.EOF
  ensures t != nil ==> tokown(t)
  ensures [C01] span: t != nil ==> tokspan(t, c, old(cur(c)), cur(c))
  ensures [C02] position: t != nil ==> tokpos(t, c, old(cur(c)), cur(c))
  loopinv cursor(c)
  loopinv cur(c) >= old(cur(c))
  loopinv cur(c) > old(cur(c))
  loopinv tch(P(c), cur(c)) != 0
  loopinv !seen(pair(tch(P(c), cur(c)), tch(P(c), cur(c)+1)))
  foreach l rune :: l == tch(P(c), cur(c))
  measure c.Len - cur(c)
}
group ends {
  loopinv bend(P(c), cur(c)+1) == bend(P(c), old(cur(c))+1)
  loopinv bend(P(c), cur(c)) == bend(P(c), old(cur(c))+1)
  loopinv lend(P(c), cur(c)+1) == lend(P(c), old(cur(c))+1)
  loopinv lend(P(c), cur(c)) == lend(P(c), old(cur(c))+1)
  loopinv pend(P(c), cur(c)+1) == pend(P(c), old(cur(c))+1)
  loopinv pend(P(c), cur(c)) == pend(P(c), old(cur(c))+1)
  loopinv send(P(c), cur(c)+1) == send(P(c), old(cur(c))+1)
  loopinv send(P(c), cur(c)) == send(P(c), old(cur(c))+1)
  foreach l rune :: (l == 92) <==> tch(P(c), cur(c)) == 92
  foreach b bool :: b <==> tch(P(c), cur(c)) == 92
  foreach b bool :: b <==> tch(P(c), cur(c)) != 92
  loopinv wend(P(c), cur(c)+1) == wend(P(c), old(cur(c))+1)
  loopinv wend(P(c), cur(c)) == wend(P(c), old(cur(c))+1)
  loopinv spend(P(c), cur(c)+1) == spend(P(c), old(cur(c))+1)
  loopinv spend(P(c), cur(c)) == spend(P(c), old(cur(c))+1)
  foreach k token.Type :: k == token.NumeralInt || k == token.NumeralReal
  foreach k token.Type :: nend(P(c), cur(c)+1, k == token.NumeralReal) == nend(P(c), old(cur(c))+1, false)
  foreach k token.Type :: nreal(P(c), cur(c)+1, k == token.NumeralReal) <==> nreal(P(c), old(cur(c))+1, false)
  foreach k token.Type :: nend(P(c), cur(c), k == token.NumeralReal) == nend(P(c), old(cur(c))+1, false)
  foreach k token.Type :: nreal(P(c), cur(c), k == token.NumeralReal) <==> nreal(P(c), old(cur(c))+1, false)
}
func token.NewToken(typ, text, start, end)(t) {
  ensures fresh(t) && t.Type == typ && t.text == text && t.Start == start && t.End == end
}
func token.ProcessEof(c)(t) {
  uses proc, ends
  ensures [C03,C04] when: t != nil <==> tch(P(c), old(cur(c))) == 0
  ensures [C03] kind: t != nil ==> t.Type == token.EOF && cur(c) == old(cur(c))
}
func token.ProcessComment(c)(t) {
  uses proc, ends
  ensures [C03,C04] when: t != nil <==> sComment(P(c), old(cur(c)))
  ensures [C03] kind: t != nil ==> t.Type == token.Comment && cur(c) == cend(P(c), old(cur(c)))
}
func token.ProcessString(c)(t) {
  uses proc, ends
  ensures [C03,C04] when: t != nil <==> sString(P(c), old(cur(c)))
  ensures [C03] kind: t != nil ==> t.Type == token.CharacterString && cur(c) == send(P(c), old(cur(c))+1)
}
func token.ProcessNumeral(c)(t) {
  uses proc, ends
  ensures [C03,C04] when: t != nil <==> sNum(P(c), old(cur(c)))
  ensures [C03] kind: t != nil ==> t.Type == (nreal(P(c), old(cur(c))+1, false) ? token.NumeralReal : token.NumeralInt) && cur(c) == nend(P(c), old(cur(c))+1, false)
}
func token.ProcessDoubleSpecialSymbol(c)(t) {
  uses proc, ends
  ensures [C03,C04] when: t != nil <==> sDouble(P(c), old(cur(c)))
  ensures [C03] kind: t != nil ==> t.Type == token.SpecialSymbol && cur(c) == old(cur(c)) + 2
}
func token.ProcessSingleSpecialSymbol(c)(t) {
  uses proc, ends
  ensures [C03,C04] when: t != nil <==> sSingle(P(c), old(cur(c)))
  ensures [C03] kind: t != nil ==> t.Type == token.SpecialSymbol && cur(c) == old(cur(c)) + 1
}
func token.ProcessWord(c)(t) {
  uses proc, ends
  ensures [C03,C04] when: t != nil <==> sWord(P(c), old(cur(c)))
  ensures [C03] extent: t != nil ==> cur(c) == wend(P(c), old(cur(c))+1)
  ensures [C03] kind: t != nil ==> t.Type == (reservedw(upper(ttext(P(c), old(cur(c)), cur(c)))) ? token.ReservedWord : token.Identifier)
}
func token.ProcessSpace(c)(t) {
  uses proc, ends
  ensures [C03,C04] when: t != nil <==> sSpace(P(c), old(cur(c)))
  ensures [C03] kind: t != nil ==> t.Type == token.Space && cur(c) == spend(P(c), old(cur(c))+1)
}
func token.ProcessIllegal(c)(t) {
  uses proc, ends
  requires tch(P(c), cur(c)) != 0
  ensures [C04] t != nil
  ensures [C03] kind: t.Type == token.Illegal && cur(c) == old(cur(c)) + 1
}
// the whole tokenizer: skipped tokens are spaces and comments the user did not ask for
theory lex
ghost func gnext(p ref, i int, ls bool, lc bool) int
axiom forall p ref, i int, ls bool, lc bool {gnext(p,i,ls,lc)} :: gnext(p,i,ls,lc) ==
  ((tkind(p,i) == token.Space && !ls) || (tkind(p,i) == token.Comment && !lc) ? gnext(p, tend(p,i), ls, lc) : i)
theory base
func token.NewTokenizer(text, flags)(t) {
  requires text != nil && link(text)
  fact clink(text)
  ensures fresh(t) && t.Cursor.Text == text && fresh(t.Cursor) && fresh(t.Cursor.Position)
  ensures [C01,C02] start: cursor(t.Cursor) && cur(t.Cursor) == 0
  ensures [C01] plain: flags == 0 ==> !t.loadSpace && !t.loadComment
}
func token.(*Tokenizer).Clone(t)(r) {
  requires t != nil && cursor(t.Cursor)
  fact clink(t.Cursor.Text)
  ensures fresh(r) && fresh(r.Cursor) && fresh(r.Cursor.Position) && r.Cursor.Text == t.Cursor.Text && r.loadSpace == t.loadSpace && r.loadComment == t.loadComment
  ensures [C01,C02] same_place: cursor(r.Cursor) && cur(r.Cursor) == cur(t.Cursor)
}
func token.(*Tokenizer).GetNext(t)(k) {
  theory lex
  requires t != nil && cursor(t.Cursor)
  fact clink(t.Cursor.Text)
  modifies t.Cursor.Position.Index, t.Cursor.Position.Line, t.Cursor.Position.Col, t.Cursor.wasLF
  ensures cursor(t.Cursor)
  ensures [C04] token_returned: k != nil && fresh(k) && tokown(k)
  ensures [C04] progress: k.Type != token.EOF ==> cur(t.Cursor) > old(cur(t.Cursor))
  ensures [C01] span: let g = gnext(P(t.Cursor), old(cur(t.Cursor)), t.loadSpace, t.loadComment) :: tokspan(k, t.Cursor, g, tend(P(t.Cursor), g)) && cur(t.Cursor) == tend(P(t.Cursor), g)
  ensures [C02] position: let g = gnext(P(t.Cursor), old(cur(t.Cursor)), t.loadSpace, t.loadComment) :: tokpos(k, t.Cursor, g, tend(P(t.Cursor), g))
  ensures [C03] kind: let g = gnext(P(t.Cursor), old(cur(t.Cursor)), t.loadSpace, t.loadComment) :: k.Type == tkind(P(t.Cursor), g)
  ensures [C01] after: k.Start.Index >= old(cur(t.Cursor)) && (k.Type != token.EOF ? k.Start.Index < k.End.Index : k.Start.Index == k.End.Index)
  recmeasure t.Cursor.Len - t.Cursor.Position.Index
  loopinv cursor(t.Cursor)
  loopinv gnext(P(t.Cursor), cur(t.Cursor), t.loadSpace, t.loadComment) == gnext(P(t.Cursor), old(cur(t.Cursor)), t.loadSpace, t.loadComment)
  loopinv cur(t.Cursor) >= old(cur(t.Cursor))
  measure t.Cursor.Len - cur(t.Cursor)
}
def tokwf(t) = t != nil && t.text != nil && t.Start != nil && t.End != nil && link(t.text) && 0 <= t.Start.Index <= t.End.Index <= tlen(ref(t.text))
func token.(*Token).Clone(t)(r) {
  requires tokwf(t)
  fact clink(t.text)
  ensures fresh(r) && r.Type == t.Type && r.text == t.text && tokown(r)
  ensures [C01] span: r.Start.Index == t.Start.Index && r.End.Index == t.End.Index
  ensures [C02] position: r.Start.Line == t.Start.Line && r.Start.Col == t.Start.Col && r.End.Line == t.End.Line && r.End.Col == t.End.Col
}
func token.(*Token).RawString(t)(s) {
  requires tokwf(t)
  fact clink(t.text)
  ensures [C01] text: s == ttext(ref(t.text), t.Start.Index, t.End.Index)
}
func token.(*Token).Value(t)(s) {
  requires tokwf(t)
  fact clink(t.text)
  ensures [C01,C03] text: s == (t.Type == token.ReservedWord ? upper(ttext(ref(t.text), t.Start.Index, t.End.Index)) : ttext(ref(t.text), t.Start.Index, t.End.Index))
}
func token.(*Token).Len(t)(n) {
  requires tokwf(t)
  fact clink(t.text)
  ensures [C01] n == t.End.Index - t.Start.Index
}
func token.isReservedWord(w)(b) {
  ensures [C03] b <==> reservedw(upper(w))
}
global [C03] token.reservedWords: token.reservedWords != nil && (forall s string {has(token.reservedWords, s)} :: has(token.reservedWords, s) <==> reservedw(s))
global [C03] token.SingleSpecialSymbols: token.SingleSpecialSymbols != nil && (forall r rune {has(token.SingleSpecialSymbols, r)} :: has(token.SingleSpecialSymbols, r) <==> single(r)) && (forall r rune {token.SingleSpecialSymbols[r]} :: token.SingleSpecialSymbols[r] <==> single(r))
global [C03] token.TwoRunesSpecialSymbols: token.TwoRunesSpecialSymbols != nil && (forall a rune, b rune {hasp(token.TwoRunesSpecialSymbols, pair(a,b))} :: hasp(token.TwoRunesSpecialSymbols, pair(a,b)) <==> double(a,b))
safety runes C04
safety token C04
terminates runes C04
terminates token C04
