// ---------- the parser's view of the token stream ----------
// X(p): the text.  at(p): where the current token starts.  Tokens are named by the index they start at.
def X(p) = ref(p.tokenizer.Cursor.Text)
def at(p) = p.curr.Start.Index
def nxt(x,i) = gnext(x, tend(x,i), false, false)
def txt(x,i) = ttext(x, i, tend(x,i))
// value of the token at i: reserved words in capitals
def val(x,i) = tval(tkind(x,i), txt(x,i))
def acc(pr,x,i) = holds(pr, tkind(x,i), txt(x,i))
def sym(x,i,s) = tkind(x,i) == token.SpecialSymbol && txt(x,i) == s
def kw(x,i,s) = tkind(x,i) == token.ReservedWord && upper(txt(x,i)) == s
def ident(x,i) = tkind(x,i) == token.Identifier
def rem(p) = p.tokenizer.Cursor.Len - at(p)
ghost field any.$from int
ghost field any.$to int

def ps0(p) = p != nil && p.tokenizer != nil && cursor(p.tokenizer.Cursor) && !p.tokenizer.loadSpace && !p.tokenizer.loadComment
   && p.context != nil && mok(p.context) && minv() && mapinv() && tinv() && cinv()
def cur1(p) = let x = X(p) :: p.curr.text == p.tokenizer.Cursor.Text && p.curr.Type == tkind(x, at(p))
   && p.curr.End.Index == tend(x, at(p)) && cur(p.tokenizer.Cursor) == tend(x, at(p)) && (p.curr.Type != token.EOF ? at(p) < tend(x, at(p)) : txt(x, at(p)) == "")
   && p.curr.Start != p.tokenizer.Cursor.Position && p.curr.End != p.tokenizer.Cursor.Position
   && posat(p.curr.Start, x, at(p)) && posat(p.curr.End, x, tend(x, at(p)))
def ps(p) = ps0(p) && tokwf(p.curr) && cur1(p)
// err is not the signal that ends a list early
def noquit(e) = !typeis(e, *parser.QuitUntilType)
def strm(p) = (p.tokenizer == old(p.tokenizer) || (fresh(p.tokenizer) && fresh(p.tokenizer.Cursor) && fresh(p.tokenizer.Cursor.Position))) && p.context == old(p.context)

func parser.NewParser(ctx)(p) {
  requires ctx != nil
  ensures fresh(p) && p.context == ctx && p.curr == nil && p.tokenizer == nil
}
func parser.(*Parser).SetText(p, text) {
  requires p != nil && text != nil && link(text) && p.context != nil && mok(p.context) && minv() && mapinv() && tinv() && cinv()
  modifies p.tokenizer
  ensures ps0(p) && p.tokenizer.Cursor.Text == text && cur(p.tokenizer.Cursor) == 0 && fresh(p.tokenizer) && fresh(p.tokenizer.Cursor) && fresh(p.tokenizer.Cursor.Position)
}
group move {
  modifies p.curr, p.tokenizer.Cursor.Position.Index, p.tokenizer.Cursor.Position.Line, p.tokenizer.Cursor.Position.Col, p.tokenizer.Cursor.wasLF
}
func parser.(*Parser).NextToken(p)(t) {
  uses move
  requires ps0(p)
  ensures ps(p) && t == p.curr && fresh(t) && fresh(t.Start) && fresh(t.End)
  ensures [C07] next: at(p) == gnext(X(p), old(cur(p.tokenizer.Cursor)), false, false)
  ensures forward: at(p) >= old(cur(p.tokenizer.Cursor))
}
func parser.(*Parser).CurrentToken(p)(t) { inline }
func parser.(*Parser).Next(p, pred)(t, err) {
  uses move
  requires ps(p) && predok(pred)
  ensures ps(p) && fresh(p.curr) && fresh(p.curr.Start) && fresh(p.curr.End)
  ensures [C07] next: at(p) == old(nxt(X(p), at(p)))
  ensures at(p) >= old(tend(X(p), at(p)))
  ensures [C07] checks: (err == nil <==> acc(pred, X(p), at(p))) && (err == nil ==> t == p.curr) && noquit(err)
}
func parser.(*Parser).Current(p, pred)(t, err) {
  requires ps(p) && predok(pred)
  ensures [C07] checks: (err == nil <==> acc(pred, X(p), at(p))) && (err == nil ==> t == p.curr) && noquit(err)
}
func parser.(*Parser).Validate(p, t, preds)(err) {
  requires ps(p) && tokwf(t) && (forall q in preds :: predok(q))
  ensures [C07] checks: err == nil <==> (forall q in preds :: holds(q, t.Type, raw(t)))
  ensures noquit(err)
  foreach k int :: forall j int {preds[j]} :: 0 <= j < k ==> holds(preds[j], t.Type, raw(t))
  foreach k int :: forall j int {preds[j]} :: 0 <= j <= k ==> holds(preds[j], t.Type, raw(t))
}
func parser.(*Parser).TokenErrorf(p, format, t, args)(err) {
  requires p != nil && p.context != nil && mok(p.context) && minv() && tokwf(t)
  ensures err != nil && noquit(err)
}
func token.(*Token).String(t)(r) {
  requires tokwf(t)
  fact clink(t.text)
}
func parser.(*Parser).Until(p, terminator, separator, fn)(err) { inline }
func parser.(*Parser).TraceMethod(p, name)(f) { inline }
func parser.(*Parser).Logf(p, format, args) { inline }
func parser.(*Parser).RollbackPoint(p)(f) { inline }
func parser.(*Parser).SetupPostSectionFuncs(p)(f) { inline }
immutable "F|parser.Parser|context"
safety parser C05
terminates parser C06
// a node of the tree is filled in by the function that makes it, and by no other
sealed "F|ast." but "F|ast.TypeId|Ref", "F|ast.ForwardDeclaredClassType|Actual", "F|ast.CustomClassType|Members", "F|ast.UsesClauseItem|Unit", "F|ast.ClassProperty|", "F|ast.Program|", "F|ast.Unit|", "F|ast.InterfaceSection|", "F|ast.ImplementationSection|", "F|ast.ArrayType|Packed", "F|ast.SetType|Packed", "F|ast.RecType|Packed", "F|ast.FileType|Packed"
sealed "E|*ast."
sealed "E|ast."
// a token whose text is a reserved word is one: no other kind of token starts with a letter
theory words
axiom forall x ref, i int {ttext(x,i,tend(x,i))} :: reservedw(upper(ttext(x,i,tend(x,i)))) ==> tkind(x,i) == token.ReservedWord
axiom upper("FUNCTION") == "FUNCTION" && upper("PROCEDURE") == "PROCEDURE" && upper("BEGIN") == "BEGIN" && upper("ASM") == "ASM"
theory base
