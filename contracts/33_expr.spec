// ---------- expressions ----------
// What the parser does to its own state: it moves along the token stream, or back to an earlier place of it.
group stream {
  requires ps(p)
  modifies p.curr, p.tokenizer, p.tokenizer.Cursor.Position.Index, p.tokenizer.Cursor.Position.Line, p.tokenizer.Cursor.Position.Col, p.tokenizer.Cursor.wasLF
  ensures ps(p) && X(p) == old(X(p)) && strm(p)
  ensures noquit(err)
  ensures [C07] forward: at(p) >= old(at(p))
  loopinv ps(p) && X(p) == old(X(p)) && strm(p)
  loopinv at(p) >= old(at(p))
  loopinv at(p) > old(at(p))
  foreach t *token.Token :: t == p.curr
  measure rem(p)
}
group span {
  ghost if err == nil: r.$from := old(at(p))
  ghost if err == nil: r.$to := at(p)
  ensures err == nil ==> r != nil && fresh(r) && r.$from == old(at(p)) && r.$to == at(p)
  ensures err == nil ==> at(p) > old(at(p))
}
def adj(i,k) = k == i + 1
def isrel(k,s) = (k == token.SpecialSymbol && (s == ">" || s == "<" || s == "<=" || s == ">=" || s == "=" || s == "<>")) || (k == token.ReservedWord && (upper(s) == "IN" || upper(s) == "IS"))
def isadd(k,s) = (k == token.SpecialSymbol && (s == "+" || s == "-")) || (k == token.ReservedWord && (upper(s) == "OR" || upper(s) == "XOR"))
def ismul(k,s) = (k == token.SpecialSymbol && (s == "*" || s == "/")) || (k == token.ReservedWord && (upper(s) == "DIV" || upper(s) == "MOD" || upper(s) == "AND" || upper(s) == "SHL" || upper(s) == "SHR"))
def isunary(k,s) = k == token.SpecialSymbol && (s == "+" || s == "-")
global [C07] parser.RelOpPredicator: predok(parser.RelOpPredicator) && (forall k int, s str {holds(parser.RelOpPredicator,k,s)} :: holds(parser.RelOpPredicator,k,s) <==> isrel(k,s))
global [C07] parser.AddOpPredicator: predok(parser.AddOpPredicator) && (forall k int, s str {holds(parser.AddOpPredicator,k,s)} :: holds(parser.AddOpPredicator,k,s) <==> isadd(k,s))
global [C07] parser.MulOpPredicator: predok(parser.MulOpPredicator) && (forall k int, s str {holds(parser.MulOpPredicator,k,s)} :: holds(parser.MulOpPredicator,k,s) <==> ismul(k,s))
global [C07] parser.UnaryOpPredicator: predok(parser.UnaryOpPredicator) && (forall k int, s str {holds(parser.UnaryOpPredicator,k,s)} :: holds(parser.UnaryOpPredicator,k,s) <==> isunary(k,s))
def relat(x,i) = isrel(tkind(x,i), txt(x,i))
def addat(x,i) = isadd(tkind(x,i), txt(x,i))
def mulat(x,i) = ismul(tkind(x,i), txt(x,i))
def unaryat(x,i) = isunary(tkind(x,i), txt(x,i))

// e is the operation whose operator stands at j
def relop(x,e,j) = relat(x,j) && e.RelOp == val(x,j) && e.SimpleExpression.$from == nxt(x,j)
def addop(x,e,j) = addat(x,j) && e.AddOp == val(x,j) && e.Term.$from == nxt(x,j)
def mulop(x,e,j) = mulat(x,j) && e.MulOp == val(x,j) && e.Factor.$from == nxt(x,j)
// f followed by the operations of l takes the tokens up to j
def rels(x,f,l,j) = f != nil && (len(l) > 0 ==> relop(x, l[0], f.$to)) && (forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && l[k].SimpleExpression != nil)
   && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> relop(x, l[k], l[i].SimpleExpression.$to))
   && j == (len(l) == 0 ? f.$to : l[len(l)-1].SimpleExpression.$to)
def adds(x,f,l,j) = f != nil && (len(l) > 0 ==> addop(x, l[0], f.$to)) && (forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && l[k].Term != nil)
   && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> addop(x, l[k], l[i].Term.$to))
   && j == (len(l) == 0 ? f.$to : l[len(l)-1].Term.$to)
def muls(x,f,l,j) = f != nil && (len(l) > 0 ==> mulop(x, l[0], f.$to)) && (forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && l[k].Factor != nil)
   && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> mulop(x, l[k], l[i].Factor.$to))
   && j == (len(l) == 0 ? f.$to : l[len(l)-1].Factor.$to)

// v is a node made before, other than o
def sub(o,v) = v != nil && allocated(v) && ref(v) != ref(o)
func parser.(*Parser).ParseExpression(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 40
  ensures [C07] tree: err == nil ==> r.SimpleExpression != nil && r.SimpleExpression.$from == old(at(p)) && rels(X(p), r.SimpleExpression, r.RelOpSimpleExpressions, at(p))
  ensures [C07] whole: err == nil ==> !relat(X(p), at(p))
  foreach e *ast.Expression :: fresh(e) && sub(e, e.SimpleExpression) && e.SimpleExpression.$from == old(at(p)) && rels(X(p), e.SimpleExpression, e.RelOpSimpleExpressions, at(p))
     && (forall k int {e.RelOpSimpleExpressions[k]} :: 0 <= k < len(e.RelOpSimpleExpressions) ==> allocated(e.RelOpSimpleExpressions[k]) && sub(e, e.RelOpSimpleExpressions[k].SimpleExpression))
  foreach f *ast.SimpleExpression, l ast.RelOpSimpleExpressions :: allocated(f) && f.$from == old(at(p)) && rels(X(p), f, l, at(p)) && (forall k int {l[k]} :: 0 <= k < len(l) ==> allocated(l[k]) && allocated(l[k].SimpleExpression))
}
func parser.(*Parser).ParseSimpleExpression(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 30
  ensures [C07] sign: err == nil ==> (let i = old(at(p)) :: unaryat(X(p), i) ? r.UnaryOp != nil && *r.UnaryOp == val(X(p), i) && r.Term.$from == nxt(X(p), i) : r.UnaryOp == nil && r.Term.$from == i)
  ensures [C07] tree: err == nil ==> adds(X(p), r.Term, r.AddOpTerms, at(p))
  ensures [C07] whole: err == nil ==> !addat(X(p), at(p))
  foreach e *ast.SimpleExpression :: fresh(e) && sub(e, e.Term) && adds(X(p), e.Term, e.AddOpTerms, at(p))
     && (forall k int {e.AddOpTerms[k]} :: 0 <= k < len(e.AddOpTerms) ==> allocated(e.AddOpTerms[k]) && sub(e, e.AddOpTerms[k].Term))
  foreach f *ast.Term, l ast.AddOpTerms :: allocated(f) && adds(X(p), f, l, at(p)) && (forall k int {l[k]} :: 0 <= k < len(l) ==> allocated(l[k]) && allocated(l[k].Term))
}
func parser.(*Parser).ParseTerm(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 20
  ensures [C07] tree: err == nil ==> r.Factor != nil && r.Factor.$from == old(at(p)) && muls(X(p), r.Factor, r.MulOpFactors, at(p))
  ensures [C07] whole: err == nil ==> !mulat(X(p), at(p))
  foreach e *ast.Term :: fresh(e) && sub(e, e.Factor) && muls(X(p), e.Factor, e.MulOpFactors, at(p)) && e.Factor.$from == old(at(p))
     && (forall k int {e.MulOpFactors[k]} :: 0 <= k < len(e.MulOpFactors) ==> allocated(e.MulOpFactors[k]) && sub(e, e.MulOpFactors[k].Factor))
  foreach f ast.Factor, l ast.MulOpFactors :: allocated(f) && f.$from == old(at(p)) && muls(X(p), f, l, at(p)) && (forall k int {l[k]} :: 0 <= k < len(l) ==> allocated(l[k]) && allocated(l[k].Factor))
}

// ---------- names ----------
def idof(x,d,i) = d != nil && d.Name == txt(x,i) && d.$from == i && d.$to == nxt(x,i)
func astcore.NewIdent(t)(r) {
  requires tokwf(t)
  ensures [C07] ident: fresh(r) && r.Name == raw(t) && r.Location != nil && fresh(r.Location) && r.Location.Start == t.Start && r.Location.End == t.End
  ghost r.$from := t.Start.Index
  ghost r.$to := nxt(ref(t.text), t.Start.Index)
  ensures r.$from == t.Start.Index && r.$to == nxt(ref(t.text), t.Start.Index)
}
func astcore.NewIdentFrom(arg)(r) { inline }
func astcore.NewIdentRef(ident, ref)(r) { inline }
func parser.(*Parser).NewIdent(p, t)(r) { inline }
func parser.(*Parser).NewIdentRef(p, t)(r) {
  requires ps(p) && tokwf(t)
  ensures fresh(r) && r.Ident != nil && fresh(r.Ident) && r.Ident.Location != nil && r.Ident.Location.Start == t.Start && r.Ident.Location.End == t.End
  ensures [C07] ident: r.Ident.Name == raw(t) && r.Ident.$from == t.Start.Index && r.Ident.$to == nxt(ref(t.text), t.Start.Index)
  ensures [C14] resolved: r.Ref == dget(p.context, raw(t))
}
// d is a namespace: a used unit, this unit or the program
def isns(d) = d != nil && (typeis(d.Node, *ast.UsesClauseItem) || implements(d.Node, ast.Namespace))
def nsmap(d) = typeis(d.Node, *ast.UsesClauseItem) ? as(d.Node, *ast.UsesClauseItem).Unit.DeclMap : (typeis(d.Node, *ast.Unit) ? as(d.Node, *ast.Unit).DeclMap : as(d.Node, *ast.Program).DeclMap)
func parser.(*Parser).IsUnitIdentifier(p, t)(b) {
  requires ps(p) && tokwf(t)
  ensures [C14] b <==> (let d = dget(p.context, tval(t.Type, raw(t))) :: d != nil && typeis(d.Node, *ast.UsesClauseItem))
}
func parser.(*Parser).IsNamespaceIdentifier(p, t)(b) {
  requires ps(p) && tokwf(t)
  ensures [C14] b <==> (let d = dget(p.context, tval(t.Type, raw(t))) :: d != nil && implements(d.Node, ast.Namespace))
}
func parser.(*Parser).ParseQualId(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 1
  ensures [C07] name: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: ident(x,i) && r.Ident != nil && (r.NamespaceId == nil ? idof(x, r.Ident.Ident, i) && at(p) == nxt(x,i) :
      idof(x, r.NamespaceId.Ident, i) && sym(x, nxt(x,i), ".") && (let k = nxt(x, nxt(x,i)) :: ident(x,k) && idof(x, r.Ident.Ident, k) && at(p) == nxt(x,k))))
  ensures [C14] resolved: err == nil ==> (let d = old(dget(p.context, txt(X(p), at(p)))) :: (r.NamespaceId != nil <==> isns(d)) &&
      (r.NamespaceId == nil ? r.Ident.Ref == d : r.NamespaceId.Ref == d && r.Ident.Ref != nil && r.Ident.Ref == dget(nsmap(d), r.Ident.Ident.Name)))
}

// ---------- factors ----------
// the nodes of l, separated by the symbol s, take the tokens from i to j
def lnn(l) = forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && allocated(l[k])
def lfresh(l) = forall k int {l[k]} :: 0 <= k < len(l) ==> fresh(l[k])
def lnn2(l,o) = forall k int {l[k]} :: 0 <= k < len(l) ==> sub(o, l[k])
def lsep(x,l,s) = forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> sym(x, l[i].$to, s) && l[k].$from == nxt(x, l[i].$to)
def lastto(l) = l[len(l)-1].$to
def seps(x,l,i,s) = len(l) > 0 && l[0].$from == i && lnn(l) && lsep(x,l,s)
def ismanifest(s) = upper(s) == "FALSE" || upper(s) == "TRUE"
global [C07] ast.manifestConstants: ast.manifestConstants != nil && (forall s string {has(ast.manifestConstants, s)} :: has(ast.manifestConstants, s) <==> s == "FALSE" || s == "TRUE")
func ast.IsManifestConstant(w)(b) {
  ensures [C07] b <==> ismanifest(w)
}
func parser.(*Parser).ParseExprList(p, terminator)(r, err) {
  uses stream
  requires predok(terminator)
  recmeasure rem(p) * 100 + 41
  ensures [C07] list: err == nil ==> seps(X(p), r, old(at(p)), ",") && at(p) == lastto(r) && acc(terminator, X(p), at(p))
  ensures err == nil ==> at(p) > old(at(p)) && fresh(r) && lfresh(r)
  foreach l ast.ExprList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(at(p)) && sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.ExprList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.ExprList :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.ExprList :: len(l) > 0
  foreach l ast.ExprList :: lsep(X(p), l, ",")
  foreach l ast.ExprList :: len(l) == 0 ==> at(p) == old(at(p))
}
func parser.(*Parser).ParseSetElement(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 41
  ensures [C07] element: err == nil ==> (let x = X(p) :: r.Expression != nil && r.Expression.$from == old(at(p)) &&
     (r.SubRangeEnd == nil ? at(p) == r.Expression.$to && !sym(x, at(p), "..") : sym(x, r.Expression.$to, "..") && r.SubRangeEnd.$from == nxt(x, r.Expression.$to) && at(p) == r.SubRangeEnd.$to))
}
def setof(x,r,i) = sym(x,i,"[") && (len(r.SetElements) == 0 ? true : seps(x, r.SetElements, nxt(x,i), ","))
def setend(x,r,i) = len(r.SetElements) == 0 ? nxt(x,i) : lastto(r.SetElements)
func parser.(*Parser).ParseSetConstructor(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 5
  ensures [C07] set: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: setof(x,r,i) && at(p) == setend(x,r,i) && sym(x, at(p), "]"))
  ensures err == nil ==> lnn2(r.SetElements, r)
  foreach r *ast.SetConstructor :: fresh(r) && lnn2(r.SetElements, r) && (len(r.SetElements) > 0 ==> r.SetElements[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(r.SetElements), ",") && at(p) == nxt(X(p), lastto(r.SetElements)))
  foreach r *ast.SetConstructor :: lsep(X(p), r.SetElements, ",")
  foreach r *ast.SetConstructor :: len(r.SetElements) == 0 ==> at(p) == old(nxt(X(p), at(p)))
  foreach l []*ast.SetElement :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l []*ast.SetElement :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))))
  foreach l []*ast.SetElement :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l []*ast.SetElement :: len(l) > 0
  foreach l []*ast.SetElement :: lsep(X(p), l, ",")
  foreach l []*ast.SetElement :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}
func parser.(*Parser).ParseManifestConstant(p, t, skip)(r, err) { inline }
func parser.(*Parser).ParseStringFactor(p, t, skip)(r, err) { inline }
func parser.(*Parser).ParseNumberFactor(p, t, skip)(r, err) { inline }

func ast.NewDesignatorItemIdent(arg)(r) { inline }
func ast.NewTypeId(a, rest)(r) { inline }
// where the item i ends
def itemend(x,it) = typeis(it, *ast.DesignatorItemIdent) ? as(it, *ast.DesignatorItemIdent).Ident.$to : (typeis(it, ast.DesignatorItemExprList) ? nxt(x, lastto(as(it, ast.DesignatorItemExprList))) : it.$to)
// it is the item at i
def itemok(x,it,i) = it != nil && (typeis(it, *ast.DesignatorItemIdent) ? sym(x,i,".") && idof(x, as(it, *ast.DesignatorItemIdent).Ident, nxt(x,i)) && ident(x, nxt(x,i)) :
   (typeis(it, ast.DesignatorItemExprList) ? sym(x,i,"[") && (let l = as(it, ast.DesignatorItemExprList) :: seps(x, l, nxt(x,i), ",") && sym(x, lastto(l), "]")) :
   (typeis(it, *ast.DesignatorItemDereference) && sym(x,i,"^"))))
def items(x,r) = (len(r.Items) > 0 ==> itemok(x, r.Items[0], r.QualId.$to))
  && (forall i int, k int {r.Items[i],r.Items[k]} :: 0 <= i && adj(i,k) && k < len(r.Items) ==> itemok(x, r.Items[k], itemend(x, r.Items[i])))
def itemsend(x,r) = len(r.Items) == 0 ? r.QualId.$to : itemend(x, r.Items[len(r.Items)-1])
// the items are not the designator itself, nor are their parts
def itemsfr(r) = forall k int {r.Items[k]} :: 0 <= k < len(r.Items) ==> r.Items[k] != nil && allocated(r.Items[k]) && (typeis(r.Items[k], *ast.DesignatorItemIdent) ? sub(r, as(r.Items[k], *ast.DesignatorItemIdent).Ident) :
   (typeis(r.Items[k], ast.DesignatorItemExprList) ? (let l = as(r.Items[k], ast.DesignatorItemExprList) :: lnn2(l, r) && len(l) > 0 && sub(r, l[0]) && sub(r, l[len(l)-1])) : ref(r.Items[k]) != ref(r)))
// the same for a list not yet in a designator
def litems(x,q,l) = (len(l) > 0 ==> itemok(x, l[0], q.$to)) && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> itemok(x, l[k], itemend(x, l[i])))
def litemsend(x,q,l) = len(l) == 0 ? q.$to : itemend(x, l[len(l)-1])
def litemsfr(t) = forall k int {t[k]} :: 0 <= k < len(t) ==> t[k] != nil && allocated(t[k]) && (typeis(t[k], *ast.DesignatorItemIdent) ? as(t[k], *ast.DesignatorItemIdent).Ident != nil && allocated(as(t[k], *ast.DesignatorItemIdent).Ident) :
   (typeis(t[k], ast.DesignatorItemExprList) ? (let l = as(t[k], ast.DesignatorItemExprList) :: lnn(l) && len(l) > 0 && allocated(l[0]) && allocated(l[len(l)-1])) : true))
func parser.(*Parser).ParseDesignator(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 2
  ensures [C07] name: err == nil ==> r.QualId != nil && r.QualId.$from == old(at(p)) && ident(X(p), old(at(p)))
  ensures [C07] items: err == nil ==> items(X(p), r) && at(p) == itemsend(X(p), r)
  ensures [C07] whole: err == nil ==> !sym(X(p), at(p), ".") && !sym(X(p), at(p), "[") && !sym(X(p), at(p), "^")
  ghost new ast.DesignatorItemDereference d: d.$to := nxt(X(p), at(p))
  foreach r *ast.Designator :: fresh(r) && sub(r, r.QualId) && r.QualId.$from == old(at(p)) && itemsfr(r) && at(p) == itemsend(X(p), r)
  loopinv ident(X(p), old(at(p)))
  foreach r *ast.Designator :: items(X(p), r)
  foreach q *ast.QualId, l ast.DesignatorItems :: q != nil && allocated(q) && q.$from == old(at(p)) && litems(X(p), q, l) && litemsfr(l) && at(p) == litemsend(X(p), q, l)
}
def parenlist(x,l,i) = seps(x, l, nxt(x,i), ",") && sym(x, lastto(l), ")")
def typed(x,r,i,j) = typeis(r, *ast.Address) ? sym(x,i,"@") && (let d = as(r, *ast.Address).Designator :: d != nil && d.$from == nxt(x,i) && j == d.$to) :
  (typeis(r, *ast.SetConstructor) ? (let s = as(r, *ast.SetConstructor) :: setof(x,s,i) && sym(x, setend(x,s,i), "]") && j == nxt(x, setend(x,s,i))) :
  (typeis(r, *ast.Parentheses) ? sym(x,i,"(") && (let e = as(r, *ast.Parentheses).Expression :: e != nil && e.$from == nxt(x,i) && sym(x, e.$to, ")") && j == nxt(x, e.$to)) :
  (typeis(r, *ast.Nil) ? kw(x,i,"NIL") && j == nxt(x,i) :
  (typeis(r, *ast.Not) ? kw(x,i,"NOT") && (let f = as(r, *ast.Not).Factor :: f != nil && f.$from == nxt(x,i) && j == f.$to) :
  (typeis(r, *ast.ValueFactor) ? ismanifest(txt(x,i)) && as(r, *ast.ValueFactor).Value == txt(x,i) && j == nxt(x,i) :
  (typeis(r, *ast.StringFactor) ? tkind(x,i) == token.CharacterString && as(r, *ast.StringFactor).Value == txt(x,i) && j == nxt(x,i) :
  (typeis(r, *ast.NumberFactor) ? (tkind(x,i) == token.NumeralInt || tkind(x,i) == token.NumeralReal) && as(r, *ast.NumberFactor).Value == txt(x,i) && j == nxt(x,i) :
  (typeis(r, *ast.TypeCast) ? ident(x,i) && sym(x, nxt(x,i), "(") && (let c = as(r, *ast.TypeCast) :: c.TypeId != nil && c.TypeId.UnitId == nil && idof(x, c.TypeId.Ident, i) && c.Expression != nil && c.Expression.$from == nxt(x, nxt(x,i)) && sym(x, c.Expression.$to, ")") && j == nxt(x, c.Expression.$to)) :
  (typeis(r, *ast.DesignatorFactor) ? ident(x,i) && (let d = as(r, *ast.DesignatorFactor) :: d.Designator != nil && d.Designator.$from == i &&
      (len(d.ExprList) == 0 ? j == d.Designator.$to && !sym(x, j, "(") : sym(x, d.Designator.$to, "(") && parenlist(x, d.ExprList, d.Designator.$to) && j == nxt(x, lastto(d.ExprList)))) : false)))))))))
def typename(d) = d != nil && typeis(d.Node, *ast.TypeDecl)
func parser.(*Parser).ParseFactor(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 10
  ensures [C07] factor: err == nil ==> typed(X(p), r, old(at(p)), at(p))
  ensures [C14] cast: err == nil ==> (let d = old(dget(p.context, txt(X(p), at(p)))) :: (typeis(r, *ast.TypeCast) ==> typename(d) && as(r, *ast.TypeCast).TypeId.Ref == d)
     && (typeis(r, *ast.DesignatorFactor) ==> !(typename(d) && sym(X(p), nxt(X(p), old(at(p))), "("))))
}
