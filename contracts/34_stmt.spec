// ---------- statements ----------
// A statement moves along the stream; what it declares (the identifier of an exception handler) is gone when it ends.
group sstream {
  uses stream
  modifies p.postSectionFuncs
  modifies $fpin, $fpname, $fpanc, $fprop
  modifies as(p.context, *pcontext.ProgramContext).DeclMap when typeis(p.context, *pcontext.ProgramContext)
  modifies as(p.context, *pcontext.UnitContext).DeclMap when typeis(p.context, *pcontext.UnitContext)
  modifies as(p.context, *pcontext.StackableContext).declMap when typeis(p.context, *pcontext.StackableContext)
  ensures [C12] scope: scope(p.context) == old(scope(p.context))
  loopinv scope(p.context) == old(scope(p.context))
}
group lspan {
  ensures err == nil ==> at(p) > old(at(p)) && fresh(r) && lfresh(r)
}
func parser.(*Parser).ParseConstExpr(p)(r, err) { inline }
func ast.NewLabelId(arg)(r) { inline }
func ast.NewIdent(arg)(r) { inline }

// the statements of l from i to j; the last one may be followed by a semicolon
def stmts(x,l,i,j) = seps(x,l,i,";") && (j == lastto(l) || (sym(x,lastto(l),";") && j == nxt(x,lastto(l))))
func parser.(*Parser).ParseStmtList(p, terminator)(r, err) {
  uses sstream, lspan
  requires predok(terminator)
  recmeasure rem(p) * 100 + 61
  ensures [C08] list: err == nil ==> stmts(X(p), r, old(at(p)), at(p)) && acc(terminator, X(p), at(p))
  foreach l ast.StmtList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(at(p)) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.StmtList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.StmtList :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.StmtList :: len(l) > 0
  foreach l ast.StmtList :: lsep(X(p), l, ";")
  foreach l ast.StmtList :: len(l) == 0 ==> at(p) == old(at(p))
}
def compound(x,r,i,j) = kw(x,i,"BEGIN") && (let l = r.StmtList :: seps(x,l,nxt(x,i),";") && (let e = lastto(l) :: (kw(x,e,"END") && j == nxt(x,e)) || (sym(x,e,";") && kw(x,nxt(x,e),"END") && j == nxt(x,nxt(x,e)))))
func parser.(*Parser).ParseCompoundStmt(p, required)(r, err) {
  uses sstream
  recmeasure rem(p) * 100 + 50
  ghost if err == nil && r != nil: r.$from := old(at(p))
  ghost if err == nil && r != nil: r.$to := at(p)
  ensures err == nil && r != nil ==> fresh(r) && r.$from == old(at(p)) && r.$to == at(p) && at(p) > old(at(p))
  ensures [C08] block: err == nil && r != nil ==> compound(X(p), r, old(at(p)), at(p))
  ensures [C08] none: err == nil && r == nil ==> !required && at(p) == old(at(p)) && !kw(X(p), at(p), "BEGIN")
}
def islabel(d) = d != nil && typeis(d.Node, *ast.LabelDeclSection)
// the body at k: which kind of statement it is
def bodykind(x,b,k) = (kw(x,k,"INHERITED") <==> typeis(b, *ast.InheritedStatement)) && (kw(x,k,"GOTO") <==> typeis(b, *ast.GotoStatement)) && (kw(x,k,"BEGIN") <==> typeis(b, *ast.CompoundStmt))
  && (kw(x,k,"IF") <==> typeis(b, *ast.IfStmt)) && (kw(x,k,"CASE") <==> typeis(b, *ast.CaseStmt)) && (kw(x,k,"REPEAT") <==> typeis(b, *ast.RepeatStmt)) && (kw(x,k,"WHILE") <==> typeis(b, *ast.WhileStmt))
  && (kw(x,k,"FOR") <==> typeis(b, *ast.ForStmt)) && (kw(x,k,"WITH") <==> typeis(b, *ast.WithStmt)) && (kw(x,k,"TRY") <==> typeis(b, *ast.TryExceptStmt) || typeis(b, *ast.TryFinallyStmt))
  && (kw(x,k,"RAISE") <==> typeis(b, *ast.RaiseStmt)) && (kw(x,k,"ASM") <==> typeis(b, *ast.AssemblerStatement)) && (ident(x,k) <==> typeis(b, *ast.CallStatement) || typeis(b, *ast.AssignStatement))
func parser.(*Parser).ParseStatement(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 60
  ensures [C08] label: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: r.Body != nil && (r.LabelId == nil ? r.Body.$from == i : idof(x, r.LabelId, i) && sym(x, nxt(x,i), ":") && r.Body.$from == nxt(x, nxt(x,i))))
  ensures [C08] body: err == nil ==> r.Body.$to == at(p) && bodykind(X(p), r.Body, r.Body.$from)
  ensures [C14] label: err == nil ==> (r.LabelId != nil <==> islabel(old(dget(p.context, val(X(p), at(p))))))
}
func parser.(*Parser).ParseDesignatorStatement(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 43
  ensures [C08] kind: err == nil ==> (typeis(r, *ast.AssignStatement) || typeis(r, *ast.CallStatement)) && ident(X(p), old(at(p)))
  ensures [C08] assign: err == nil && typeis(r, *ast.AssignStatement) ==> (let x = X(p) :: let a = as(r, *ast.AssignStatement) :: a.Designator != nil && a.Designator.$from == old(at(p)) && val(x, a.Designator.$to) == ":=" && a.Expression != nil && a.Expression.$from == nxt(x, a.Designator.$to) && at(p) == a.Expression.$to)
  ensures [C08] call: err == nil && typeis(r, *ast.CallStatement) ==> (let x = X(p) :: let a = as(r, *ast.CallStatement) :: a.Designator != nil && a.Designator.$from == old(at(p)) && val(x, a.Designator.$to) != ":=" &&
     (len(a.ExprList) == 0 ? at(p) == a.Designator.$to && !sym(x, at(p), "(") : sym(x, a.Designator.$to, "(") && parenlist(x, a.ExprList, a.Designator.$to) && at(p) == nxt(x, lastto(a.ExprList))))
}
func parser.(*Parser).ParseInheritedStmt(p)(r, err) {
  uses stream, span
  ensures [C08] inherited: err == nil ==> kw(X(p), old(at(p)), "INHERITED") && at(p) == old(nxt(X(p), at(p)))
}
func parser.(*Parser).ParseGotoStatement(p)(r, err) {
  uses stream, span
  ensures [C08] goto: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"GOTO") && ident(x, nxt(x,i)) && idof(x, r.LabelId, nxt(x,i)) && at(p) == nxt(x, nxt(x,i)))
  ensures [C14] goto: err == nil ==> r.Ref == old(dget(p.context, txt(X(p), nxt(X(p), at(p)))))
}
func parser.(*Parser).ParseIfStmt(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 50
  ensures [C08] if: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"IF") && r.Condition != nil && r.Condition.$from == nxt(x,i) && kw(x, r.Condition.$to, "THEN") && r.Then != nil && r.Then.$from == nxt(x, r.Condition.$to))
  ensures [C08] else: err == nil ==> (let x = X(p) :: r.Else == nil ? at(p) == r.Then.$to && !kw(x, at(p), "ELSE") : kw(x, r.Then.$to, "ELSE") && r.Else.$from == nxt(x, r.Then.$to) && at(p) == r.Else.$to)
}
func parser.(*Parser).ParseCaseStmt(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 50
  ensures [C08] case: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"CASE") && r.Expression != nil && r.Expression.$from == nxt(x,i) && kw(x, r.Expression.$to, "OF") && seps(x, r.Selectors, nxt(x, r.Expression.$to), ";") && sym(x, lastto(r.Selectors), ";"))
  ensures [C08] else: err == nil ==> (let x = X(p) :: let e = nxt(x, lastto(r.Selectors)) :: len(r.Else) == 0 ? kw(x,e,"END") && at(p) == nxt(x,e) :
     kw(x,e,"ELSE") && seps(x, r.Else, nxt(x,e), ";") && (let f = lastto(r.Else) :: (kw(x,f,"END") && at(p) == nxt(x,f)) || (sym(x,f,";") && kw(x, nxt(x,f), "END") && at(p) == nxt(x, nxt(x,f)))))
}
func parser.(*Parser).ParseCaseSelectors(p)(r, err) {
  uses sstream, lspan
  recmeasure rem(p) * 100 + 63
  ensures [C08] selectors: err == nil ==> (let x = X(p) :: seps(x, r, old(at(p)), ";") && sym(x, lastto(r), ";") && at(p) == nxt(x, lastto(r)) && (kw(x, at(p), "ELSE") || kw(x, at(p), "END")))
  foreach l ast.CaseSelectors :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(at(p)) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.CaseSelectors :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.CaseSelectors :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.CaseSelectors :: len(l) > 0
  foreach l ast.CaseSelectors :: lsep(X(p), l, ";")
  foreach l ast.CaseSelectors :: len(l) == 0 ==> at(p) == old(at(p))
}
func parser.(*Parser).ParseCaseSelector(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 62
  ensures [C08] selector: err == nil ==> (let x = X(p) :: seps(x, r.Labels, old(at(p)), ",") && sym(x, lastto(r.Labels), ":") && r.Statement != nil && r.Statement.$from == nxt(x, lastto(r.Labels)) && at(p) == r.Statement.$to)
}
func parser.(*Parser).ParseCaseLabels(p)(r, err) {
  uses stream, lspan
  recmeasure rem(p) * 100 + 45
  ensures [C08] labels: err == nil ==> (let x = X(p) :: seps(x, r, old(at(p)), ",") && at(p) == lastto(r) && !sym(x, at(p), ","))
  foreach l ast.CaseLabels :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(at(p)) && sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.CaseLabels :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.CaseLabels :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.CaseLabels :: len(l) > 0
  foreach l ast.CaseLabels :: lsep(X(p), l, ",")
  foreach l ast.CaseLabels :: len(l) == 0 ==> at(p) == old(at(p))
}
func parser.(*Parser).ParseCaseLabel(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 44
  ensures [C08] label: err == nil ==> (let x = X(p) :: r.ConstExpr != nil && r.ConstExpr.$from == old(at(p)) && (r.ExtraConstExpr == nil ? at(p) == r.ConstExpr.$to && !sym(x, at(p), "..") :
     sym(x, r.ConstExpr.$to, "..") && r.ExtraConstExpr.$from == nxt(x, r.ConstExpr.$to) && at(p) == r.ExtraConstExpr.$to))
}
func parser.(*Parser).ParseRepeatStmt(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 50
  ensures [C08] repeat: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"REPEAT") && seps(x, r.StmtList, nxt(x,i), ";") && r.Condition != nil && at(p) == r.Condition.$to &&
     (let f = lastto(r.StmtList) :: (kw(x,f,"UNTIL") && r.Condition.$from == nxt(x,f)) || (sym(x,f,";") && kw(x, nxt(x,f), "UNTIL") && r.Condition.$from == nxt(x, nxt(x,f)))))
}
func parser.(*Parser).ParseWhileStmt(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 50
  ensures [C08] while: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"WHILE") && r.Condition != nil && r.Condition.$from == nxt(x,i) && kw(x, r.Condition.$to, "DO") && r.Statement != nil && r.Statement.$from == nxt(x, r.Condition.$to) && at(p) == r.Statement.$to)
}
func parser.(*Parser).ParseForStmt(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 50
  ensures [C08] for: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"FOR") && r.QualId != nil && r.QualId.$from == nxt(x,i) && sym(x, r.QualId.$to, ":=") && r.Initial != nil && r.Initial.$from == nxt(x, r.QualId.$to))
  ensures [C08] to: err == nil ==> (let x = X(p) :: val(x, r.Initial.$to) == (r.Down ? "DOWNTO" : "TO") && r.Terminal != nil && r.Terminal.$from == nxt(x, r.Initial.$to))
  ensures [C08] do: err == nil ==> (let x = X(p) :: kw(x, r.Terminal.$to, "DO") && r.Statement != nil && r.Statement.$from == nxt(x, r.Terminal.$to) && at(p) == r.Statement.$to)
}
func parser.(*Parser).ParseQualIds(p)(r, err) {
  uses stream
  recmeasure rem(p) * 100 + 2
  ensures err == nil ==> at(p) > old(at(p)) && lfresh(r)
  ensures [C08] names: err == nil ==> (let x = X(p) :: seps(x, r, old(at(p)), ",") && at(p) == lastto(r) && !sym(x, at(p), ","))
  foreach l ast.QualIds :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(at(p)) && sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.QualIds :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.QualIds :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.QualIds :: len(l) > 0
  foreach l ast.QualIds :: lsep(X(p), l, ",")
  foreach l ast.QualIds :: len(l) == 0 ==> at(p) == old(at(p))
}
func parser.(*Parser).ParseWithStmt(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 50
  ensures [C08] with: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"WITH") && seps(x, r.Objects, nxt(x,i), ",") && kw(x, lastto(r.Objects), "DO") && r.Statement != nil && r.Statement.$from == nxt(x, lastto(r.Objects)) && at(p) == r.Statement.$to)
}
func parser.(*Parser).ParseRaiseStmt(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 50
  ensures [C08] raise: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: let k = nxt(x,i) :: kw(x,i,"RAISE") && (sym(x,k,";") ? r.Object == nil && r.Address == nil && at(p) == k :
     (upper(val(x,k)) == "AT" ? r.Object == nil && r.Address != nil && r.Address.$from == nxt(x,k) && at(p) == r.Address.$to :
     r.Object != nil && r.Object.$from == k && (r.Address == nil ? at(p) == r.Object.$to && upper(val(x, at(p))) != "AT" : upper(val(x, r.Object.$to)) == "AT" && r.Address.$from == nxt(x, r.Object.$to) && at(p) == r.Address.$to))))
}
func parser.(*Parser).ParseAssemblerStatement(p)(r, err) {
  uses stream, span
  ensures [C08] asm: err == nil ==> kw(X(p), old(at(p)), "ASM")
}
global [C08] parser.tryStmtTerminator: predok(parser.tryStmtTerminator) && (forall k int, s str {holds(parser.tryStmtTerminator,k,s)} :: holds(parser.tryStmtTerminator,k,s) <==> k == token.ReservedWord && (upper(s) == "EXCEPT" || upper(s) == "FINALLY"))
// the statements of l from i, then the word s at the place j
def stmtsto(x,l,i,s,j) = seps(x,l,i,";") && kw(x,j,s) && (lastto(l) == j || (sym(x,lastto(l),";") && j == nxt(x,lastto(l))))
func parser.(*Parser).ParseTryStmt(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 50
  ensures [C08] kind: err == nil ==> typeis(r, *ast.TryExceptStmt) || typeis(r, *ast.TryFinallyStmt)
  ensures [C08] except: err == nil && typeis(r, *ast.TryExceptStmt) ==> (let x = X(p) :: let i = old(at(p)) :: let t = as(r, *ast.TryExceptStmt) :: kw(x,i,"TRY") && seps(x, t.Statements, nxt(x,i), ";") && t.ExceptionBlock != nil && at(p) == t.ExceptionBlock.$to &&
     (let f = lastto(t.Statements) :: (kw(x,f,"EXCEPT") && t.ExceptionBlock.$from == nxt(x,f)) || (sym(x,f,";") && kw(x, nxt(x,f), "EXCEPT") && t.ExceptionBlock.$from == nxt(x, nxt(x,f)))))
  ensures [C08] finally: err == nil && typeis(r, *ast.TryFinallyStmt) ==> (let x = X(p) :: let i = old(at(p)) :: let t = as(r, *ast.TryFinallyStmt) :: kw(x,i,"TRY") && seps(x, t.Statements1, nxt(x,i), ";") && len(t.Statements2) > 0 && lnn(t.Statements2) && lsep(x, t.Statements2, ";") &&
     (let f = lastto(t.Statements1) :: (kw(x,f,"FINALLY") && t.Statements2[0].$from == nxt(x,f)) || (sym(x,f,";") && kw(x, nxt(x,f), "FINALLY") && t.Statements2[0].$from == nxt(x, nxt(x,f)))) &&
     (let g = lastto(t.Statements2) :: (kw(x,g,"END") && at(p) == nxt(x,g)) || (sym(x,g,";") && kw(x, nxt(x,g), "END") && at(p) == nxt(x, nxt(x,g)))))
}

// the word s at i; these words are not reserved
def word(x,i,s) = upper(val(x,i)) == s
func parser.(*Parser).ParseExceptionBlock(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 65
  ensures [C08] statements: err == nil && !word(X(p), old(at(p)), "ON") ==> (let x = X(p) :: len(r.Handlers) == 0 && seps(x, r.Else, old(at(p)), ";") && endsat(x, lastto(r.Else), at(p)))
  ensures [C08] handlers: err == nil && word(X(p), old(at(p)), "ON") ==> (let x = X(p) :: handlers(x, r.Handlers, old(at(p))) && (let e = lastto(r.Handlers) :: let f = sym(x,e,";") ? nxt(x,e) : e ::
     kw(x,f,"ELSE") ? seps(x, r.Else, nxt(x,f), ";") && endsat(x, lastto(r.Else), at(p)) : len(r.Else) == 0 && endsat(x, f, at(p))))
}
// the word END comes at i or after a semicolon there, and j is behind it
def endsat(x,i,j) = (kw(x,i,"END") && j == nxt(x,i)) || (sym(x,i,";") && kw(x,nxt(x,i),"END") && j == nxt(x,nxt(x,i)))
def hnext(x,l,i,k) = l[k].$from == l[i].$to || (sym(x, l[i].$to, ";") && l[k].$from == nxt(x, l[i].$to))
def handlers(x,l,i) = len(l) > 0 && lnn(l) && l[0].$from == i && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> hnext(x,l,i,k))
func parser.(*Parser).ParseExceptionBlockHandlers(p)(r, err) {
  uses sstream, lspan
  recmeasure rem(p) * 100 + 64
  ensures [C08] handlers: err == nil ==> (let x = X(p) :: handlers(x, r, old(at(p))) && (let e = lastto(r) :: at(p) == (sym(x,e,";") ? nxt(x,e) : e)) && !word(x, at(p), "ON"))
  foreach l ast.ExceptionBlockHandlers :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(at(p)) && (let e = lastto(l) :: at(p) == (sym(X(p),e,";") ? nxt(X(p),e) : e)))
  foreach l ast.ExceptionBlockHandlers :: forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> hnext(X(p),l,i,k)
  foreach l ast.ExceptionBlockHandlers :: len(l) == 0 ==> at(p) == old(at(p))
}
func parser.(*Parser).ParseExceptionBlockHandler(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 63
  theory decls
  ensures [C08] on: err == nil ==> (let x = X(p) :: let i = nxt(x, old(at(p))) :: word(x, old(at(p)), "ON") && r.Decl != nil && r.Decl.Type != nil && tfrom(r.Decl.Type) == (r.Decl.Ident == nil ? i : nxt(x, nxt(x,i))) && (r.Decl.Ident != nil ==> idof(x, r.Decl.Ident, i) && sym(x, nxt(x,i), ":")))
  ensures [C08] do: err == nil ==> (let x = X(p) :: word(x, tto(r.Decl.Type), "DO") && r.Statement != nil && r.Statement.$from == nxt(x, tto(r.Decl.Type)) && at(p) == r.Statement.$to)
  ensures [C14] ident: err == nil && !typeis(p.context, *pcontext.StackableContext) ==> (r.Decl.Ident == nil <==> istype(old(dget(p.context, txt(X(p), nxt(X(p), at(p)))))))
}
def istype(d) = d != nil && typeis(d.Node, *ast.TypeDecl)
