// ---------- declarations ----------
// A declaration does what a type does, resolves the names left open and completes forward declarations.
group dstream {
  uses tstream0
  modifies all ast.TypeId.Ref where deferred(r)
  modifies all ast.ForwardDeclaredClassType.Actual
}
iface func ast.ForwardDeclaration.SetActualType(m, t)(err) {
  requires typeis(m, *ast.ForwardDeclaredClassType) ==> as(m, *ast.ForwardDeclaredClassType) != nil
  modifies all ast.ForwardDeclaredClassType.Actual
  ensures noquit(err)
}
func parser.(*Parser).ParseTypeDecl(p)(r, err) {
  uses dstream, span
  theory decls
  recmeasure rem(p) * 100 + 72
  ensures err == nil ==> declok(iface(r))
  ensures [C09] type: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: let e = nxt(x,i) :: ident(x,i) && idof(x, r.Ident, i) && sym(x,e,"=") && r.Type != nil && tfrom(r.Type) == (kw(x,nxt(x,e),"TYPE") ? nxt(x,nxt(x,e)) : nxt(x,e)))
  ensures [C09] portability: err == nil ==> (let x = X(p) :: let f = tto(r.Type) :: isportability(upper(txt(x,f))) ? r.PortabilityDirective != nil && *r.PortabilityDirective == val(x,f) && at(p) == nxt(x,f) : r.PortabilityDirective == nil && at(p) == f)
  ensures [C12] declared: err == nil && wmap(p.context) != nil ==> declared(p, r.Ident, r)
}
// every declaration of l names only identifiers with a place
def alldecl(l) = forall k int {l[k]} :: 0 <= k < len(l) ==> declok(iface(l[k]))
def sectend(x,l,j) = j == lastto(l) || (sym(x,lastto(l),";") && j == nxt(x,lastto(l)))
def stops(x,j) = tkind(x,j) == token.ReservedWord || tkind(x,j) == token.EOF
// r may be missing; then nothing was read
group sspan {
  ghost if err == nil && len(r) > 0: r.$from := old(at(p))
  ghost if err == nil && len(r) > 0: r.$to := at(p)
  ensures err == nil ==> (len(r) > 0 ? fresh(r) && lfresh(r) && at(p) > old(at(p)) && r.$from == old(at(p)) && r.$to == at(p) : r == nil && at(p) == old(at(p)))
}
func parser.(*Parser).ParseTypeSection(p, required)(r, err) {
  uses dstream, sspan
  theory decls
  ensures err == nil ==> alldecl(r)
  foreach l ast.TypeSection :: alldecl(l)
  ensures [C09] section: err == nil && len(r) > 0 ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"TYPE") && seps(x,r,nxt(x,i),";") && sectend(x,r,at(p)) && stops(x,at(p)))
  ensures [C09] none: err == nil && len(r) == 0 ==> !required && !kw(X(p), at(p), "TYPE")
  foreach l ast.TypeSection :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.TypeSection :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.TypeSection :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.TypeSection :: len(l) > 0
  foreach l ast.TypeSection :: lsep(X(p), l, ";")
  foreach l ast.TypeSection :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}
func parser.(*Parser).ParseVarSection(p, required)(r, err) {
  uses tstream, sspan
  theory decls
  ensures err == nil ==> alldecl(r)
  foreach l ast.VarSection :: alldecl(l)
  ensures [C09] section: err == nil && len(r) > 0 ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"VAR") && seps(x,r,nxt(x,i),";") && sectend(x,r,at(p)) && stops(x,at(p)))
  ensures [C09] none: err == nil && len(r) == 0 ==> !required && !kw(X(p), at(p), "VAR")
  foreach l ast.VarSection :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.VarSection :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.VarSection :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.VarSection :: len(l) > 0
  foreach l ast.VarSection :: lsep(X(p), l, ";")
  foreach l ast.VarSection :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}
func parser.(*Parser).ParseThreadVarSection(p, required)(r, err) {
  uses tstream, sspan
  theory decls
  ensures err == nil ==> alldecl(r)
  foreach l ast.ThreadVarSection :: alldecl(l)
  ensures [C09] section: err == nil && len(r) > 0 ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"THREADVAR") && seps(x,r,nxt(x,i),";") && sectend(x,r,at(p)) && stops(x,at(p)))
  ensures [C09] none: err == nil && len(r) == 0 ==> !required && !kw(X(p), at(p), "THREADVAR")
  foreach l ast.ThreadVarSection :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.ThreadVarSection :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.ThreadVarSection :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.ThreadVarSection :: len(l) > 0
  foreach l ast.ThreadVarSection :: lsep(X(p), l, ";")
  foreach l ast.ThreadVarSection :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}
func parser.(*Parser).ParseConstSection(p, required)(r, err) {
  uses tstream, sspan
  theory decls
  ensures err == nil ==> alldecl(r)
  foreach l ast.ConstSection :: alldecl(l)
  ensures [C09] section: err == nil && len(r) > 0 ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"CONST") && seps(x,r,nxt(x,i),";") && sectend(x,r,at(p)) && stops(x,at(p)))
  ensures [C09] none: err == nil && len(r) == 0 ==> !required && !kw(X(p), at(p), "CONST")
  foreach l ast.ConstSection :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.ConstSection :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.ConstSection :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.ConstSection :: len(l) > 0
  foreach l ast.ConstSection :: lsep(X(p), l, ";")
  foreach l ast.ConstSection :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}
func parser.(*Parser).ParseConstantDecl(p)(r, err) {
  uses tstream, span
  theory decls
  ensures err == nil ==> declok(iface(r))
  ensures [C09] const: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: (ident(x,i) || isdirective(upper(txt(x,i)))) && idof(x, r.Ident, i) && (r.Type == nil ? !sym(x,nxt(x,i),":") : sym(x,nxt(x,i),":") && tfrom(r.Type) == nxt(x,nxt(x,i))))
  ensures [C09] value: err == nil ==> (let x = X(p) :: let e = r.Type == nil ? nxt(x, old(at(p))) : tto(r.Type) :: sym(x,e,"=") && r.ConstExpr != nil && r.ConstExpr.$from == nxt(x,e) && at(p) == r.ConstExpr.$to)
  ensures [C12] declared: err == nil ==> declared(p, r.Ident, r)
}
func ast.NewVarDeclAbsoluteIdent(arg)(r) {
  requires (typeis(arg, *token.Token) && tokwf(as(arg, *token.Token))) || (typeis(arg, *astcore.Ident) && as(arg, *astcore.Ident) != nil)
  recmeasure typeis(arg, *token.Token) ? 1 : 0
  ensures fresh(r)
  ensures [C09] name: typeis(arg, *token.Token) ? r.Name == raw(as(arg, *token.Token)) && r.Location != nil && r.Location.Start == as(arg, *token.Token).Start && r.Location.End == as(arg, *token.Token).End : r.Name == as(arg, *astcore.Ident).Name && r.Location == as(arg, *astcore.Ident).Location
}
def absident(x,a,i) = typeis(a, *ast.VarDeclAbsoluteIdent) && ident(x,i) && (let d = as(a, *ast.VarDeclAbsoluteIdent) :: d != nil && d.Name == txt(x,i))
func parser.(*Parser).ParseVarDecl(p)(r, err) {
  uses tstream, span
  theory decls
  ensures err == nil ==> declok(iface(r))
  ensures [C09] var: err == nil ==> (let x = X(p) :: let l = r.IdentList :: idents(x, l, old(at(p))) && sym(x, lastto(l), ":") && r.Type != nil && tfrom(r.Type) == nxt(x, lastto(l)))
  ensures [C09] absolute: err == nil ==> (let x = X(p) :: let e = tto(r.Type) :: word(x,e,"ABSOLUTE") ? absident(x, r.Absolute, nxt(x,e)) : r.Absolute == nil)
  ensures [C09] value: err == nil ==> (let x = X(p) :: let e = r.Absolute == nil ? tto(r.Type) : nxt(x,nxt(x,tto(r.Type))) :: r.ConstExpr == nil ? at(p) == e && !sym(x,e,"=") : sym(x,e,"=") && r.ConstExpr.$from == nxt(x,e) && at(p) == r.ConstExpr.$to)
  ensures [C12] declared: err == nil ==> declaredall(p, iface(r))
}
func parser.(*Parser).ParseThreadVarDecl(p)(r, err) {
  uses tstream, span
  theory decls
  ensures err == nil ==> declok(iface(r))
  ensures [C09] var: err == nil ==> (let x = X(p) :: let l = r.IdentList :: idents(x, l, old(at(p))) && sym(x, lastto(l), ":") && r.Type != nil && tfrom(r.Type) == nxt(x, lastto(l)) && at(p) == tto(r.Type))
  ensures [C12] declared: err == nil ==> declaredall(p, iface(r))
}
func parser.(*Parser).ParseLabelDeclSection(p)(r, err) {
  uses tstream, ospan
  theory decls
  ensures [C09] label: err == nil && r != nil ==> (let x = X(p) :: let i = nxt(x, old(at(p))) :: kw(x, old(at(p)), "LABEL") && ident(x,i) && idof(x, r.LabelId, i) && sym(x,nxt(x,i),";") && at(p) == nxt(x,nxt(x,i)))
  ensures [C09] none: err == nil && r == nil ==> !kw(X(p), at(p), "LABEL")
  ensures [C12] declared: err == nil && r != nil ==> declared(p, r.LabelId, r)
}

// ---------- functions ----------
func parser.(*Parser).ParseFunctionHeading(p)(r, err) {
  uses tstream, span
  theory words
  recmeasure rem(p) * 100 + 74
  ensures [C09] kind: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: (kw(x,i,"FUNCTION") ? r.Type == ast.FtFunction : kw(x,i,"PROCEDURE") && r.Type == ast.FtProcedure) && ident(x,nxt(x,i)) && idof(x, r.Ident, nxt(x,i)) && idok(r.Ident))
  ensures [C09] heading: err == nil ==> (let x = X(p) :: let i = nxt(x, nxt(x, old(at(p)))) :: let f = r.Type == ast.FtFunction :: params(x, r.FormalParameters, i, "(", ")") && result(x, f, r.ReturnType, paramsend(x, r.FormalParameters, i)) && at(p) == resultend(x, f, r.ReturnType, paramsend(x, r.FormalParameters, i)))
}
ghost func parseint(s str) int
extern strconv.ParseInt(s, base, bits)(r, err) {
  ensures base == 10 && bits == 64 ==> r == parseint(s)
  ensures noquit(err)
}
// the options o of the directive EXTERNAL at i; dend(x,i): where the directive at i ends
def dend(x,i) = word(x,i,"EXTERNAL") ? (let a = nxt(x,i) :: sym(x,a,";") ? a : (let b = nxt(x,a) :: sym(x,b,";") ? b : nxt(x,nxt(x,b)))) : nxt(x,i)
def extopts(x,o,i) = let a = nxt(x,i) :: sym(x,a,";") ? o == nil : o != nil && tkind(x,a) == token.CharacterString && o.LibraryName == txt(x,a) && (let b = nxt(x,a) :: let c = nxt(x,b) ::
   sym(x,b,";") ? o.Name == nil && o.Index == nil : (upper(txt(x,b)) == "NAME" ? tkind(x,c) == token.CharacterString && o.Name != nil && *o.Name == txt(x,c) && o.Index == nil :
   upper(txt(x,b)) == "INDEX" && o.Name == nil && o.Index != nil && *o.Index == parseint(txt(x,c)) && (tkind(x,c) == token.NumeralInt || tkind(x,c) == token.NumeralReal)))
func parser.(*Parser).ParseExternalOptions(p)(r, err) {
  uses stream
  ensures err == nil ==> at(p) > old(at(p)) && (r != nil ==> fresh(r))
  ensures [C09] external: err == nil ==> upper(txt(X(p), old(at(p)))) == "EXTERNAL" && extopts(X(p), r, old(at(p))) && at(p) == dend(X(p), old(at(p)))
}
// the place of the directive k of those from i on
ghost func dpos(x ref, i int, k int) int
axiom forall x ref, i int {dpos(x,i,0)} :: dpos(x,i,0) == i
axiom forall x ref, i int, k int, n int {dpos(x,i,k),dpos(x,i,n)} :: 0 <= k && adj(k,n) ==> dpos(x,i,n) == nxt(x, dend(x, dpos(x,i,k)))
def dirs(x,l,i) = forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] == upper(txt(x, dpos(x,i,k))) && isdirective(l[k]) && sym(x, dend(x, dpos(x,i,k)), ";")
// the last directive EXTERNAL of the first n from i on, -1 for none
ghost func lext(x ref, i int, n int) int
axiom forall x ref, i int {lext(x,i,0)} :: lext(x,i,0) == -1
axiom forall x ref, i int, k int, n int {lext(x,i,k),lext(x,i,n)} :: 0 <= k && adj(k,n) ==> lext(x,i,n) == (word(x, dpos(x,i,k), "EXTERNAL") ? k : lext(x,i,k))
def lastopts(x,n,o,i) = lext(x,i,n) < 0 ? o == nil : extopts(x, o, dpos(x,i,lext(x,i,n)))
func parser.(*Parser).ParseFunctionDirectives(p)(r, o, err) {
  uses stream
  ensures [C09] directives: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: dirs(x,r,i) && at(p) == dpos(x,i,len(r)) && !isdirective(upper(txt(x,at(p)))))
  ensures [C09] options: err == nil ==> lastopts(X(p), len(r), o, old(at(p)))
  foreach l []ast.Directive :: dirs(X(p), l, old(at(p))) && at(p) == dpos(X(p), old(at(p)), len(l))
  foreach l []ast.Directive, o *ast.ExternalOptions :: lastopts(X(p), len(l), o, old(at(p)))
}
// a procedure or function opens a scope of its own, which is gone when it ends
group fstream {
  uses sstream
  modifies all ast.TypeId.Ref where deferred(r)
  modifies all ast.ForwardDeclaredClassType.Actual
}
def elsewhere(l) = exists k int {l[k]} :: 0 <= k && k < len(l) && (l[k] == "FORWARD" || l[k] == "EXTERNAL")
def noblock(b) = len(b.DeclSections) == 0 && len(b.ExportsStmts1) == 0 && b.Body == nil && len(b.ExportsStmts2) == 0
func parser.(*Parser).ParseProcedureDeclSection(p)(r, err) {
  uses fstream, ospan
  theory words
  theory decls
  recmeasure rem(p) * 100 + 75
  ensures [C09] function: err == nil && r != nil ==> (let x = X(p) :: let h = r.FunctionHeading :: h != nil && h.$from == old(at(p)) && sym(x, h.$to, ";") && (kw(x, old(at(p)), "PROCEDURE") || kw(x, old(at(p)), "FUNCTION")))
  ensures [C09] directives: err == nil && r != nil ==> (let x = X(p) :: let i = nxt(x, r.FunctionHeading.$to) :: dirs(x, r.Directives, i) && lastopts(x, len(r.Directives), r.ExternalOptions, i) && !isdirective(upper(txt(x, dpos(x,i,len(r.Directives))))))
  ensures [C09] block: err == nil && r != nil ==> (let x = X(p) :: let e = dpos(x, nxt(x, r.FunctionHeading.$to), len(r.Directives)) :: r.Block != nil && (elsewhere(r.Directives) ? noblock(r.Block) && at(p) == e : r.Block.$from == e && at(p) == r.Block.$to))
  ensures [C09] none: err == nil && r == nil ==> !kw(X(p), at(p), "PROCEDURE") && !kw(X(p), at(p), "FUNCTION")
  foreach k int, l []ast.Directive :: forall j int {l[j]} :: 0 <= j <= k ==> l[j] != "FORWARD" && l[j] != "EXTERNAL"
}
func parser.(*Parser).ParseExportedHeading(p)(r, err) {
  uses fstream, span
  requires kw(X(p), at(p), "PROCEDURE") || kw(X(p), at(p), "FUNCTION")
  theory words
  theory decls
  ensures err == nil ==> declok(iface(r))
  ensures [C09] function: err == nil ==> (let x = X(p) :: let h = r.FunctionHeading :: h != nil && h.$from == old(at(p)) && sym(x, h.$to, ";"))
  ensures [C09] directives: err == nil ==> (let x = X(p) :: let i = nxt(x, r.FunctionHeading.$to) :: dirs(x, r.Directives, i) && lastopts(x, len(r.Directives), r.ExternalOptions, i) && !isdirective(upper(txt(x, at(p)))) && at(p) == dpos(x,i,len(r.Directives)))
}

// ---------- exports ----------
// the item it at i
def exportitem(x,it) = let i = it.Ident.$from :: let k = nxt(x,i) :: ident(x,i) && idof(x, it.Ident, i) && (upper(txt(x,k)) == "NAME" ? it.Name != nil && it.Name.$from == nxt(x,k) && it.Index == nil : it.Name == nil && (upper(txt(x,k)) == "INDEX" ? it.Index != nil && it.Index.$from == nxt(x,k) : it.Index == nil))
def exportend(x,it) = it.Name != nil ? it.Name.$to : (it.Index != nil ? it.Index.$to : nxt(x, it.Ident.$from))
def exportlist(x,l) = (forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && allocated(l[k]) && l[k].Ident != nil && allocated(l[k].Ident) && (l[k].Name != nil ==> allocated(l[k].Name)) && (l[k].Index != nil ==> allocated(l[k].Index)) && exportitem(x,l[k]))
  && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> sym(x, exportend(x,l[i]), ",") && l[k].Ident.$from == nxt(x, exportend(x,l[i])))
def exportlast(x,l) = exportend(x, l[len(l)-1])
func parser.(*Parser).ParseExportsStmt(p, required)(r, err) {
  uses stream, ospan
  ensures [C09] exports: err == nil && r != nil ==> (let x = X(p) :: let l = r.ExportsItems :: kw(x, old(at(p)), "EXPORTS") && len(l) > 0 && l[0].Ident.$from == nxt(x, old(at(p))) && exportlist(x,l) && sym(x, exportlast(x,l), ";") && at(p) == nxt(x, exportlast(x,l)))
  ensures [C09] none: err == nil && r == nil ==> !required && !kw(X(p), at(p), "EXPORTS")
  foreach l []*ast.ExportsItem :: exportlist(X(p), l) && (len(l) > 0 ==> l[0].Ident.$from == old(nxt(X(p), at(p))) && sym(X(p), exportlast(X(p),l), ",") && at(p) == nxt(X(p), exportlast(X(p),l)))
  foreach l []*ast.ExportsItem :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}
// one after the other
def lnext(l) = forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> l[k].$from == l[i].$to
func parser.(*Parser).ParseExportsStmts(p)(r, err) {
  uses stream
  ensures [C09] exports: err == nil ==> (len(r) == 0 ? r == nil && at(p) == old(at(p)) : lnn(r) && lfresh(r) && fresh(r) && r[0].$from == old(at(p)) && lnext(r) && at(p) == lastto(r)) && !kw(X(p), at(p), "EXPORTS")
  foreach l ast.ExportsStmts :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && at(p) == lastto(l))
  foreach l ast.ExportsStmts :: lnext(l)
  foreach l ast.ExportsStmts :: len(l) == 0 ==> at(p) == old(at(p))
}

// ---------- blocks ----------
def isconsts(s) = typeis(s, ast.ConstSection)
def istypes(s) = typeis(s, ast.TypeSection)
def isvars(s) = typeis(s, ast.VarSection)
def isthreadvars(s) = typeis(s, ast.ThreadVarSection)
// sections other than labels and functions are lists: their place is kept with their elements
def sof(s) = isconsts(s) ? arr(as(s, ast.ConstSection)) : (istypes(s) ? arr(as(s, ast.TypeSection)) : (isvars(s) ? arr(as(s, ast.VarSection)) : (isthreadvars(s) ? arr(as(s, ast.ThreadVarSection)) : ref(s))))
def sfrom(s) = sof(s).$from
def sto(s) = sof(s).$to
def sectionword(x,i) = kw(x,i,"LABEL") || kw(x,i,"CONST") || kw(x,i,"TYPE") || kw(x,i,"VAR") || kw(x,i,"THREADVAR") || kw(x,i,"PROCEDURE") || kw(x,i,"FUNCTION")
def sectionkind(x,s,i) = (kw(x,i,"LABEL") <==> typeis(s, *ast.LabelDeclSection)) && (kw(x,i,"CONST") <==> isconsts(s)) && (kw(x,i,"TYPE") <==> istypes(s)) && (kw(x,i,"VAR") <==> isvars(s)) && (kw(x,i,"THREADVAR") <==> isthreadvars(s)) && (kw(x,i,"PROCEDURE") || kw(x,i,"FUNCTION") <==> typeis(s, *ast.FunctionDecl))
group dspan {
  ensures err == nil && r != nil ==> fresh(sof(r)) && sfrom(r) == old(at(p)) && sto(r) == at(p) && at(p) > old(at(p))
  ensures err == nil && r == nil ==> at(p) == old(at(p))
}
func parser.(*Parser).ParseDeclSection(p)(r, err) {
  uses dstream, dspan
  recmeasure rem(p) * 100 + 80
  ensures [C09] kind: err == nil && r != nil ==> sectionkind(X(p), r, old(at(p)))
  ensures [C09] none: err == nil && r == nil ==> !sectionword(X(p), at(p))
}
def afteropt(x,i) = sym(x,i,";") ? nxt(x,i) : i
def sects(x,l,i,j) = len(l) == 0 ? j == i : sfrom(l[0]) == i && (forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && allocated(sof(l[k])) && sectionkind(x, l[k], sfrom(l[k])))
   && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> sfrom(l[k]) == afteropt(x, sto(l[i]))) && j == afteropt(x, sto(l[len(l)-1]))
def sectsend(x,l,i) = len(l) == 0 ? i : afteropt(x, sto(l[len(l)-1]))
func parser.(*Parser).ParseDeclSections(p)(r, err) {
  uses dstream
  recmeasure rem(p) * 100 + 81
  ensures [C09] sections: err == nil ==> sects(X(p), r, old(at(p)), at(p)) && !sectionword(X(p), at(p)) && (len(r) == 0 ==> r == nil)
  ensures err == nil ==> forall k int {r[k]} :: 0 <= k < len(r) ==> fresh(sof(r[k]))
  foreach l ast.DeclSections :: sects(X(p), l, old(at(p)), at(p))
  foreach l ast.DeclSections :: forall k int {l[k]} :: 0 <= k < len(l) ==> fresh(sof(l[k]))
}
def exportsat(x,l,i) = len(l) == 0 ? !kw(x,i,"EXPORTS") : lnn(l) && l[0].$from == i && lnext(l) && !kw(x, lastto(l), "EXPORTS")
def exportsend(l,i) = len(l) == 0 ? i : lastto(l)
def bodyend(b,i) = b == nil ? i : b.$to
// the declarations of the block b end at j
def blockat(x,b,i,j,e) = sects(x, b.DeclSections, i, j) && !sectionword(x,j) && exportsat(x, b.ExportsStmts1, j) && (let k = exportsend(b.ExportsStmts1, j) ::
   (kw(x,k,"BEGIN") <==> typeis(b.Body, *ast.CompoundStmt)) && (kw(x,k,"ASM") <==> typeis(b.Body, *ast.AssemblerStatement)) && (b.Body != nil ==> b.Body.$from == k && (kw(x,k,"BEGIN") || kw(x,k,"ASM")))
   && exportsat(x, b.ExportsStmts2, bodyend(b.Body, k)) && e == exportsend(b.ExportsStmts2, bodyend(b.Body, k)))
func parser.(*Parser).ParseBlock(p)(r, err) {
  uses dstream
  theory words
  recmeasure rem(p) * 100 + 82
  ghost if err == nil: r.$from := old(at(p))
  ghost if err == nil: r.$to := at(p)
  ensures err == nil ==> r != nil && fresh(r) && r.$from == old(at(p)) && r.$to == at(p)
  ensures [C09] block: err == nil ==> blockat(X(p), r, old(at(p)), sectsend(X(p), r.DeclSections, old(at(p))), at(p))
}
