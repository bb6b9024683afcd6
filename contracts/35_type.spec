// ---------- types ----------
// A type moves along the stream, declares the names of the values it lists in the open scope, and leaves names to be looked up at the end of the section.
group tstream0 {
  uses sstream
  modifies mapof(wmap(p.context))
  ensures wmap(p.context) == old(wmap(p.context))
  loopinv wmap(p.context) == old(wmap(p.context))
}
// no declaration is lost or replaced
def keeps(w) = forall s string {has(w,s)} :: old(has(w,s)) ==> has(w,s) && w[s] == old(w[s])
group tstream {
  uses tstream0
  ensures [C12] keeps: keeps(wmap(p.context))
  loopinv keeps(wmap(p.context))
}
// A list of values is a type that is no object: its place is kept with its elements
def isenum(t) = typeis(t, ast.EnumeratedType)
def evals(t) = as(t, ast.EnumeratedType)
def tof(t) = isenum(t) ? arr(evals(t)) : ref(t)
def tfrom(t) = tof(t).$from
def tto(t) = tof(t).$to
group tspan {
  ghost if err == nil: tof(r).$from := old(at(p))
  ghost if err == nil: tof(r).$to := at(p)
  ensures err == nil ==> r != nil && at(p) > old(at(p)) && fresh(tof(r)) && tfrom(r) == old(at(p)) && tto(r) == at(p)
}
// r may be missing; then nothing was read
group ospan {
  ghost if err == nil && r != nil: r.$from := old(at(p))
  ghost if err == nil && r != nil: r.$to := at(p)
  ensures err == nil && r != nil ==> fresh(r) && r.$from == old(at(p)) && r.$to == at(p) && at(p) > old(at(p))
  ensures err == nil && r == nil ==> at(p) == old(at(p))
}
def tlnn(l) = forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && allocated(tof(l[k]))
def tlfresh(l) = forall k int {l[k]} :: 0 <= k < len(l) ==> fresh(tof(l[k]))
def tlsep(x,l,s) = forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> sym(x, tto(l[i]), s) && tfrom(l[k]) == nxt(x, tto(l[i]))
def tlast(l) = tto(l[len(l)-1])
def tseps(x,l,i,s) = len(l) > 0 && tfrom(l[0]) == i && tlnn(l) && tlsep(x,l,s)

// ---------- names of types ----------
// deferred(t): the name of the type t is looked up again at the end of the section
ghost func deferred(t int) bool
elemfn "func()"() {
  requires minv() && mapinv() && cinv()
  modifies all ast.TypeId.Ref where deferred(r)
  ensures cinv()
}
func parser.(*Parser).AddPostSection(p, fn) { inline }
func parser.(*Parser).RunPostSectionFuncs(p) {
  requires ps(p)
  modifies all ast.TypeId.Ref where deferred(r)
  ensures ps(p)
  loopinv ps(p)
}
def typeid(x,t,i,j) = t.UnitId == nil ? isname(x,i) && idof(x, t.Ident, i) && j == nxt(x,i) : idof(x, t.UnitId, i) && sym(x, nxt(x,i), ".") && (let k = nxt(x, nxt(x,i)) :: ident(x,k) && idof(x, t.Ident, k) && j == nxt(x,k))
func parser.(*Parser).ParseTypeId(p)(r, err) {
  ensures $fpin == old($fpin) && $fpname == old($fpname) && $fpanc == old($fpanc) && $fprop == old($fprop)
  uses sstream, span
  ensures [C09] name: err == nil ==> typeid(X(p), r, old(at(p)), at(p)) && (r.UnitId != nil <==> isunit(old(dget(p.context, val(X(p), at(p))))))
  ensures [C14] resolved: err == nil && r.UnitId == nil ==> r.Ref == old(dget(p.context, txt(X(p), at(p))))
}
def isname(x,i) = ident(x,i) || kw(x,i,"STRING")
// a name of a used unit
def isunit(d) = d != nil && typeis(d.Node, *ast.UsesClauseItem)
func parser.(*Parser).parseTypeIdWithUnit(p)(r, err) {
  uses stream, ospan
  ensures [C09] name: err == nil && r != nil ==> r.UnitId != nil && typeid(X(p), r, old(at(p)), at(p))
  ensures [C09] none: err == nil ==> (r != nil <==> isunit(old(dget(p.context, val(X(p), at(p))))))
}
func parser.(*Parser).parseTypeIdWithoutUnit(p)(r, err) {
  ensures $fpin == old($fpin) && $fpname == old($fpname) && $fpanc == old($fpanc) && $fprop == old($fprop)
  uses sstream, span
  define r: deferred(ref(r)) <==> old(dget(p.context, txt(X(p), at(p)))) == nil
    ensures [C09] name: err == nil ==> r.UnitId == nil && typeid(X(p), r, old(at(p)), at(p))
  ensures [C14] resolved: err == nil ==> r.Ref == old(dget(p.context, txt(X(p), at(p))))
}

// r is the name of a built-in type of the kind k
def builtin(x,r,i,k) = typeis(r, *ast.TypeId) && (let t = as(r, *ast.TypeId) :: t.UnitId == nil && idof(x, t.Ident, i) && t.Ref != nil && t.Ref == ast.embeddedTypeDeclMaps[k][upper(val(x,i))])
func ast.NewStringType(ident)(r) { inline }
func ast.NewFixedStringType(ident, length)(r) { inline }
func parser.(*Parser).ParseRealType(p, required)(r, err) {
  uses stream, ospan
  requires tkind(X(p), at(p)) != token.EOF
  ensures [C09] name: err == nil && r != nil ==> builtin(X(p), r, old(at(p)), ast.EtkReal) && at(p) == old(nxt(X(p), at(p)))
  ensures [C09] none: err == nil && r == nil ==> !required && ast.embeddedTypeDeclMaps[ast.EtkReal][upper(val(X(p), at(p)))] == nil
}
func parser.(*Parser).ParseOrdIdent(p, required)(r, err) {
  uses stream, ospan
  requires tkind(X(p), at(p)) != token.EOF
  ensures [C09] name: err == nil && r != nil ==> builtin(X(p), r, old(at(p)), ast.EtkOrdIdent) && at(p) == old(nxt(X(p), at(p)))
  ensures [C09] none: err == nil && r == nil ==> !required && ast.embeddedTypeDeclMaps[ast.EtkOrdIdent][upper(val(X(p), at(p)))] == nil
}
func parser.(*Parser).ParseStringType(p, required)(r, err) {
  uses stream, ospan
  requires tkind(X(p), at(p)) != token.EOF
  ensures [C09] name: err == nil && r != nil ==> builtin(X(p), r, old(at(p)), ast.EtkStringType) && at(p) == old(nxt(X(p), at(p)))
  ensures [C09] none: err == nil && r == nil ==> !required && ast.embeddedTypeDeclMaps[ast.EtkStringType][upper(val(X(p), at(p)))] == nil
}
func parser.(*Parser).ParseVariantType(p, required)(r, err) {
  uses stream, ospan
  requires tkind(X(p), at(p)) != token.EOF
  ensures [C09] name: err == nil && r != nil ==> builtin(X(p), r, old(at(p)), ast.EtkVariantType) && at(p) == old(nxt(X(p), at(p)))
  ensures [C09] none: err == nil && r == nil ==> !required && ast.embeddedTypeDeclMaps[ast.EtkVariantType][upper(val(X(p), at(p)))] == nil
}
func parser.(*Parser).ParseStringOfStringType(p)(r, err) {
  uses stream, span
  requires tkind(X(p), at(p)) != token.EOF
  recmeasure rem(p) * 100 + 45
  ensures [C09] plain: err == nil && !typeis(r, *ast.FixedStringType) ==> builtin(X(p), r, old(at(p)), ast.EtkStringType) && at(p) == old(nxt(X(p), at(p))) && !sym(X(p), at(p), "[")
  ensures [C09] fixed: err == nil && typeis(r, *ast.FixedStringType) ==> (let x = X(p) :: let i = old(at(p)) :: let f = as(r, *ast.FixedStringType) :: f != nil && builtin(x, f.StringType, i, ast.EtkStringType) && sym(x, nxt(x,i), "[") && f.Length != nil && f.Length.$from == nxt(x, nxt(x,i)) && sym(x, f.Length.$to, "]") && at(p) == nxt(x, f.Length.$to))
}
// e is the name at i alone
def justname(x,e,i) = e != nil && len(e.RelOpSimpleExpressions) == 0 && e.SimpleExpression != nil && (let s = e.SimpleExpression :: s.UnaryOp == nil && len(s.AddOpTerms) == 0 && s.Term != nil && len(s.Term.MulOpFactors) == 0 &&
   typeis(s.Term.Factor, *ast.DesignatorFactor) && (let d = as(s.Term.Factor, *ast.DesignatorFactor) :: d != nil && len(d.ExprList) == 0 && d.Designator != nil && len(d.Designator.Items) == 0 && (let q = d.Designator.QualId :: q != nil && q.NamespaceId == nil && q.Ident != nil && idof(x, q.Ident.Ident, i))))
def nameref(e) = as(e.SimpleExpression.Term.Factor, *ast.DesignatorFactor).Designator.QualId.Ident.Ref
func parser.(*Parser).parseSubrangeTypeForIdentifier(p, required)(r, err) {
  uses stream, ospan
  recmeasure rem(p) * 100 + 45
  ensures [C09] range: err == nil && r != nil ==> (let x = X(p) :: let i = old(at(p)) :: justname(x, r.Low, i) && val(x, nxt(x,i)) == ".." && r.High != nil && r.High.$from == nxt(x, nxt(x,i)) && at(p) == r.High.$to)
  ensures [C09] none: err == nil && r == nil ==> !required && val(X(p), nxt(X(p), at(p))) != ".."
}
func parser.(*Parser).ParseConstSubrageType(p)(r, err) {
  uses stream, span
  recmeasure rem(p) * 100 + 45
  ensures [C09] range: err == nil ==> (let x = X(p) :: r.Low != nil && r.Low.$from == old(at(p)) && val(x, r.Low.$to) == ".." && r.High != nil && r.High.$from == nxt(x, r.Low.$to) && at(p) == r.High.$to)
}
// the name of d is in the scope now, and stands for the declaration n
def declared(p,d,n) = let w = wmap(p.context) :: w != nil && has(w, lower(d.Name)) && w[lower(d.Name)].Ident == d && w[lower(d.Name)].Node == iface(n)
func parser.(*Parser).ParseEnumeratedTypeElement(p)(r, err) {
  uses tstream
  theory decls
  recmeasure rem(p) * 100 + 46
  ghost if err == nil: r.$from := old(nxt(X(p), at(p)))
  ghost if err == nil: r.$to := at(p)
  ensures err == nil ==> r != nil && fresh(r) && at(p) > old(at(p)) && r.$from == old(nxt(X(p), at(p))) && r.$to == at(p)
  ensures [C09] value: err == nil ==> (let x = X(p) :: let i = old(nxt(X(p), at(p))) :: ident(x,i) && idof(x, r.Ident, i) && (r.ConstExpr == nil ? at(p) == nxt(x,i) && !sym(x, at(p), "=") : sym(x, nxt(x,i), "=") && r.ConstExpr.$from == nxt(x, nxt(x,i)) && at(p) == r.ConstExpr.$to))
  ensures [C12] declared: err == nil ==> declared(p, r.Ident, r)
}
func parser.(*Parser).ParseEnumeratedType(p)(r, err) {
  uses tstream
  recmeasure rem(p) * 100 + 47
  ghost if err == nil: r.$from := old(at(p))
  ghost if err == nil: r.$to := at(p)
  ensures err == nil ==> r != nil && at(p) > old(at(p)) && fresh(r) && r.$from == old(at(p)) && r.$to == at(p) && lfresh(r)
  ensures [C09] values: err == nil ==> (let x = X(p) :: seps(x, r, nxt(x, old(at(p))), ",") && sym(x, lastto(r), ")") && at(p) == nxt(x, lastto(r)))
  foreach l ast.EnumeratedType :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(l), ",") && at(p) == lastto(l))
  foreach l ast.EnumeratedType :: lsep(X(p), l, ",")
  foreach l ast.EnumeratedType :: len(l) == 0 ==> at(p) == old(at(p))
}
// the kind of type is told by its first token
def typekind(x,r,i) = (sym(x,i,"(") <==> isenum(r)) && (sym(x,i,"^") <==> typeis(r, *ast.CustomPointerType))
  && (ident(x,i) ==> typeis(r, *ast.TypeId) || typeis(r, *ast.SubrangeType))
  && (tkind(x,i) == token.NumeralInt || tkind(x,i) == token.NumeralReal || tkind(x,i) == token.CharacterString ==> typeis(r, *ast.SubrangeType))
  && (kw(x,i,"STRING") ==> typeis(r, *ast.TypeId) || typeis(r, *ast.FixedStringType))
  && (typeis(r, *ast.ArrayType) ==> kw(x,i,"ARRAY") || kw(x,i,"PACKED")) && (kw(x,i,"ARRAY") ==> typeis(r, *ast.ArrayType))
  && (typeis(r, *ast.SetType) ==> kw(x,i,"SET") || kw(x,i,"PACKED")) && (kw(x,i,"SET") ==> typeis(r, *ast.SetType))
  && (typeis(r, *ast.RecType) ==> kw(x,i,"RECORD") || kw(x,i,"PACKED")) && (kw(x,i,"RECORD") ==> typeis(r, *ast.RecType))
  && (typeis(r, *ast.FileType) ==> kw(x,i,"FILE") || kw(x,i,"PACKED")) && (kw(x,i,"FILE") ==> typeis(r, *ast.FileType))
  && (kw(x,i,"FUNCTION") || kw(x,i,"PROCEDURE") <==> typeis(r, *ast.ProcedureType))
func parser.(*Parser).ParseType(p)(r, err) {
  uses tstream, tspan
  recmeasure rem(p) * 100 + 70
  ensures [C09] kind: err == nil ==> typekind(X(p), r, old(at(p)))
}
func parser.(*Parser).ParseTypeAsOrdinalType(p)(r, err) {
  uses tstream, tspan
  recmeasure rem(p) * 100 + 71
}
func parser.(*Parser).ParseCustomPointerType(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 45
  ensures [C09] pointer: err == nil ==> (let x = X(p) :: sym(x, old(at(p)), "^") && r.TypeId != nil && r.TypeId.$from == nxt(x, old(at(p))) && at(p) == r.TypeId.$to)
}

func parser.(*Parser).ParseTypeForIdentifier(p)(r, err) {
  uses tstream, tspan
  requires ident(X(p), at(p))
  recmeasure rem(p) * 100 + 69
  ensures [C09] kind: err == nil ==> typeis(r, *ast.TypeId) || typeis(r, *ast.SubrangeType)
  ensures [C09] name: err == nil && typeis(r, *ast.TypeId) ==> typeid(X(p), as(r, *ast.TypeId), old(at(p)), at(p))
}
// ---------- structured types ----------
def packed(x,i) = kw(x,i,"PACKED")
def afterpacked(x,i) = packed(x,i) ? nxt(x,i) : i
def tlnn2(l,o) = forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && allocated(tof(l[k])) && tof(l[k]) != ref(o)
def arrayof(x,r,j) = kw(x,j,"ARRAY") && r.BaseType != nil && (let l = r.IndexTypes :: len(l) == 0 ? kw(x,nxt(x,j),"OF") && tfrom(r.BaseType) == nxt(x,nxt(x,j)) :
   sym(x,nxt(x,j),"[") && tseps(x,l,nxt(x,nxt(x,j)),",") && sym(x,tlast(l),"]") && kw(x,nxt(x,tlast(l)),"OF") && tfrom(r.BaseType) == nxt(x,nxt(x,tlast(l))))
func parser.(*Parser).ParseArrayType(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 65
  ensures [C09] array: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: arrayof(x, r, afterpacked(x,i)))
  ensures err == nil ==> tof(r.BaseType) != ref(r) && tlnn2(r.IndexTypes, r)
  ensures [C09] packed: err == nil ==> (let x = X(p) :: let e = tto(r.BaseType) :: at(p) == (packed(x,e) ? nxt(x,e) : e) && (r.Packed <==> packed(x, old(at(p))) || packed(x,e)))
  foreach l []ast.OrdinalType :: tlnn(l) && tlfresh(l)
  foreach r *ast.ArrayType, l []ast.OrdinalType :: fresh(r) && tlnn2(l,r) && tlfresh(l)
  foreach l []ast.OrdinalType :: len(l) > 0 ==> (let x = X(p) :: tfrom(l[0]) == nxt(x,nxt(x,afterpacked(x,old(at(p))))) && sym(x, tlast(l), ",") && at(p) == nxt(x, tlast(l)))
  foreach l []ast.OrdinalType :: tlsep(X(p), l, ",")
  foreach l []ast.OrdinalType :: len(l) == 0 ==> (let x = X(p) :: at(p) == nxt(x,nxt(x,afterpacked(x,old(at(p))))))
}
func parser.(*Parser).ParseSetType(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 65
  ensures [C09] set: err == nil ==> (let x = X(p) :: let j = afterpacked(x, old(at(p))) :: kw(x,j,"SET") && kw(x,nxt(x,j),"OF") && r.OrdinalType != nil && tfrom(r.OrdinalType) == nxt(x,nxt(x,j)) && at(p) == tto(r.OrdinalType))
  ensures [C09] packed: err == nil ==> (r.Packed <==> packed(X(p), old(at(p))))
}
func parser.(*Parser).ParseFileType(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 65
  ensures [C09] file: err == nil ==> (let x = X(p) :: let j = afterpacked(x, old(at(p))) :: kw(x,j,"FILE") && kw(x,nxt(x,j),"OF") && r.TypeId != nil && r.TypeId.$from == nxt(x,nxt(x,j)) && at(p) == r.TypeId.$to)
  ensures [C09] packed: err == nil ==> (r.Packed <==> packed(X(p), old(at(p))))
}
func parser.(*Parser).ParseRecType(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 65
  ensures [C09] record: err == nil ==> (let x = X(p) :: let j = afterpacked(x, old(at(p))) :: let f = r.FieldList :: kw(x,j,"RECORD") && f != nil && f.$from == nxt(x,j) && kw(x,f.$to,"END") && at(p) == nxt(x,f.$to))
  ensures [C09] packed: err == nil ==> (r.Packed <==> packed(X(p), old(at(p))))
}
func parser.(*Parser).ParseStrucType(p)(r, err) {
  uses tstream, tspan
  recmeasure rem(p) * 100 + 66
  ensures [C09] kind: err == nil ==> (let x = X(p) :: let j = afterpacked(x, old(at(p))) :: (kw(x,j,"ARRAY") <==> typeis(r, *ast.ArrayType)) && (kw(x,j,"SET") <==> typeis(r, *ast.SetType)) && (kw(x,j,"RECORD") <==> typeis(r, *ast.RecType)) && (kw(x,j,"FILE") <==> typeis(r, *ast.FileType))
     && (typeis(r, *ast.ArrayType) || typeis(r, *ast.SetType) || typeis(r, *ast.RecType) || typeis(r, *ast.FileType)))
  ensures [C09] array: err == nil && typeis(r, *ast.ArrayType) ==> (let x = X(p) :: let a = as(r, *ast.ArrayType) :: arrayof(x, a, afterpacked(x, old(at(p)))) && (let e = tto(a.BaseType) :: at(p) == (packed(x,e) ? nxt(x,e) : e) && (a.Packed <==> packed(x, old(at(p))) || packed(x,e))))
  ensures [C09] set: err == nil && typeis(r, *ast.SetType) ==> (as(r, *ast.SetType).Packed <==> packed(X(p), old(at(p))))
  ensures [C09] record: err == nil && typeis(r, *ast.RecType) ==> (as(r, *ast.RecType).Packed <==> packed(X(p), old(at(p))))
  ensures [C09] file: err == nil && typeis(r, *ast.FileType) ==> (as(r, *ast.FileType).Packed <==> packed(X(p), old(at(p))))
}
// the names of l from i on, separated by commas
def idents(x,l,i) = len(l) > 0 && l[0].$from == i && lsep(x,l,",") && (forall k int {l[k]} :: 0 <= k < len(l) ==> idat(x,l[k]))
def idat(x,d) = d != nil && allocated(d) && ident(x, d.$from) && d.Name == txt(x, d.$from) && d.$to == nxt(x, d.$from) && idok(d)
func parser.(*Parser).ParseIdentList(p, terminator)(r, err) { inline }
func parser.(*Parser).ParseIdentListBy(p, terminatorPredicate)(r, err) {
  uses stream
  requires predok(terminatorPredicate)
  ensures [C09] names: err == nil ==> r != nil && idents(X(p), *r, old(at(p))) && at(p) == lastto(*r) && acc(terminatorPredicate, X(p), at(p))
  ensures err == nil ==> at(p) > old(at(p)) && fresh(r) && fresh(*r) && lfresh(*r)
  foreach l astcore.IdentList :: forall k int {l[k]} :: 0 <= k < len(l) ==> idat(X(p),l[k])
  foreach l astcore.IdentList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(at(p)) && sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l astcore.IdentList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))))
  foreach l astcore.IdentList :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l astcore.IdentList :: len(l) > 0
  foreach l astcore.IdentList :: lsep(X(p), l, ",")
  foreach l astcore.IdentList :: len(l) == 0 ==> at(p) == old(at(p))
}
func parser.(*Parser).ParseFieldDecl(p, terminator)(r, err) {
  uses tstream, span
  requires predok(terminator)
  recmeasure rem(p) * 100 + 62
  ensures [C09] field: err == nil ==> (let x = X(p) :: let l = r.IdentList :: idents(x, l, old(at(p))) && sym(x, lastto(l), ":") && r.Type != nil && tfrom(r.Type) == nxt(x, lastto(l)) && at(p) == tto(r.Type))
  ensures [C09] end: err == nil ==> acc(terminator, X(p), at(p)) || sym(X(p), at(p), ";")
}
// the fields of l from i on end at e; a semicolon may follow the last one
def fieldsend(x,l,i,e) = len(l) == 0 ? e == i : (e == lastto(l) || (sym(x,lastto(l),";") && e == nxt(x,lastto(l))))
func parser.(*Parser).ParseFieldList(p, terminator)(r, err) {
  uses tstream
  requires predok(terminator)
  recmeasure rem(p) * 100 + 63
  ghost if err == nil: r.$from := old(at(p))
  ghost if err == nil: r.$to := at(p)
  ensures err == nil ==> r != nil && fresh(r) && r.$from == old(at(p)) && r.$to == at(p)
  ensures [C09] fields: err == nil ==> (let x = X(p) :: let l = r.FieldDecls :: (len(l) > 0 ==> l[0].$from == old(at(p))) && lnn(l) && lsep(x,l,";"))
  ensures [C09] plain: err == nil && r.VariantSection == nil ==> fieldsend(X(p), r.FieldDecls, old(at(p)), at(p)) && acc(terminator, X(p), at(p))
  ensures [C09] variants: err == nil && r.VariantSection != nil ==> (let v = r.VariantSection :: fieldsend(X(p), r.FieldDecls, old(at(p)), v.$from) && kw(X(p), v.$from, "CASE") && v.$to == at(p))
  foreach l ast.FieldDecls :: lnn(l) && lfresh(l)
  foreach r *ast.FieldList, l ast.FieldDecls :: fresh(r) && lnn2(l,r) && lfresh(l)
  foreach l ast.FieldDecls :: len(l) > 0 ==> l[0].$from == old(at(p)) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l))
  foreach l ast.FieldDecls :: lsep(X(p), l, ";")
  foreach l ast.FieldDecls :: len(l) == 0 ==> at(p) == old(at(p))
}
def vtag(x,r,i) = r.Ident == nil ? tfrom(r.TypeId) == i : ident(x,i) && idof(x, r.Ident, i) && sym(x,nxt(x,i),":") && tfrom(r.TypeId) == nxt(x,nxt(x,i))
func parser.(*Parser).ParseVariantSection(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 62
  ensures [C09] case: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"CASE") && r.TypeId != nil && vtag(x, r, nxt(x,i)) && kw(x, tto(r.TypeId), "OF"))
  ensures [C09] variants: err == nil ==> (let x = X(p) :: let i = nxt(x, tto(r.TypeId)) :: let l = r.RecVariants :: lnn(l) && (len(l) > 0 ==> l[0].$from == i) && lsep(x,l,";") && fieldsend(x,l,i,at(p)))
  ensures [C09] end: err == nil ==> kw(X(p), at(p), "END") || sym(X(p), at(p), ")")
  foreach r *ast.VariantSection :: fresh(r) && r.TypeId != nil && allocated(tof(r.TypeId)) && tof(r.TypeId) != ref(r) && vtag(X(p), r, nxt(X(p), old(at(p)))) && kw(X(p), tto(r.TypeId), "OF")
  foreach r *ast.VariantSection :: r.Ident != nil ==> allocated(r.Ident) && ref(r.Ident) != ref(r) && ref(r.Ident) != tof(r.TypeId)
  foreach r *ast.VariantSection, l ast.RecVariants :: lnn2(l,r) && lfresh(l) && (len(l) > 0 ==> l[0].$from == nxt(X(p), tto(r.TypeId)) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  foreach l ast.RecVariants :: lsep(X(p), l, ";")
  foreach r *ast.VariantSection, l ast.RecVariants :: len(l) == 0 ==> at(p) == nxt(X(p), tto(r.TypeId))
}
func parser.(*Parser).ParseRecVariant(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 61
  ensures [C09] variant: err == nil ==> (let x = X(p) :: let l = r.ConstExprs :: seps(x,l,old(at(p)),",") && sym(x,lastto(l),":") && (let k = nxt(x,lastto(l)) :: sym(x,k,"(") && r.FieldList != nil && r.FieldList.$from == nxt(x,k) && sym(x,r.FieldList.$to,")") && at(p) == nxt(x,r.FieldList.$to)))
  foreach l ast.ExprList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(at(p)) && sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.ExprList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.ExprList :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.ExprList :: len(l) > 0
  foreach l ast.ExprList :: lsep(X(p), l, ",")
  foreach l ast.ExprList :: len(l) == 0 ==> at(p) == old(at(p))
}

// ---------- parameters ----------
// every name the declaration n gives stands for it in the open scope
def declaredall(p,n) = let w = wmap(p.context) :: w != nil && (forall k int {declid(n,k)} :: 0 <= k < ndecl(n) ==> (let d = declid(n,k) :: has(w, lower(d.Name)) && w[lower(d.Name)].Ident == d && w[lower(d.Name)].Node == n))
global [C09] ast.FpoVar: ast.FpoVar == "VAR"
global [C09] ast.FpoConst: ast.FpoConst == "CONST"
global [C09] ast.FpoOut: ast.FpoOut == "OUT"
group ends {
  requires 0 < endRune < 128
}
def ptypeend(x,t,i) = t.Type == nil ? nxt(x, nxt(x, nxt(x,i))) : tto(t.Type)
def ptype(x,t,i) = t.IsArray ? kw(x,i,"ARRAY") && kw(x,nxt(x,i),"OF") && (let k = nxt(x,nxt(x,i)) :: t.Type == nil ? kw(x,k,"CONST") : tfrom(t.Type) == k) : t.Type != nil && tfrom(t.Type) == i
def pnamesend(x,r) = r.Type == nil ? lastto(r.IdentList) : ptypeend(x, r.Type, nxt(x, lastto(r.IdentList)))
func parser.(*Parser).ParseParameter(p, endRune)(r, err) {
  uses tstream, span, ends
  recmeasure rem(p) * 100 + 51
  ensures [C09] names: err == nil ==> idents(X(p), r.IdentList, old(at(p)))
  ensures [C09] type: err == nil ==> (let x = X(p) :: let e = lastto(r.IdentList) :: r.Type == nil ? !sym(x,e,":") : sym(x,e,":") && ptype(x, r.Type, nxt(x,e)))
  ensures [C09] default: err == nil ==> (let x = X(p) :: let e = pnamesend(x,r) :: r.ConstExpr == nil ? at(p) == e : sym(x,e,"=") && r.ConstExpr.$from == nxt(x,e) && at(p) == r.ConstExpr.$to)
  ensures [C09] end: err == nil ==> sym(X(p), at(p), ";") || sym(X(p), at(p), str1(endRune))
}
func parser.(*Parser).ParseFormalParm(p, endRune)(r, err) {
  uses tstream, span, ends
  theory decls
  recmeasure rem(p) * 100 + 52
  ensures [C09] mode: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: r.Parameter != nil && r.Parameter.$to == at(p) && (tkind(x,i) == token.ReservedWord ?
     r.Opt != nil && *r.Opt == val(x,i) && (kw(x,i,"VAR") || kw(x,i,"CONST") || kw(x,i,"OUT")) && r.Parameter.$from == nxt(x,i) : r.Opt == nil && r.Parameter.$from == i))
  ensures [C09] end: err == nil ==> sym(X(p), at(p), ";") || sym(X(p), at(p), str1(endRune))
  ensures [C12] declared: err == nil ==> declaredall(p, iface(r))
}
func parser.(*Parser).ParseFormalParameters(p, startRune, endRune)(r, err) {
  uses tstream, ends
  requires 0 < startRune < 128 && endRune != 59
  recmeasure rem(p) * 100 + 53
  ensures err == nil ==> at(p) > old(at(p)) && fresh(r) && lfresh(r)
  ensures [C09] list: err == nil ==> (let x = X(p) :: sym(x, old(at(p)), str1(startRune)) && seps(x, r, nxt(x, old(at(p))), ";") && sym(x, lastto(r), str1(endRune)) && at(p) == nxt(x, lastto(r)))
  foreach l ast.FormalParameters :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.FormalParameters :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.FormalParameters :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.FormalParameters :: len(l) > 0
  foreach l ast.FormalParameters :: lsep(X(p), l, ";")
  foreach l ast.FormalParameters :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}
// the parameters l from i on; none when there is no parenthesis
def params(x,l,i,a,b) = len(l) == 0 ? !sym(x,i,a) : sym(x,i,a) && seps(x,l,nxt(x,i),";") && sym(x,lastto(l),b)
def paramsend(x,l,i) = len(l) == 0 ? i : nxt(x,lastto(l))
// the result type at i
def result(x,f,t,i) = f ? t != nil && sym(x,i,":") && t.$from == nxt(x,i) : t == nil
def resultend(x,f,t,i) = f ? t.$to : i
func parser.(*Parser).ParseProcedureType(p)(r, err) {
  uses tstream, span
  theory words
  recmeasure rem(p) * 100 + 66
  ensures [C09] kind: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: (kw(x,i,"FUNCTION") ? r.FunctionType == ast.FtFunction : kw(x,i,"PROCEDURE") && r.FunctionType == ast.FtProcedure))
  ensures [C09] heading: err == nil ==> (let x = X(p) :: let i = nxt(x, old(at(p))) :: let f = r.FunctionType == ast.FtFunction :: params(x, r.FormalParameters, i, "(", ")") && result(x, f, r.ReturnType, paramsend(x, r.FormalParameters, i))
     && (let e = resultend(x, f, r.ReturnType, paramsend(x, r.FormalParameters, i)) :: r.OfObject ? kw(x,e,"OF") && kw(x,nxt(x,e),"OBJECT") && at(p) == nxt(x,nxt(x,e)) : !kw(x,e,"OF") && at(p) == e))
}
