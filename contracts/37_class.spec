// ---------- classes ----------
def isvis(s) = s == "PRIVATE" || s == "PROTECTED" || s == "PUBLIC" || s == "PUBLISHED"
def isend(k,s) = k == token.ReservedWord && upper(s) == "END"
def pbrk(k,s) = isvis(upper(tval(k,s))) || isend(k,s)
def mbrk(k,s) = pbrk(k,s) || (k == token.ReservedWord && upper(s) == "PROPERTY")
def fbrk(k,s) = mbrk(k,s) || (k == token.ReservedWord && (upper(s) == "FUNCTION" || upper(s) == "PROCEDURE" || upper(s) == "CONSTRUCTOR" || upper(s) == "DESTRUCTOR"))
global [C10] parser.visibilityBreak: predok(parser.visibilityBreak) && (forall k int, s str {holds(parser.visibilityBreak,k,s)} :: holds(parser.visibilityBreak,k,s) <==> isvis(upper(tval(k,s))))
global [C10] parser.propertyBreak: predok(parser.propertyBreak) && (forall k int, s str {holds(parser.propertyBreak,k,s)} :: holds(parser.propertyBreak,k,s) <==> pbrk(k,s))
global [C10] parser.methodBreak: predok(parser.methodBreak) && (forall k int, s str {holds(parser.methodBreak,k,s)} :: holds(parser.methodBreak,k,s) <==> mbrk(k,s))
global [C10] parser.fieldListBreak: predok(parser.fieldListBreak) && (forall k int, s str {holds(parser.fieldListBreak,k,s)} :: holds(parser.fieldListBreak,k,s) <==> fbrk(k,s))
def pbrkat(x,i) = pbrk(tkind(x,i), txt(x,i))
def mbrkat(x,i) = mbrk(tkind(x,i), txt(x,i))
def fbrkat(x,i) = fbrk(tkind(x,i), txt(x,i))

// the ancestors h of a class, from i on
def heritage(x,h,i) = len(h) == 0 ? !sym(x,i,"(") : sym(x,i,"(") && seps(x,h,nxt(x,i),",") && sym(x,lastto(h),")")
def heritageend(x,h,i) = len(h) == 0 ? i : nxt(x,lastto(h))
func parser.(*Parser).ParseClassHeritage(p)(r, err) {
  uses tstream
  ensures err == nil && len(r) > 0 ==> fresh(r) && lfresh(r)
  ensures [C10] heritage: err == nil ==> heritage(X(p), r, old(at(p))) && at(p) == heritageend(X(p), r, old(at(p)))
  foreach l ast.ClassHeritage :: lnn(l) && lfresh(l) && (len(l) > 0 ==> l[0].$from == old(nxt(X(p), at(p))) && sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.ClassHeritage :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(nxt(X(p), at(p))) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ",") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.ClassHeritage :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.ClassHeritage :: len(l) > 0
  foreach l ast.ClassHeritage :: lsep(X(p), l, ",")
  foreach l ast.ClassHeritage :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}

// ---------- fields ----------
func parser.(*Parser).ParseClassField(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 79
  ensures [C10] field: err == nil ==> (let x = X(p) :: let l = r.IdentList :: idents(x, l, old(at(p))) && sym(x, lastto(l), ":") && r.Type != nil && tfrom(r.Type) == nxt(x, lastto(l)) && at(p) == tto(r.Type))
}
// where the parts l which start at i end; a semicolon after the last belongs to it
def partsend(x,l,i) = len(l) == 0 ? i : afteropt(x, lastto(l))
def fieldsat(x,l,i) = lnn(l) && (len(l) > 0 ==> l[0].$from == i && lsep(x,l,";"))
func parser.(*Parser).ParseClassFieldList(p)(r, err) {
  uses tstream
  recmeasure rem(p) * 100 + 80
  ensures err == nil ==> (len(r) > 0 ==> fresh(r)) && lfresh(r)
  ensures [C10] fields: err == nil ==> fieldsat(X(p), r, old(at(p))) && at(p) == partsend(X(p), r, old(at(p))) && fbrkat(X(p), at(p))
  foreach l ast.ClassFieldList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))
  // the same, where the loop looks at what follows an item at its head
  foreach l ast.ClassFieldList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && (at(p) == lastto(l) || (sym(X(p), lastto(l), ";") && at(p) == nxt(X(p), lastto(l)))))
  foreach l ast.ClassFieldList :: len(l) > 0 ==> at(p) == lastto(l)
  foreach l ast.ClassFieldList :: len(l) > 0
  foreach l ast.ClassFieldList :: lsep(X(p), l, ";")
  foreach l ast.ClassFieldList :: len(l) == 0 ==> at(p) == old(at(p))
}

// ---------- methods ----------
def iscmd(s) = s == "ABSTRACT" || s == "VIRTUAL" || s == "OVERRIDE" || s == "OVERLOAD" || s == "REINTRODUCE"
def cmds() = let l = ast.ClassMethodDirectives :: allocated(l) && len(l) == 5 && l[0] == "ABSTRACT" && l[1] == "VIRTUAL" && l[2] == "OVERRIDE" && l[3] == "OVERLOAD" && l[4] == "REINTRODUCE"
global [C10] ast.ClassMethodDirectives: cmds()
// the place of the directive k of a method whose heading ends at i
ghost func mdpos(x ref, i int, k int) int
axiom forall x ref, i int {mdpos(x,i,0)} :: mdpos(x,i,0) == afteropt(x,i)
axiom forall x ref, i int, k int, n int {mdpos(x,i,k),mdpos(x,i,n)} :: 0 <= k && adj(k,n) ==> mdpos(x,i,n) == nxt(x, nxt(x, mdpos(x,i,k)))
def mdir(x,i) = iscmd(upper(upper(val(x,i))))
def mdirs(x,l,i) = forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] == upper(val(x, mdpos(x,i,k))) && mdir(x, mdpos(x,i,k)) && (k < len(l)-1 ==> sym(x, nxt(x, mdpos(x,i,k)), ";"))
// the directives l end at j: after the last one where the method ends, or after its semicolon
def mdirsend(x,l,i,j) = (j == mdpos(x,i,len(l)) && !mdir(x,j) && (len(l) > 0 ==> sym(x, nxt(x, mdpos(x,i,len(l)-1)), ";"))) || (len(l) > 0 && j == nxt(x, mdpos(x,i,len(l)-1)) && mbrkat(x,j))
func parser.(*Parser).ClassMethodDirectiveList(p)(r, err) {
  uses stream
  ensures [C10] directives: err == nil ==> mdirs(X(p), r, old(at(p)))
  ensures [C10] end: err == nil ==> mdirsend(X(p), r, old(at(p)), at(p))
  foreach l ast.ClassMethodDirectiveList :: mdirs(X(p), l, old(at(p)))
  loopinv cmds()
  foreach l ast.ClassMethodDirectiveList :: at(p) == mdpos(X(p), old(at(p)), len(l))
  foreach l ast.ClassMethodDirectiveList :: len(l) > 0 ==> sym(X(p), nxt(X(p), mdpos(X(p), old(at(p)), len(l)-1)), ";")
}
func parser.(*Parser).ParseConstructorHeading(p)(r, err) {
  uses tstream, span
  recmeasure rem(p) * 100 + 74
  ensures [C10] heading: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"CONSTRUCTOR") && idof(x, r.Ident, nxt(x,i)) && idok(r.Ident) && params(x, r.FormalParameters, nxt(x,nxt(x,i)), "(", ")") && at(p) == paramsend(x, r.FormalParameters, nxt(x,nxt(x,i))))
}
func parser.(*Parser).ParseDestructorHeading(p)(r, err) {
  uses stream, span
  ensures [C10] heading: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: kw(x,i,"DESTRUCTOR") && idof(x, r.Ident, nxt(x,i)) && idok(r.Ident) && at(p) == nxt(x,nxt(x,i)))
}
func parser.(*Parser).ParseClassMethod(p)(r, err) {
  uses sstream, span
  theory words
  recmeasure rem(p) * 100 + 79
  ensures [C10] kind: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: (typeis(r.Heading, *ast.FunctionHeading) <==> kw(x,i,"FUNCTION") || kw(x,i,"PROCEDURE")) && (typeis(r.Heading, *ast.ConstructorHeading) <==> kw(x,i,"CONSTRUCTOR")) && (typeis(r.Heading, *ast.DestructorHeading) <==> kw(x,i,"DESTRUCTOR")) && mhok(r.Heading))
  ensures [C10] method: err == nil ==> (let h = r.Heading :: h.$from == old(at(p)) && mdirs(X(p), r.Directives, h.$to) && mdirsend(X(p), r.Directives, h.$to, at(p)))
  ensures err == nil ==> r.Heading != nil
}
// parts one after the other, each with its semicolon if there is one
def loptsep(x,l) = forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> l[k].$from == afteropt(x, l[i].$to)
def partsat(x,l,i) = lnn(l) && (len(l) > 0 ==> l[0].$from == i && loptsep(x,l))
func parser.(*Parser).ParseClassMethodList(p)(r, err) {
  uses sstream
  recmeasure rem(p) * 100 + 80
  ensures err == nil ==> (len(r) > 0 ==> fresh(r)) && lfresh(r)
  ensures err == nil ==> forall k int {r[k]} :: 0 <= k < len(r) ==> r[k].Heading != nil
  ensures [C10] methods: err == nil ==> partsat(X(p), r, old(at(p))) && at(p) == partsend(X(p), r, old(at(p))) && mbrkat(X(p), at(p))
  foreach l ast.ClassMethodList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && at(p) == afteropt(X(p), lastto(l)))
  foreach l ast.ClassMethodList :: forall k int {l[k]} :: 0 <= k < len(l) ==> l[k].Heading != nil
  foreach l ast.ClassMethodList :: loptsep(X(p), l)
  foreach l ast.ClassMethodList :: len(l) == 0 ==> at(p) == old(at(p))
}

// ---------- properties ----------
def upat(x,i,s) = upper(val(x,i)) == s
func parser.(*Parser).ParsePropertyInterface(p)(r, err) {
  uses sstream, span
  recmeasure rem(p) * 100 + 54
  ensures [C10] interface: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: params(x, r.Parameters, i, "[", "]") && (let e = paramsend(x, r.Parameters, i) :: sym(x,e,":") && r.Type != nil && r.Type.$from == nxt(x,e) && at(p) == r.Type.$to))
}
// the parts of the property r, one after the other
def pintf(x,r,i) = (sym(x,i,":") || sym(x,i,"[")) ? r.Interface != nil && r.Interface.$from == i : r.Interface == nil
def pintfend(x,r,i) = r.Interface == nil ? i : r.Interface.$to
def pindex(x,r,i) = upat(x,i,"INDEX") ? r.Index != nil && r.Index.$from == nxt(x,i) : r.Index == nil
def pindexend(x,r,i) = r.Index == nil ? i : r.Index.$to
def memberref(x,f,i,c) = f != nil && idof(x, f.Ident, i) && f.Ref != nil && f.Ref.Ident != nil && lower(f.Ref.Ident.Name) == lower(val(x,i)) && f.Ref.$member == ref(c)
def pread(x,r,i,c) = upat(x,i,"READ") ? memberref(x, r.Read, nxt(x,i), c) : r.Read == nil
def preadend(x,r,i) = r.Read == nil ? i : nxt(x,nxt(x,i))
def pwrite(x,r,i,c) = upat(x,i,"WRITE") ? memberref(x, r.Write, nxt(x,i), c) : r.Write == nil
def pwriteend(x,r,i) = r.Write == nil ? i : nxt(x,nxt(x,i))
def pstored(x,r,i,c) = upat(x,i,"STORED") ? r.Stored != nil && (let v = lower(val(x,nxt(x,i))) :: v == "true" || v == "false" ? r.Stored.IdentRef == nil && r.Stored.Constant != nil && (*r.Stored.Constant <==> v == "true") : r.Stored.Constant == nil && memberref(x, r.Stored.IdentRef, nxt(x,i), c)) : r.Stored == nil
def pstoredend(x,r,i) = r.Stored == nil ? i : nxt(x,nxt(x,i))
def pdefault(x,r,i) = upat(x,i,"DEFAULT") ? r.Default != nil && r.Default.NoDefault == nil && r.Default.Value != nil && r.Default.Value.$from == nxt(x,i) : (upat(x,i,"NODEFAULT") ? r.Default != nil && r.Default.Value == nil && r.Default.NoDefault != nil && *r.Default.NoDefault : r.Default == nil)
def pdefaultend(x,r,i) = r.Default == nil ? i : (r.Default.Value == nil ? nxt(x,i) : r.Default.Value.$to)
def pimpl(x,r,i) = upat(x,i,"IMPLEMENTS") ? r.Implements != nil && r.Implements.$from == nxt(x,i) : r.Implements == nil
def pimplend(x,r,i) = r.Implements == nil ? i : r.Implements.$to
func parser.(*Parser).ParseClassProperty(p, classType)(r, err) {
  uses tstream, span
  requires classType != nil
  recmeasure rem(p) * 100 + 79
  ensures err == nil ==> r.Ident != nil
  ensures [C10] name: err == nil ==> kw(X(p), old(at(p)), "PROPERTY") && idof(X(p), r.Ident, nxt(X(p), old(at(p))))
  ensures [C10] lookedup: err == nil ==> $fpin == ref(classType) && $fpname == lower(r.Ident.Name) && $fpanc
  ensures [C10] compared: err == nil && $fprop != nil ==> r.$cmp == $fprop
  ensures [C10] noparent: err == nil && $fprop == nil ==> r.Parent == nil
  ensures [C10] parent1: err == nil && $fprop != nil && r.Interface == nil && r.$pintf ==> ref(r.Parent) == $fprop
  ensures [C10] parent2: err == nil && $fprop != nil && r.Index == nil && r.$pindex ==> ref(r.Parent) == $fprop
  ensures [C10] parent3: err == nil && $fprop != nil && r.Read == nil && r.$pread ==> ref(r.Parent) == $fprop
  ensures [C10] parent4: err == nil && $fprop != nil && r.Write == nil && r.$pwrite ==> ref(r.Parent) == $fprop
  ensures [C10] parent5: err == nil && $fprop != nil && r.Parent != nil ==> ref(r.Parent) == $fprop
  ensures [C10] parent6: err == nil && $fprop != nil && r.Parent != nil ==> (r.$pintf && r.Interface == nil) || (r.$pindex && r.Index == nil) || (r.$pread && r.Read == nil) || (r.$pwrite && r.Write == nil)
  ensures [C10] parts: err == nil ==> (let x = X(p) :: let c = classType :: let i = nxt(x, nxt(x, old(at(p)))) :: pintf(x,r,i) && (let e1 = pintfend(x,r,i) :: pindex(x,r,e1) && (let e2 = pindexend(x,r,e1) :: pread(x,r,e2,c) && (let e3 = preadend(x,r,e2) ::
     pwrite(x,r,e3,c) && (let e4 = pwriteend(x,r,e3) :: pstored(x,r,e4,c) && (let e5 = pstoredend(x,r,e4) :: pdefault(x,r,e5) && (let e6 = pdefaultend(x,r,e5) :: pimpl(x,r,e6) && at(p) == pimplend(x,r,e6))))))))
}
func parser.(*Parser).ParseClassPropertyList(p, classType)(r, err) {
  uses tstream
  requires classType != nil
  recmeasure rem(p) * 100 + 80
  ensures err == nil ==> (len(r) > 0 ==> fresh(r)) && lfresh(r)
  ensures err == nil ==> forall k int {r[k]} :: 0 <= k < len(r) ==> r[k].Ident != nil
  ensures [C10] properties: err == nil ==> partsat(X(p), r, old(at(p))) && at(p) == partsend(X(p), r, old(at(p))) && pbrkat(X(p), at(p))
  foreach l ast.ClassPropertyList :: lnn(l) && lfresh(l) && (len(l) > 0 ==> fresh(l) && l[0].$from == old(at(p)) && at(p) == afteropt(X(p), lastto(l)))
  foreach l ast.ClassPropertyList :: forall k int {l[k]} :: 0 <= k < len(l) ==> l[k].Ident != nil
  foreach l ast.ClassPropertyList :: loptsep(X(p), l)
  foreach l ast.ClassPropertyList :: len(l) == 0 ==> at(p) == old(at(p))
}

// ---------- sections ----------
def sectstart(x,i) = isvis(upper(val(x,i))) ? nxt(x,i) : i
def sectparts(x,s,i) = fieldsat(x, s.ClassFieldList, i) && (let e = partsend(x, s.ClassFieldList, i) :: partsat(x, s.ClassMethodList, e) && (let f = partsend(x, s.ClassMethodList, e) :: partsat(x, s.ClassPropertyList, f)))
def sectpartsend(x,s,i) = partsend(x, s.ClassPropertyList, partsend(x, s.ClassMethodList, partsend(x, s.ClassFieldList, i)))
func parser.(*Parser).ParseClassMemberSection(p, classType)(r, err) {
  uses tstream, span
  requires classType != nil
  modifies classType.Members
  recmeasure rem(p) * 100 + 81
  ensures [C10] member: err == nil ==> (let m = classType.Members :: let n = len(m) :: n == old(len(classType.Members)) + 1 && m[n-1] == r && (forall k int {m[k]} :: 0 <= k < n-1 ==> m[k] == old(classType.Members[k])))
  ensures err == nil ==> fresh(classType.Members)
  ensures [C10] visibility: err == nil ==> (let v = upper(val(X(p), old(at(p)))) :: r.Visibility == (isvis(v) ? v : "default"))
  ensures [C10] section: err == nil ==> (let i = sectstart(X(p), old(at(p))) :: sectparts(X(p), r, i) && at(p) == sectpartsend(X(p), r, i) && pbrkat(X(p), at(p)))
}
func parser.(*Parser).ParseClassMemberSections(p, classType)(r, err) {
  uses tstream
  requires classType != nil
  modifies classType.Members
  recmeasure rem(p) * 100 + 82
  ensures err == nil ==> r == classType.Members && lfresh(r) && fresh(r)
  ensures [C10] sections: err == nil ==> len(r) > 0 && lnn(r) && r[0].$from == old(at(p)) && lnext(r) && at(p) == lastto(r) && kw(X(p), at(p), "END")
  ensures err == nil ==> lnn2(r, classType)
  loopinv lnn2(classType.Members, classType) && lfresh(classType.Members)
  loopinv len(classType.Members) > 0 ==> fresh(classType.Members) && classType.Members[0].$from == old(at(p)) && at(p) == lastto(classType.Members)
  loopinv lnext(classType.Members)
  loopinv len(classType.Members) == 0 ==> at(p) == old(at(p))
}
// the class c whose ancestors are given from i on, if at all, ends at j
def classat(x,c,i,j) = heritage(x, c.Heritage, i) && (let e = heritageend(x, c.Heritage, i) :: let m = c.Members :: len(m) == 0 ? (kw(x,e,"END") && j == nxt(x,e)) || (sym(x,e,";") && j == e) :
   lnn(m) && m[0].$from == e && lnext(m) && kw(x,lastto(m),"END") && j == nxt(x,lastto(m)))
func parser.(*Parser).ParseClassType(p)(r, err) {
  uses tstream
  recmeasure rem(p) * 100 + 83
  ensures err == nil ==> r != nil && fresh(r) && typeis(r, *ast.CustomClassType) && as(r, *ast.CustomClassType) != nil
  ensures [C10] class: err == nil ==> classat(X(p), as(r, *ast.CustomClassType), old(at(p)), at(p))
  ensures err == nil ==> (let c = as(r, *ast.CustomClassType) :: lnn2(c.Heritage, c) && lnn2(c.Members, c))
}
func parser.(*Parser).ParseClassTypeOrClassRefType(p)(r, err) {
  uses tstream, tspan
  recmeasure rem(p) * 100 + 66
  ensures [C10] kind: err == nil ==> (let x = X(p) :: let i = old(at(p)) :: let j = nxt(x,i) :: kw(x,i,"CLASS") && (sym(x,j,";") ? typeis(r, *ast.ForwardDeclaredClassType) && as(r, *ast.ForwardDeclaredClassType) != nil && at(p) == j : (kw(x,j,"OF") ? typeis(r, *ast.CustomClassRefType) : typeis(r, *ast.CustomClassType) && as(r, *ast.CustomClassType) != nil)))
  ensures [C10] reference: err == nil && typeis(r, *ast.CustomClassRefType) ==> (let x = X(p) :: let k = nxt(x, nxt(x, old(at(p)))) :: let t = as(r, *ast.CustomClassRefType).TypeId :: ident(x,k) && t != nil && t.UnitId == nil && idof(x, t.Ident, k) && at(p) == nxt(x,k))
  ensures [C10] class: err == nil && typeis(r, *ast.CustomClassType) ==> classat(X(p), as(r, *ast.CustomClassType), nxt(X(p), old(at(p))), at(p))
}
