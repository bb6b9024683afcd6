// ---------- units ----------
// the item of a uses clause which begins with its name
def usesitem(x,it) = let i = it.Ident.$from :: let k = nxt(x,i) :: ident(x,i) && idof(x, it.Ident, i) && (kw(x,k,"IN") ? it.Path != nil && tkind(x,nxt(x,k)) == token.CharacterString && *it.Path == txt(x,nxt(x,k)) : it.Path == nil) && it.Unit == nil
def usesend(x,it) = it.Path != nil ? nxt(x,nxt(x,nxt(x, it.Ident.$from))) : nxt(x, it.Ident.$from)
def useslist(x,l) = (forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && allocated(l[k]) && l[k].Ident != nil && allocated(l[k].Ident) && (l[k].Path != nil ==> allocated(l[k].Path)) && usesitem(x,l[k]))
  && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> sym(x, usesend(x,l[i]), ",") && l[k].Ident.$from == nxt(x, usesend(x,l[i])))
def useslast(x,l) = usesend(x, l[len(l)-1])
func parser.(*Parser).ParseUsesClause(p)(r, err) {
  uses tstream
  theory decls
  ensures [C11] uses: err == nil ==> (let x = X(p) :: kw(x, old(at(p)), "USES") && len(r) > 0 && r[0].Ident.$from == nxt(x, old(at(p))) && useslist(x,r) && sym(x, useslast(x,r), ";") && at(p) == useslast(x,r))
  ensures err == nil ==> fresh(r) && lfresh(r)
  foreach l ast.UsesClause :: useslist(X(p), l) && lfresh(l)
  foreach l ast.UsesClause :: len(l) > 0 ==> fresh(l) && l[0].Ident.$from == old(nxt(X(p), at(p)))
  foreach l ast.UsesClause :: len(l) > 0 && !(sym(X(p), at(p), ";") && at(p) == useslast(X(p),l)) ==> sym(X(p), useslast(X(p),l), ",") && at(p) == nxt(X(p), useslast(X(p),l))
  foreach l ast.UsesClause :: forall k int {l[k]} :: 0 <= k < len(l) ==> idok(l[k].Ident)
  ensures [C12] declared: err == nil ==> forall k int {r[k]} :: 0 <= k < len(r) ==> declared(p, r[k].Ident, r[k])
  foreach l ast.UsesClause, k int :: forall j int {l[j]} :: 0 <= j < k && j < len(l) ==> declared(p, l[j].Ident, l[j])
  foreach l ast.UsesClause, k int :: forall j int {l[j]} :: 0 <= j <= k && j < len(l) ==> declared(p, l[j].Ident, l[j])
  foreach l ast.UsesClause :: len(l) == 0 ==> at(p) == old(nxt(X(p), at(p)))
}

// a unit parser reads with the parser it holds, whose context is its own
immutable "F|parser.UnitParser|Parser"
immutable "F|parser.UnitParser|context"
def ups(p) = p != nil && p.Parser != nil && p.context != nil && typeis(p.Parser.context, *pcontext.UnitContext) && as(p.Parser.context, *pcontext.UnitContext) == p.context && ps(p.Parser)
def UX(p) = X(p.Parser)
def uat(p) = at(p.Parser)
group ustream {
  requires ups(p)
  modifies p.Parser.curr, p.Parser.tokenizer, p.Parser.tokenizer.Cursor.Position.Index, p.Parser.tokenizer.Cursor.Position.Line, p.Parser.tokenizer.Cursor.Position.Col, p.Parser.tokenizer.Cursor.wasLF
  ensures ups(p) && UX(p) == old(UX(p)) && strm(p.Parser)
  ensures noquit(err)
  ensures [C11] forward: uat(p) >= old(uat(p))
  loopinv ups(p) && UX(p) == old(UX(p)) && strm(p.Parser) && uat(p) >= old(uat(p))
}
group uscope {
  uses ustream
  modifies p.Parser.postSectionFuncs
  modifies $fpin, $fpname, $fpanc, $fprop
  modifies p.context.DeclMap
}
// the scope in force is not changed
group ukeep {
  uses uscope
  ensures [C12] scope: p.context.DeclMap == old(p.context.DeclMap)
  loopinv p.context.DeclMap == old(p.context.DeclMap)
}
group udecl {
  uses ukeep
  modifies mapof(wmap(p.Parser.context))
  modifies all ast.TypeId.Ref where deferred(r)
  modifies all ast.ForwardDeclaredClassType.Actual
  ensures wmap(p.Parser.context) == old(wmap(p.Parser.context))
  loopinv wmap(p.Parser.context) == old(wmap(p.Parser.context))
}
func parser.(*UnitParser).ParseUnitIdent(p)(r, err) {
  uses ustream
  modifies p.Unit
  ensures err == nil ==> r != nil && fresh(r) && p.Unit == r && idok(r.Ident)
  ensures [C11] name: err == nil ==> (let x = UX(p) :: let i = nxt(x, old(uat(p))) :: kw(x, old(uat(p)), "UNIT") && ident(x,i) && idof(x, r.Ident, i) && r.Path == p.context.Path
     && (let k = nxt(x,i) :: isportability(upper(txt(x,k))) ? r.PortabilityDirective != nil && *r.PortabilityDirective == val(x,k) && sym(x,nxt(x,k),";") && uat(p) == nxt(x,nxt(x,k)) : r.PortabilityDirective == nil && sym(x,k,";") && uat(p) == nxt(x,k)))
  ensures [C11] empty: err == nil ==> r.InterfaceSection == nil && r.ImplementationSection == nil && r.InitSection == nil && r.DeclMap == nil
}
// the uses clause l at i; it is missing unless USES stands there
def usesat(x,l,i) = kw(x,i,"USES") ? len(l) > 0 && l[0].Ident.$from == nxt(x,i) && useslist(x,l) && sym(x, useslast(x,l), ";") : len(l) == 0
def usesatend(x,l,i) = len(l) == 0 ? i : nxt(x, useslast(x,l))
func parser.(*UnitParser).ParseInterfaceSectionUses(p)(r, err) {
  uses udecl
  ensures err == nil ==> r != nil && fresh(r)
  ensures [C11] interface: err == nil ==> (let x = UX(p) :: let i = nxt(x, old(uat(p))) :: kw(x, old(uat(p)), "INTERFACE") && usesat(x, r.UsesClause, i) && uat(p) == usesatend(x, r.UsesClause, i) && len(r.InterfaceDecls) == 0)
}
func parser.(*UnitParser).ParseUnitIntfUses(p)(err) {
  uses udecl
  requires p.Unit != nil
  modifies p.Unit.InterfaceSection
  ensures err == nil ==> p.Unit.InterfaceSection != nil && fresh(p.Unit.InterfaceSection)
  ensures [C11] interface: err == nil ==> (let x = UX(p) :: let i = nxt(x, old(uat(p))) :: let s = p.Unit.InterfaceSection :: kw(x, old(uat(p)), "INTERFACE") && usesat(x, s.UsesClause, i) && uat(p) == usesatend(x, s.UsesClause, i) && len(s.InterfaceDecls) == 0)
}
def unitname(x,u,i) = kw(x,i,"UNIT") && ident(x,nxt(x,i)) && idof(x, u.Ident, nxt(x,i)) && (let k = nxt(x,nxt(x,i)) :: isportability(upper(txt(x,k))) ? u.PortabilityDirective != nil && *u.PortabilityDirective == val(x,k) && sym(x,nxt(x,k),";") : u.PortabilityDirective == nil && sym(x,k,";"))
def unitnameend(x,u,i) = let k = nxt(x,nxt(x,i)) :: u.PortabilityDirective == nil ? nxt(x,k) : nxt(x,nxt(x,k))
def intfat(x,u,i) = let s = u.InterfaceSection :: s != nil && kw(x,i,"INTERFACE") && usesat(x, s.UsesClause, nxt(x,i))
def intfend(x,u,i) = usesatend(x, u.InterfaceSection.UsesClause, nxt(x,i))
func parser.(*UnitParser).ParseUnitIdentAndIntfUses(p)(r, err) {
  uses udecl
  modifies p.Unit
  ensures err == nil ==> r != nil && fresh(r) && p.Unit == r && r.InterfaceSection != nil && fresh(r.InterfaceSection) && idok(r.Ident) && r.ImplementationSection == nil && r.InitSection == nil && r.DeclMap == nil
  ensures [C11] head: err == nil ==> (let x = UX(p) :: let i = old(uat(p)) :: unitname(x,r,i) && (let j = unitnameend(x,r,i) :: intfat(x,r,j) && uat(p) == intfend(x,r,j) && len(r.InterfaceSection.InterfaceDecls) == 0))
}
func parser.(*UnitParser).ProcessIdentAndIntfUses(p)(err) {
  uses udecl
  modifies p.Unit
  ensures err == nil ==> p.Unit != nil && fresh(p.Unit) && p.Unit.InterfaceSection != nil && fresh(p.Unit.InterfaceSection) && idok(p.Unit.Ident)
}
def ifacekind(x,s,i) = (kw(x,i,"CONST") <==> isconsts(s)) && (kw(x,i,"TYPE") <==> istypes(s)) && (kw(x,i,"VAR") <==> isvars(s)) && (kw(x,i,"THREADVAR") <==> isthreadvars(s)) && (kw(x,i,"PROCEDURE") || kw(x,i,"FUNCTION") <==> typeis(s, *ast.ExportedHeading))
def ifaceword(x,i) = kw(x,i,"CONST") || kw(x,i,"TYPE") || kw(x,i,"VAR") || kw(x,i,"THREADVAR") || kw(x,i,"PROCEDURE") || kw(x,i,"FUNCTION")
def secok(s) = (isconsts(s) || istypes(s) || isvars(s) || isthreadvars(s) || typeis(s, *ast.ExportedHeading)) && (isconsts(s) ==> alldecl(as(s, ast.ConstSection))) && (istypes(s) ==> alldecl(as(s, ast.TypeSection))) && (isvars(s) ==> alldecl(as(s, ast.VarSection))) && (isthreadvars(s) ==> alldecl(as(s, ast.ThreadVarSection))) && (typeis(s, *ast.ExportedHeading) ==> declok(s))
def idecls(x,l,i,j) = len(l) == 0 ? j == i : sfrom(l[0]) == i && (forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && allocated(sof(l[k])) && ifacekind(x, l[k], sfrom(l[k])))
   && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> sfrom(l[k]) == sto(l[i])) && j == sto(l[len(l)-1])
func parser.(*UnitParser).ParseInterfaceSectionDecls(p)(err) {
  uses udecl
  theory words
  requires p.Unit != nil && p.Unit.InterfaceSection != nil
  modifies p.Unit.InterfaceSection.InterfaceDecls
  ensures [C11] decls: err == nil ==> idecls(UX(p), p.Unit.InterfaceSection.InterfaceDecls, old(uat(p)), uat(p)) && !ifaceword(UX(p), uat(p)) && stops(UX(p), uat(p))
  measure rem(p.Parser)
  theory decls
  ensures err == nil ==> forall k int {p.Unit.InterfaceSection.InterfaceDecls[k]} :: 0 <= k < len(p.Unit.InterfaceSection.InterfaceDecls) ==> secok(p.Unit.InterfaceSection.InterfaceDecls[k])
  loopinv forall k int {p.Unit.InterfaceSection.InterfaceDecls[k]} :: 0 <= k < len(p.Unit.InterfaceSection.InterfaceDecls) ==> secok(p.Unit.InterfaceSection.InterfaceDecls[k])
  loopinv idecls(UX(p), p.Unit.InterfaceSection.InterfaceDecls, old(uat(p)), uat(p)) && fresh(p.Unit.InterfaceSection.InterfaceDecls)
}
// the declarations of the section s
def nodesof(r,l) = len(r) == len(l) && (forall k int {r[k]} :: 0 <= k < len(l) ==> r[k] == iface(l[k]))
iface func ast.InterfaceDecl.GetDeclNodes(s)(r) {
  theory decls
  requires secok(s)
  ensures forall k int {r[k]} :: 0 <= k < len(r) ==> declok(r[k])
  ensures [C11] nodes: (isconsts(s) ==> nodesof(r, as(s, ast.ConstSection))) && (istypes(s) ==> nodesof(r, as(s, ast.TypeSection))) && (isvars(s) ==> nodesof(r, as(s, ast.VarSection))) && (isthreadvars(s) ==> nodesof(r, as(s, ast.ThreadVarSection))) && (typeis(s, *ast.ExportedHeading) ==> len(r) == 1 && r[0] == s)
  foreach l astcore.DeclNodes, k int :: isconsts(s) ==> forall j int {l[j]} :: 0 <= j < k && j < len(l) ==> l[j] == iface(as(s, ast.ConstSection)[j])
  foreach l astcore.DeclNodes, k int :: isconsts(s) ==> forall j int {l[j]} :: 0 <= j <= k && j < len(l) ==> l[j] == iface(as(s, ast.ConstSection)[j])
  foreach l astcore.DeclNodes, k int :: istypes(s) ==> forall j int {l[j]} :: 0 <= j < k && j < len(l) ==> l[j] == iface(as(s, ast.TypeSection)[j])
  foreach l astcore.DeclNodes, k int :: istypes(s) ==> forall j int {l[j]} :: 0 <= j <= k && j < len(l) ==> l[j] == iface(as(s, ast.TypeSection)[j])
  foreach l astcore.DeclNodes, k int :: isvars(s) ==> forall j int {l[j]} :: 0 <= j < k && j < len(l) ==> l[j] == iface(as(s, ast.VarSection)[j])
  foreach l astcore.DeclNodes, k int :: isvars(s) ==> forall j int {l[j]} :: 0 <= j <= k && j < len(l) ==> l[j] == iface(as(s, ast.VarSection)[j])
  foreach l astcore.DeclNodes, k int :: isthreadvars(s) ==> forall j int {l[j]} :: 0 <= j < k && j < len(l) ==> l[j] == iface(as(s, ast.ThreadVarSection)[j])
  foreach l astcore.DeclNodes, k int :: isthreadvars(s) ==> forall j int {l[j]} :: 0 <= j <= k && j < len(l) ==> l[j] == iface(as(s, ast.ThreadVarSection)[j])
}
func parser.(*UnitParser).ParseUnitIntfBody(p)(err) {
  uses udecl
  theory maps
  theory decls
  requires p.Unit != nil && p.Unit.InterfaceSection != nil
  modifies p.Unit.InterfaceSection.InterfaceDecls, p.Unit.DeclMap
  ensures [C11] decls: err == nil ==> idecls(UX(p), p.Unit.InterfaceSection.InterfaceDecls, old(uat(p)), uat(p)) && !ifaceword(UX(p), uat(p)) && stops(UX(p), uat(p))
  ensures [C11] exports: err == nil ==> p.Unit.DeclMap != nil && fresh(p.Unit.DeclMap)
}
func parser.(*UnitParser).ParseImplUses(p)(err) {
  theory maps
  theory scopes
  uses uscope
  requires p.Unit != nil
  modifies p.Unit.ImplementationSection
  ensures err == nil ==> fresh(wmap(p.Parser.context))
  ensures [C12] opens: err == nil ==> typeis(p.context.DeclMap, *astcore.ChainedDeclMap) && fresh(p.context.DeclMap) && as(p.context.DeclMap, *astcore.ChainedDeclMap).Parent == old(p.context.DeclMap)
  ensures [C11] implementation: err == nil ==> (let x = UX(p) :: let i = nxt(x, old(uat(p))) :: let s = p.Unit.ImplementationSection :: s != nil && fresh(s) && kw(x, old(uat(p)), "IMPLEMENTATION") && usesat(x, s.UsesClause, i) && uat(p) == usesatend(x, s.UsesClause, i) && len(s.DeclSections) == 0 && len(s.ExportsStmts) == 0)
}
func parser.(*UnitParser).ParseImplBody(p)(err) {
  uses udecl
  requires p.Unit != nil && p.Unit.ImplementationSection != nil && len(p.Unit.ImplementationSection.DeclSections) == 0 && len(p.Unit.ImplementationSection.ExportsStmts) == 0
  modifies p.Unit.ImplementationSection.DeclSections, p.Unit.ImplementationSection.ExportsStmts
  ensures [C11] body: err == nil ==> (let x = UX(p) :: let s = p.Unit.ImplementationSection :: let i = old(uat(p)) :: let j = sectsend(x, s.DeclSections, i) :: sects(x, s.DeclSections, i, j) && !sectionword(x,j) && exportsat(x, s.ExportsStmts, j) && uat(p) == afteropt(x, exportsend(s.ExportsStmts, j)))
}
func parser.(*UnitParser).ParseInitSection(p)(r, err) {
  uses ukeep
  ghost if err == nil: r.$from := old(uat(p))
  ghost if err == nil: r.$to := uat(p)
  ensures err == nil ==> r != nil && fresh(r) && r.$from == old(uat(p)) && r.$to == uat(p)
  ensures [C11] initialization: err == nil ==> (let x = UX(p) :: let i = nxt(x, old(uat(p))) :: kw(x, old(uat(p)), "INITIALIZATION") && (exists j int {kw(x,j,"FINALIZATION")} :: stmts(x, r.InitializationStmts, i, j) && (kw(x,j,"FINALIZATION") ? stmts(x, r.FinalizationStmts, nxt(x,j), uat(p)) && kw(x, uat(p), "END") : kw(x,j,"END") && len(r.FinalizationStmts) == 0 && uat(p) == j)))
}
func parser.(*UnitParser).ParseUnitEnd(p)(err) {
  uses ukeep
  requires p.Unit != nil && p.Unit.InitSection == nil
  modifies p.Unit.InitSection
  ensures [C11] end: err == nil ==> (let x = UX(p) :: sym(x, uat(p), ".") && (kw(x, old(uat(p)), "INITIALIZATION") ? (let s = p.Unit.InitSection :: s != nil && fresh(s) && s.$from == old(uat(p)) && kw(x, s.$to, "END") && uat(p) == nxt(x, s.$to)) : p.Unit.InitSection == nil && kw(x, old(uat(p)), "END") && uat(p) == nxt(x, old(uat(p)))))
}
def ideclsend(l,i) = len(l) == 0 ? i : sto(l[len(l)-1])
def bodyat(x,s,i) = let j = sectsend(x, s.DeclSections, i) :: sects(x, s.DeclSections, i, j) && !sectionword(x,j) && exportsat(x, s.ExportsStmts, j)
def bodyatend(x,s,i) = afteropt(x, exportsend(s.ExportsStmts, sectsend(x, s.DeclSections, i)))
def initat(x,u,i,j) = kw(x,i,"INITIALIZATION") ? (let s = u.InitSection :: s != nil && s.$from == i && kw(x, s.$to, "END") && j == nxt(x, s.$to)) : u.InitSection == nil && kw(x,i,"END") && j == nxt(x,i)
// the interface section from i on, its uses clause apart
def unitbody(x,u,i,e) = idecls(x, u.InterfaceSection.InterfaceDecls, i, ideclsend(u.InterfaceSection.InterfaceDecls, i)) && (let j = ideclsend(u.InterfaceSection.InterfaceDecls, i) :: !ifaceword(x,j) && kw(x,j,"IMPLEMENTATION") && (let s = u.ImplementationSection :: s != nil && usesat(x, s.UsesClause, nxt(x,j)) && (let k = usesatend(x, s.UsesClause, nxt(x,j)) :: bodyat(x,s,k) && (let m = bodyatend(x,s,k) :: initat(x,u,m,e)))))
func parser.(*UnitParser).ParseUnit(p)(r, err) {
  uses uscope
  modifies p.Unit
  modifies mapof(wmap(p.Parser.context))
  modifies all ast.TypeId.Ref where deferred(r)
  modifies all ast.ForwardDeclaredClassType.Actual
  ensures err == nil ==> r != nil && fresh(r) && p.Unit == r
  ensures [C11] head: err == nil ==> (let x = UX(p) :: let i = old(uat(p)) :: unitname(x,r,i) && intfat(x,r,unitnameend(x,r,i)))
  ensures [C11] body: err == nil ==> (let x = UX(p) :: let i = intfend(x, r, unitnameend(x, r, old(uat(p)))) :: unitbody(x, r, i, uat(p)) && sym(x, uat(p), "."))
}

// ---------- programs ----------
immutable "F|parser.ProgramParser|Parser"
immutable "F|parser.ProgramParser|context"
def pps(p) = p != nil && p.Parser != nil && p.context != nil && typeis(p.Parser.context, *pcontext.ProgramContext) && as(p.Parser.context, *pcontext.ProgramContext) == p.context && ps(p.Parser)
group pstream {
  requires pps(p)
  modifies p.Parser.curr, p.Parser.tokenizer, p.Parser.tokenizer.Cursor.Position.Index, p.Parser.tokenizer.Cursor.Position.Line, p.Parser.tokenizer.Cursor.Position.Col, p.Parser.tokenizer.Cursor.wasLF
  modifies p.Parser.postSectionFuncs
  modifies $fpin, $fpname, $fpanc, $fprop
  modifies p.context.DeclMap, p.context.Units
  modifies all ast.TypeId.Ref where deferred(r)
  modifies all ast.ForwardDeclaredClassType.Actual
  modifies all ast.UsesClauseItem.Unit
  modifies mapof(wmap(p.Parser.context))
  ensures pps(p) && UX(p) == old(UX(p)) && strm(p.Parser)
  ensures [C11] forward: uat(p) >= old(uat(p))
}
func parser.(*ProgramParser).LoadUnits(p, uses)(err) {
  trusted
  uses pstream
  requires p.Program != nil
  modifies p.Program.DeclMap
  ensures uat(p) == old(uat(p))
  ensures err == nil ==> fresh(wmap(p.Parser.context))
}
def punit(x,it) = let i = it.Ident.$from :: let k = nxt(x,i) :: ident(x,i) && idof(x, it.Ident, i) && (kw(x,k,"IN") ? it.Path != nil && tkind(x,nxt(x,k)) == token.CharacterString && *it.Path == txt(x,nxt(x,k)) : it.Path == nil)
def puseslist(x,l) = (forall k int {l[k]} :: 0 <= k < len(l) ==> l[k] != nil && allocated(l[k]) && l[k].Ident != nil && allocated(l[k].Ident) && (l[k].Path != nil ==> allocated(l[k].Path)) && punit(x,l[k]))
  && (forall i int, k int {l[i],l[k]} :: 0 <= i && adj(i,k) && k < len(l) ==> sym(x, usesend(x,l[i]), ",") && l[k].Ident.$from == nxt(x, usesend(x,l[i])))
def pusesat(x,l,i) = kw(x,i,"USES") ? len(l) > 0 && l[0].Ident.$from == nxt(x,i) && puseslist(x,l) && sym(x, useslast(x,l), ";") : len(l) == 0
func parser.(*ProgramParser).ParseProgramBlock(p)(r, err) {
  uses pstream
  requires p.Program != nil
  modifies p.Program.DeclMap
  ensures err == nil ==> r != nil && fresh(r)
  ensures [C11] program: err == nil ==> (let x = UX(p) :: let i = old(uat(p)) :: pusesat(x, r.UsesClause, i) && r.Block != nil && r.Block.$from == usesatend(x, r.UsesClause, i) && uat(p) == r.Block.$to)
}
func parser.(*ProgramParser).ParseProgram(p)(r, err) {
  uses pstream
  modifies p.Program
  ensures [C11] program: err == nil ==> (let x = UX(p) :: let i = nxt(x, old(uat(p))) :: r != nil && p.Program == r && kw(x, old(uat(p)), "PROGRAM") && ident(x,i) && idof(x, r.Ident, i) && r.Path == p.context.Path && sym(x, nxt(x,i), ";")
     && r.ProgramBlock != nil && (let b = r.ProgramBlock :: let e = nxt(x,nxt(x,i)) :: pusesat(x, b.UsesClause, e) && b.Block != nil && b.Block.$from == usesatend(x, b.UsesClause, e) && sym(x, b.Block.$to, ".") && uat(p) == b.Block.$to))
}
