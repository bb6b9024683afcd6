// ---------- declaration maps ----------
// dget(m,s): what the map m knows under the name s
heap func dget(m iface, s str) *astcore.Decl reads "mapdom *astcore.Decl", "mapval *astcore.Decl", "field astcore.ChainedDeclMap.Parent", "field astcore.ChainedDeclMap.Impl",
   "field astcore.CompositeDeclMap.maps", "elems astcore.DeclMap",
   "field pcontext.ProgramContext.DeclMap", "field pcontext.UnitContext.DeclMap", "field pcontext.StackableContext.declMap", "field pcontext.StackableContext.parent"
heap func dfrom(m iface, s str, i int) *astcore.Decl reads "mapdom *astcore.Decl", "mapval *astcore.Decl", "field astcore.ChainedDeclMap.Parent", "field astcore.ChainedDeclMap.Impl",
   "field astcore.CompositeDeclMap.maps", "elems astcore.DeclMap",
   "field pcontext.ProgramContext.DeclMap", "field pcontext.UnitContext.DeclMap", "field pcontext.StackableContext.declMap", "field pcontext.StackableContext.parent"
// mok(m): m and the maps behind it exist, now and later
ghost func mok(m iface) bool
axiom forall m iface {mok(m)} :: mok(m) ==> m != nil && !typeis(m, pcontext.ProgramContext) && !typeis(m, pcontext.UnitContext)
   && (typeis(m, *pcontext.ProgramContext) ==> as(m, *pcontext.ProgramContext) != nil) && (typeis(m, *pcontext.UnitContext) ==> as(m, *pcontext.UnitContext) != nil)
   && (typeis(m, *pcontext.StackableContext) ==> as(m, *pcontext.StackableContext) != nil) && (typeis(m, *astcore.ChainedDeclMap) ==> as(m, *astcore.ChainedDeclMap) != nil)
   && (typeis(m, *astcore.CompositeDeclMap) ==> as(m, *astcore.CompositeDeclMap) != nil) && (typeis(m, astcore.DeclMapImpl) ==> as(m, astcore.DeclMapImpl) != nil)
axiom forall m iface {mok(m)} :: typeis(m, *ast.embeddedTypeDeclMapSingleton) ==> mok(m)
immutable "F|astcore.ChainedDeclMap"
immutable "F|astcore.CompositeDeclMap"
immutable "F|astcore.Decl"
immutable "F|astcore.Ident"
immutable "F|pcontext.StackableContext|parent"
def isctx(m) = typeis(m, *pcontext.ProgramContext) || typeis(m, *pcontext.UnitContext) || typeis(m, *pcontext.StackableContext)
// a map that is no context
def mokm(m) = mok(m) && !isctx(m)
// minv(): the maps behind a good map are good
def minv() = (forall c *astcore.ChainedDeclMap {c.Impl} {c.Parent} :: mok(iface(c)) ==> c.Impl != nil && mokm(c.Parent))
   && (forall c *astcore.CompositeDeclMap {c.maps} :: mok(iface(c)) ==> 0 < len(c.maps))
   && (forall c *astcore.CompositeDeclMap, i int {c.maps[i]} :: mok(iface(c)) && 0 <= i < len(c.maps) ==> mokm(c.maps[i]))
   && (forall c *pcontext.ProgramContext {c.DeclMap} :: mok(iface(c)) ==> mokm(c.DeclMap))
   && (forall c *pcontext.UnitContext {c.DeclMap} :: mok(iface(c)) ==> mokm(c.DeclMap))
   && (forall c *pcontext.StackableContext {c.declMap} {c.parent} :: mok(iface(c)) ==> mokm(c.declMap) && mok(c.parent))
   && (forall u *ast.Unit {u.DeclMap} :: u.DeclMap != nil ==> mokm(u.DeclMap))
   && (forall u *ast.Program {u.DeclMap} :: u.DeclMap != nil ==> mokm(u.DeclMap))
// a declaration: a name with a place, and a node
def nodenn(n) = n != nil && (typeis(n, *ast.TypeDecl) ==> as(n, *ast.TypeDecl) != nil) && (typeis(n, *ast.UsesClauseItem) ==> as(n, *ast.UsesClauseItem) != nil)
   && !typeis(n, *parser.Program) && !typeis(n, parser.Program)
   && (typeis(n, *ast.Unit) ==> as(n, *ast.Unit) != nil) && (typeis(n, *ast.Program) ==> as(n, *ast.Program) != nil)
def dok(d) = idok(d.Ident) && nodenn(d.Node)
// mapinv(): every entry of every map is a declaration
def mapinv() = forall w astcore.DeclMapImpl, s string {has(w,s)} :: has(w,s) ==> w[s] != nil && dok(w[s])
theory maps
axiom forall m iface, s str {dget(m,s)} :: typeis(m, astcore.DeclMapImpl) ==> dget(m,s) == as(m, astcore.DeclMapImpl)[lower(s)]
axiom forall m iface, s str {dget(m,s)} :: typeis(m, *astcore.ChainedDeclMap) ==> dget(m,s) ==
   (let c = as(m, *astcore.ChainedDeclMap) :: c.Impl[lower(s)] != nil ? c.Impl[lower(s)] : dget(c.Parent, s))
axiom forall m iface, s str {dget(m,s)} :: typeis(m, *astcore.CompositeDeclMap) ==> dget(m,s) == dfrom(m,s,0)
axiom forall m iface, s str, i int {dfrom(m,s,i)} :: typeis(m, *astcore.CompositeDeclMap) && 0 <= i ==> dfrom(m,s,i) ==
   (let c = as(m, *astcore.CompositeDeclMap) :: i >= len(c.maps) ? nil : (dget(c.maps[i], s) != nil ? dget(c.maps[i], s) : dfrom(m,s,i+1)))
axiom forall m iface, s str {dget(m,s)} :: typeis(m, *ast.embeddedTypeDeclMapSingleton) ==> dget(m,s) == ast.embeddedTypeDeclMap[upper(s)]
axiom forall m iface, s str {dget(m,s)} :: typeis(m, *pcontext.ProgramContext) ==> dget(m,s) == dget(as(m, *pcontext.ProgramContext).DeclMap, s)
axiom forall m iface, s str {dget(m,s)} :: typeis(m, *pcontext.UnitContext) ==> dget(m,s) == dget(as(m, *pcontext.UnitContext).DeclMap, s)
axiom forall m iface, s str {dget(m,s)} :: typeis(m, *pcontext.StackableContext) ==> dget(m,s) ==
   (let c = as(m, *pcontext.StackableContext) :: dget(c.declMap, s) != nil ? dget(c.declMap, s) : dget(c.parent, s))
theory base
iface func astcore.DeclMap.Get(m, name)(r) {
  theory maps
  norec
  except pcontext.ProgramContext
  except pcontext.UnitContext
  requires mok(m) && minv() && mapinv()
  ensures [C13] lookup: r == dget(m, name)
  ensures r != nil ==> dok(r)
  foreach k int :: dfrom(m, name, 0) == dfrom(m, name, k + 1)
  foreach k int :: dfrom(m, name, 0) == dfrom(m, name, k)
}
func astcore.DeclMapImpl.regularize(m, name)(r) {
  ensures [C13] r == lower(name)
}
func astcore.NewDeclMap()(r) {
  define r: mok(r)
  ensures fresh(r) && typeis(r, astcore.DeclMapImpl) && as(r, astcore.DeclMapImpl) != nil
  ensures [C13] empty: forall s string :: !has(as(r, astcore.DeclMapImpl), s)
}
func astcore.NewChainedDeclMap(parent)(r) {
  requires minv()
  define r: mok(iface(r)) <==> mokm(parent)
  ensures minv()
  ensures fresh(r) && r.Parent == parent && r.Impl != nil && fresh(r.Impl)
  ensures [C13] empty: forall s string :: !has(r.Impl, s)
}
func astcore.NewCompositeDeclMap(maps)(r) {
  requires minv()
  define r: mok(iface(r)) <==> 0 < len(maps) && (forall i int {maps[i]} :: 0 <= i < len(maps) ==> mokm(maps[i]))
  ensures minv()
  ensures [C13] fresh(r) && r.maps == maps
}
heap func wmap(m iface) astcore.DeclMapImpl reads "field astcore.ChainedDeclMap.Impl", "field astcore.CompositeDeclMap.maps", "elems astcore.DeclMap",
   "field pcontext.ProgramContext.DeclMap", "field pcontext.UnitContext.DeclMap", "field pcontext.StackableContext.declMap"
theory maps
// wmap(m): the map a declaration set on m goes to; none for the table of built-in types
axiom forall m iface {wmap(m)} :: typeis(m, astcore.DeclMapImpl) ==> wmap(m) == as(m, astcore.DeclMapImpl)
axiom forall m iface {wmap(m)} :: typeis(m, *astcore.ChainedDeclMap) ==> wmap(m) == as(m, *astcore.ChainedDeclMap).Impl
axiom forall m iface {wmap(m)} :: typeis(m, *astcore.CompositeDeclMap) ==> wmap(m) == wmap(as(m, *astcore.CompositeDeclMap).maps[0])
axiom forall m iface {wmap(m)} :: typeis(m, *ast.embeddedTypeDeclMapSingleton) ==> wmap(m) == nil
axiom forall m iface {wmap(m)} :: typeis(m, *pcontext.ProgramContext) ==> wmap(m) == wmap(as(m, *pcontext.ProgramContext).DeclMap)
axiom forall m iface {wmap(m)} :: typeis(m, *pcontext.UnitContext) ==> wmap(m) == wmap(as(m, *pcontext.UnitContext).DeclMap)
axiom forall m iface {wmap(m)} :: typeis(m, *pcontext.StackableContext) ==> wmap(m) == wmap(as(m, *pcontext.StackableContext).declMap)
theory base
iface func astcore.DeclMap.Set(m, decl)(err) {
  theory maps
  theory decls
  norec
  except pcontext.ProgramContext
  except pcontext.UnitContext
  requires mok(m) && minv() && declok(decl) && mapinv()
  modifies mapof(wmap(m))
  ensures noquit(err)
  ensures [C13] no_place: wmap(m) == nil ==> err != nil
  ensures [C13] keeps: wmap(m) != nil ==> (let w = wmap(m) :: forall s string {has(w,s)} :: old(has(w,s)) ==> has(w,s) && w[s] == old(w[s]))
  ensures [C13] adds_only: wmap(m) != nil ==> (let w = wmap(m) :: forall s string {has(w,s)} :: has(w,s) && !old(has(w,s)) ==> w[s] != nil && fresh(w[s]) && lower(w[s].Ident.Name) == s && w[s].Node == decl && idok(w[s].Ident))
  ensures [C13] adds_all: err == nil ==> (let w = wmap(m) :: forall i int {declid(decl,i)} :: 0 <= i < ndecl(decl) ==> (let s = lower(declid(decl,i).Name) :: !old(has(w,s)) && has(w,s) && w[s].Ident == declid(decl,i)))
  ensures [C13] refuses: err != nil && wmap(m) != nil ==> (let w = wmap(m) :: exists i int {declid(decl,i)} :: 0 <= i < ndecl(decl) && (old(has(w, lower(declid(decl,i).Name))) || (exists j int {declid(decl,j)} :: 0 <= j < i && lower(declid(decl,i).Name) == lower(declid(decl,j).Name))))
  ensures mapinv()
  ensures [C13] adds_first: err == nil && ndecl(decl) > 0 ==> (let w = wmap(m) :: let s = lower(declid(decl,0).Name) :: !old(has(w,s)) && has(w,s) && w[s].Ident == declid(decl,0))
}
iface func astcore.DeclMap.Overwrite(m, name, decl) {
  theory maps
  norec
  except pcontext.ProgramContext
  except pcontext.UnitContext
  requires mok(m) && minv() && decl != nil && dok(decl) && mapinv()
  modifies mapof(wmap(m))
  ensures mapinv()
  ensures [C13] sets: wmap(m) != nil ==> (let w = wmap(m) :: has(w, lower(name)) && w[lower(name)] == decl)
  ensures [C13] keeps: wmap(m) != nil ==> (let w = wmap(m) :: forall s string {has(w,s)} :: s != lower(name) ==> (has(w,s) <==> old(has(w,s))) && w[s] == old(w[s]))
}
func astcore.DeclMapImpl.Set(m, decl)(err) {
  theory decls
  requires m != nil && declok(decl)
  requires mapinv()
  ensures mapinv()
  ensures noquit(err)
  loopinv mapinv()
  modifies mapof(m)
  ensures [C13] keeps: forall s string {has(m,s)} :: old(has(m,s)) ==> has(m,s) && m[s] == old(m[s])
  ensures [C13] adds_only: forall s string {has(m,s)} :: has(m,s) && !old(has(m,s)) ==> m[s] != nil && fresh(m[s]) && lower(m[s].Ident.Name) == s && m[s].Node == decl && idok(m[s].Ident)
  ensures [C13] adds_all: err == nil ==> (forall i int {declid(decl,i)} :: 0 <= i < ndecl(decl) ==> (let s = lower(declid(decl,i).Name) :: !old(has(m,s)) && has(m,s) && m[s].Ident == declid(decl,i)))
  ensures [C13] refuses: err != nil ==> (exists i int {declid(decl,i)} :: 0 <= i < ndecl(decl) && (old(has(m, lower(declid(decl,i).Name))) || (exists j int {declid(decl,j)} :: 0 <= j < i && lower(declid(decl,i).Name) == lower(declid(decl,j).Name))))
  loopinv forall s string {has(m,s)} :: old(has(m,s)) ==> has(m,s) && m[s] == old(m[s])
  loopinv forall s string {has(m,s)} :: has(m,s) && !old(has(m,s)) ==> m[s] != nil && fresh(m[s]) && lower(m[s].Ident.Name) == s && m[s].Node == decl && idok(m[s].Ident)
  foreach k int :: forall s string {has(m,s)} :: has(m,s) && !old(has(m,s)) ==> (exists j int {declid(decl,j)} :: 0 <= j <= k && lower(declid(decl,j).Name) == s)
  foreach k int :: forall i int {declid(decl,i)} :: 0 <= i <= k ==> (let s = lower(declid(decl,i).Name) :: !old(has(m,s)) && has(m,s) && m[s].Ident == declid(decl,i))
}
func astcore.DeclMapImpl.Overwrite(m, name, decl) {
  requires m != nil && decl != nil && dok(decl) && mapinv()
  modifies mapof(m)
  ensures mapinv()
  ensures [C13] sets: has(m, lower(name)) && m[lower(name)] == decl
  ensures [C13] keeps: forall s string {has(m,s)} :: s != lower(name) ==> (has(m,s) <==> old(has(m,s))) && m[s] == old(m[s])
}

// what a map that is no context knows does not depend on the contexts
heap func pget(m iface, s str) *astcore.Decl reads "mapdom *astcore.Decl", "mapval *astcore.Decl", "field astcore.ChainedDeclMap.Parent", "field astcore.ChainedDeclMap.Impl",
   "field astcore.CompositeDeclMap.maps", "elems astcore.DeclMap"
theory scopes
axiom forall m iface, s str {dget(m,s)} :: minv() && mokm(m) ==> dget(m,s) == pget(m,s)
theory base
