// ---------- contexts ----------
// scope(c): the map that names are looked up in
def scope(c) = typeis(c, *pcontext.ProgramContext) ? as(c, *pcontext.ProgramContext).DeclMap :
   (typeis(c, *pcontext.UnitContext) ? as(c, *pcontext.UnitContext).DeclMap : as(c, *pcontext.StackableContext).declMap)
// the scope of c is a new empty one before the scope m
def pushed(c, m) = typeis(scope(c), *astcore.ChainedDeclMap) && fresh(scope(c)) && as(scope(c), *astcore.ChainedDeclMap).Parent == m
   && (let i = as(scope(c), *astcore.ChainedDeclMap).Impl :: fresh(i) && (forall s string {has(i,s)} :: !has(i,s)))
iface func pcontext.Context.StackDeclMap(c)(restore) {
  except pcontext.ProgramContext
  except pcontext.UnitContext
  requires mok(c) && minv()
  modifies as(c, *pcontext.ProgramContext).DeclMap when typeis(c, *pcontext.ProgramContext)
  modifies as(c, *pcontext.UnitContext).DeclMap when typeis(c, *pcontext.UnitContext)
  modifies as(c, *pcontext.StackableContext).declMap when typeis(c, *pcontext.StackableContext)
  ensures minv()
  theory maps
  theory scopes
  ensures [C12] opens: pushed(c, old(scope(c)))
  ensures [C12] declares: wmap(c) == as(scope(c), *astcore.ChainedDeclMap).Impl
  ensures [C12] hides_nothing: !typeis(c, *pcontext.StackableContext) ==> forall s str {dget(c,s)} :: dget(c,s) == old(dget(c,s))
  closure restore() {
    requires minv()
    modifies as(c, *pcontext.ProgramContext).DeclMap when typeis(c, *pcontext.ProgramContext)
    modifies as(c, *pcontext.UnitContext).DeclMap when typeis(c, *pcontext.UnitContext)
    modifies as(c, *pcontext.StackableContext).declMap when typeis(c, *pcontext.StackableContext)
    ensures minv()
    ensures [C12] closes: scope(c) == outer(scope(c))
  }
}
iface func pcontext.Context.GetPath(c)(r) {
  except pcontext.ProgramContext
  except pcontext.UnitContext
  norec
  requires mok(c) && minv()
}
