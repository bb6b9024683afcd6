// ---------- look-ups by name ----------
axiom forall s str {lower(lower(s))} :: lower(lower(s)) == lower(s)
func log.Printf(format, v) { trusted }
theory lookup
theory base
func astcore.IdentList.Names(s)(r) {
  requires forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != nil
  ensures [C20] len(r) == len(s) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == s[i].Name)
  foreach l []string, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= j <= k ==> l[j] == s[j].Name)
  foreach l []string, k int :: len(l) == k + 1 && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[j].Name)
}
func astcore.IdentList.Find(s, name)(r) {
  requires forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != nil
  ensures [C20] none: r == nil ==> (forall i int {s[i]} :: 0 <= i < len(s) ==> lower(s[i].Name) != lower(name))
  ensures [C20] first: r != nil ==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == r && lower(r.Name) == lower(name) && (forall j int {s[j]} :: 0 <= j < i ==> lower(s[j].Name) != lower(name)))
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> lower(s[j].Name) != lower(name)
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> lower(s[j].Name) != lower(name)
}
func astcore.Decls.Find(s, name)(r) {
  ensures [C20] r == nil && len(s) > 0 ==> lower(s[0].Ident.Name) != lower(name)
  requires forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != nil && s[i].Ident != nil
  ensures [C20] none: r == nil ==> (forall i int {s[i]} :: 0 <= i < len(s) ==> lower(s[i].Ident.Name) != lower(name))
  ensures [C20] first: r != nil ==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == r && lower(r.Ident.Name) == lower(name) && (forall j int {s[j]} :: 0 <= j < i ==> lower(s[j].Ident.Name) != lower(name)))
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> lower(s[j].Ident.Name) != lower(name)
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> lower(s[j].Ident.Name) != lower(name)
}
func ast.UsesClause.Find(s, name)(r) {
  requires forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != nil && s[i].Ident != nil
  ensures [C20] none: r == nil ==> (forall i int {s[i]} :: 0 <= i < len(s) ==> lower(s[i].Ident.Name) != lower(name))
  ensures [C20] first: r != nil ==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == r && lower(r.Ident.Name) == lower(name) && (forall j int {s[j]} :: 0 <= j < i ==> lower(s[j].Ident.Name) != lower(name)))
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> lower(s[j].Ident.Name) != lower(name)
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> lower(s[j].Ident.Name) != lower(name)
}
func ast.Units.ByName(s, name)(r) {
  requires forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != nil && s[i].Ident != nil
  ensures [C20] none: r == nil ==> (forall i int {s[i]} :: 0 <= i < len(s) ==> lower(s[i].Ident.Name) != lower(name))
  ensures [C20] first: r != nil ==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == r && lower(r.Ident.Name) == lower(name) && (forall j int {s[j]} :: 0 <= j < i ==> lower(s[j].Ident.Name) != lower(name)))
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> lower(s[j].Ident.Name) != lower(name)
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> lower(s[j].Ident.Name) != lower(name)
}
func ast.UsesClause.IdentList(s)(r) {
  requires forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != nil
  ensures [C20] len(r) == len(s) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == s[i].Ident)
  foreach l astcore.IdentList, k int :: len(l) == k + 1 && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[j].Ident)
  foreach l astcore.IdentList, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= j <= k ==> l[j] == s[j].Ident)
  foreach l astcore.IdentList, k int :: len(l) == k && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[j].Ident)
}
func ast.UsesClause.Units(s)(r) {
  requires forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != nil
  ensures [C20] len(r) == len(s) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == s[i].Unit)
  foreach l ast.Units, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= j <= k ==> l[j] == s[j].Unit)
  foreach l ast.Units, k int :: len(l) == k + 1 && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[j].Unit)
}
func ast.Units.DeclMaps(s)(r) {
  requires forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != nil
  ensures [C20] len(r) == len(s) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == s[i].DeclMap)
  foreach l astcore.DeclMaps, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= j <= k ==> l[j] == s[j].DeclMap)
  foreach l astcore.DeclMaps, k int :: len(l) == k + 1 && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[j].DeclMap)
}
func astcore.DeclMaps.Reverse(s)(r) {
  ensures [C20] len(r) == len(s) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == s[len(s) - 1 - i])
  foreach l astcore.DeclMaps, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= len(s) - 1 - j <= k && j >= 0 ==> l[j] == s[len(s) - 1 - j])
  foreach l astcore.DeclMaps, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= j <= k ==> l[j] == s[len(s) - 1 - j])
  foreach l astcore.DeclMaps, k int :: len(l) == k + 1 && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[len(s) - 1 - j])
  foreach k int :: 0 - 1 <= k && k < len(s)
  foreach l astcore.DeclMaps, k int :: len(l) == len(s) - 1 - k && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[len(s) - 1 - j])
  foreach l astcore.DeclMaps, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= j < len(s) - 1 - k ==> l[j] == s[len(s) - 1 - j])
}
func ast.ClassMethodDirectiveList.Include(s, w)(r) {
  ensures [C20] r <==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == upper(w))
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> s[j] != upper(w)
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> s[j] != upper(w)
  foreach b bool, k int :: (b ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == upper(w))) && (!b ==> (forall j int {s[j]} :: 0 <= j < k ==> s[j] != upper(w)))
  foreach b bool, k int :: (b ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == upper(w))) && (!b ==> (forall j int {s[j]} :: 0 <= j <= k ==> s[j] != upper(w)))
}
func ext.Strings.Include(s, v)(r) {
  ensures [C20] r <==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == v)
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> s[j] != v
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> s[j] != v
  foreach b bool, k int :: (b ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == v)) && (!b ==> (forall j int {s[j]} :: 0 <= j < k ==> s[j] != v))
  foreach b bool, k int :: (b ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == v)) && (!b ==> (forall j int {s[j]} :: 0 <= j <= k ==> s[j] != v))
}
func ext.Strings.Equal(s, o)(r) {
  ensures [C20] r <==> len(s) == len(o) && (forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] == o[i])
  foreach k int :: forall j int {s[j]} :: 0 <= j <= k ==> s[j] == o[j]
  foreach k int :: forall j int {s[j]} :: 0 <= j < k ==> s[j] == o[j]
}
func ext.Strings.Reverse(s)(r) {
  ensures [C20] len(r) == len(s) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == s[len(s) - 1 - i])
  foreach l ext.Strings, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= len(s) - 1 - j <= k && j >= 0 ==> l[j] == s[len(s) - 1 - j])
  foreach l ext.Strings, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= j <= k ==> l[j] == s[len(s) - 1 - j])
  foreach l ext.Strings, k int :: len(l) == k + 1 && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[len(s) - 1 - j])
  foreach k int :: 0 - 1 <= k && k < len(s)
  foreach l ext.Strings, k int :: len(l) == len(s) - 1 - k && (forall j int {l[j]} :: 0 <= j < len(l) ==> l[j] == s[len(s) - 1 - j])
  foreach l ext.Strings, k int :: len(l) == len(s) && (forall j int {l[j]} :: 0 <= j < len(s) - 1 - k ==> l[j] == s[len(s) - 1 - j])
}
func ext.StringSet.Add(m, s) {
  requires m != nil
  modifies mapof(m)
  ensures [C20] has(m, s) && (forall t string {has(m,t)} :: t != s ==> (has(m,t) <==> old(has(m,t))))
}
func ext.StringSet.Remove(m, s) {
  modifies mapof(m)
  ensures [C20] m != nil ==> !has(m, s) && (forall t string {has(m,t)} :: t != s ==> (has(m,t) <==> old(has(m,t))))
}
func ext.StringSet.Include(m, s)(r) {
  ensures [C20] r <==> has(m, s)
}
func ext.StringSet.Slice(m)(r) {
  ensures len(r) == len(m)
  foreach i int :: i == seencount()
}
func ext.NewStringSet(s)(r) {
  ensures [C20] r != nil && fresh(r) && (forall t string {has(r,t)} :: has(r,t) <==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == t))
  foreach m ext.StringSet, k int :: m != nil && (forall t string {has(m,t)} :: has(m,t) <==> (exists i int {s[i]} :: 0 <= i <= k && s[i] == t))
}
func ext.Strings.Set(s)(r) {
  ensures [C20] r != nil && (forall t string {has(r,t)} :: has(r,t) <==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == t))
}
// ---------- the kinds of types ----------
// 1 simple, 2 ordinal, 3 real, 4 ordinal identifier, 5 string, 6 pointer, 7 variant
heap func tyis(k int, n iface) bool reads "field ast.TypeEmbedded.Kind", "field ast.TypeId.Ref", "field astcore.Decl.Node", "field ast.TypeDecl.Type"
def namedtype(m) = m.Ref != nil && m.Ref.Node != nil && typeis(m.Ref.Node, *ast.TypeDecl) && as(m.Ref.Node, *ast.TypeDecl) != nil
// no type is a pointer to nothing
def tnil(n) = (typeis(n, *ast.TypeEmbedded) && as(n, *ast.TypeEmbedded) == nil) || (typeis(n, *ast.TypeId) && as(n, *ast.TypeId) == nil)
   || (typeis(n, *ast.ForwardDeclaredClassType) && as(n, *ast.ForwardDeclaredClassType) == nil) || (typeis(n, *ast.CustomClassType) && as(n, *ast.CustomClassType) == nil)
def tinv() = forall d *ast.TypeDecl {d.Type} :: !tnil(d.Type)
def tyok(n) = n != nil && !tnil(n) && tinv()
theory kinds
axiom forall k int, n iface {tyis(k,n)} :: tyis(k,n) <==>
  (typeis(n, ast.EnumeratedType) && (k == 1 || k == 2)) || (typeis(n, *ast.SubrangeType) && (k == 1 || k == 2)) || (typeis(n, *ast.FixedStringType) && k == 5) || (typeis(n, *ast.CustomPointerType) && k == 6) ||
  (typeis(n, *ast.TypeEmbedded) && (let e = as(n, *ast.TypeEmbedded) :: (k == 1 && (e.Kind == 1 || e.Kind == 2)) || (k == 2 && e.Kind == 2) || (k == 3 && e.Kind == 1) || (k == 4 && e.Kind == 2) || (k == 5 && e.Kind == 3) || (k == 6 && e.Kind == 4) || (k == 7 && e.Kind == 5))) ||
  (typeis(n, *ast.TypeId) && (let t = as(n, *ast.TypeId) :: namedtype(t) && tyis(k, as(t.Ref.Node, *ast.TypeDecl).Type)))
theory base
iface func ast.SimpleType.IsSimpleType(n)(r) {
  theory kinds
  norec
  except ast.TypeId
  except ast.TypeEmbedded
  requires tyok(n)
  ensures [C19] r <==> tyis(1, n)
}
iface func ast.OrdinalType.IsOrdinalType(n)(r) {
  theory kinds
  norec
  except ast.TypeId
  except ast.TypeEmbedded
  requires tyok(n)
  ensures [C19] r <==> tyis(2, n)
}
iface func ast.RealType.IsRealType(n)(r) {
  theory kinds
  norec
  except ast.TypeId
  except ast.TypeEmbedded
  requires tyok(n)
  ensures [C19] r <==> tyis(3, n)
}
iface func ast.OrdIdent.IsOrdIdent(n)(r) {
  theory kinds
  norec
  except ast.TypeId
  except ast.TypeEmbedded
  requires tyok(n)
  ensures [C19] r <==> tyis(4, n)
}
iface func ast.StringType.IsStringType(n)(r) {
  theory kinds
  norec
  except ast.TypeId
  except ast.TypeEmbedded
  requires tyok(n)
  ensures [C19] r <==> tyis(5, n)
}
iface func ast.PointerType.IsPointerType(n)(r) {
  theory kinds
  norec
  except ast.TypeId
  except ast.TypeEmbedded
  requires tyok(n)
  ensures [C19] r <==> tyis(6, n)
}
iface func ast.VariantType.IsVariantType(n)(r) {
  theory kinds
  norec
  except ast.TypeId
  except ast.TypeEmbedded
  requires tyok(n)
  ensures [C19] r <==> tyis(7, n)
}
// ---------- the built-in types ----------
def embis(d, n, k) = d != nil && d.Ident != nil && d.Ident.Name == n && typeis(d.Node, *ast.TypeDecl) && (let t = as(d.Node, *ast.TypeDecl) :: t != nil && t.Ident == d.Ident && typeis(t.Type, *ast.TypeEmbedded) && (let e = as(t.Type, *ast.TypeEmbedded) :: e != nil && e.Kind == k && e.Ident == d.Ident))
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["REAL48"], "Real48", 1)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["REAL"], "Real", 1)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["SINGLE"], "Single", 1)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["DOUBLE"], "Double", 1)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["EXTENDED"], "Extended", 1)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["CURRENCY"], "Currency", 1)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["COMP"], "Comp", 1)
global [C19] once ast.embeddedTypeDeclMaps: ast.embeddedTypeDeclMaps[1]["REAL48"] == ast.embeddedTypeDeclMap["REAL48"] && ast.embeddedTypeDeclMaps[1]["REAL"] == ast.embeddedTypeDeclMap["REAL"] && ast.embeddedTypeDeclMaps[1]["SINGLE"] == ast.embeddedTypeDeclMap["SINGLE"] && ast.embeddedTypeDeclMaps[1]["DOUBLE"] == ast.embeddedTypeDeclMap["DOUBLE"] && ast.embeddedTypeDeclMaps[1]["EXTENDED"] == ast.embeddedTypeDeclMap["EXTENDED"] && ast.embeddedTypeDeclMaps[1]["CURRENCY"] == ast.embeddedTypeDeclMap["CURRENCY"] && ast.embeddedTypeDeclMaps[1]["COMP"] == ast.embeddedTypeDeclMap["COMP"]
global [C19] once ast.embeddedTypeDeclMaps: forall s string {has(ast.embeddedTypeDeclMaps[1], s)} :: has(ast.embeddedTypeDeclMaps[1], s) ==> s == "REAL48" || s == "REAL" || s == "SINGLE" || s == "DOUBLE" || s == "EXTENDED" || s == "CURRENCY" || s == "COMP"
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["INTEGER"], "Integer", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["CARDINAL"], "Cardinal", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["SHORTINT"], "ShortInt", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["SMALLINT"], "SmallInt", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["LONGINT"], "LongInt", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["INT64"], "Int64", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["BYTE"], "Byte", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["WORD"], "Word", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["LONGWORD"], "LongWord", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["CHAR"], "Char", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["ANSICHAR"], "AnsiChar", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["WIDECHAR"], "WideChar", 2)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["BOOLEAN"], "Boolean", 2)
global [C19] once ast.embeddedTypeDeclMaps: ast.embeddedTypeDeclMaps[2]["INTEGER"] == ast.embeddedTypeDeclMap["INTEGER"] && ast.embeddedTypeDeclMaps[2]["CARDINAL"] == ast.embeddedTypeDeclMap["CARDINAL"] && ast.embeddedTypeDeclMaps[2]["SHORTINT"] == ast.embeddedTypeDeclMap["SHORTINT"] && ast.embeddedTypeDeclMaps[2]["SMALLINT"] == ast.embeddedTypeDeclMap["SMALLINT"] && ast.embeddedTypeDeclMaps[2]["LONGINT"] == ast.embeddedTypeDeclMap["LONGINT"] && ast.embeddedTypeDeclMaps[2]["INT64"] == ast.embeddedTypeDeclMap["INT64"] && ast.embeddedTypeDeclMaps[2]["BYTE"] == ast.embeddedTypeDeclMap["BYTE"] && ast.embeddedTypeDeclMaps[2]["WORD"] == ast.embeddedTypeDeclMap["WORD"] && ast.embeddedTypeDeclMaps[2]["LONGWORD"] == ast.embeddedTypeDeclMap["LONGWORD"] && ast.embeddedTypeDeclMaps[2]["CHAR"] == ast.embeddedTypeDeclMap["CHAR"] && ast.embeddedTypeDeclMaps[2]["ANSICHAR"] == ast.embeddedTypeDeclMap["ANSICHAR"] && ast.embeddedTypeDeclMaps[2]["WIDECHAR"] == ast.embeddedTypeDeclMap["WIDECHAR"] && ast.embeddedTypeDeclMaps[2]["BOOLEAN"] == ast.embeddedTypeDeclMap["BOOLEAN"]
global [C19] once ast.embeddedTypeDeclMaps: forall s string {has(ast.embeddedTypeDeclMaps[2], s)} :: has(ast.embeddedTypeDeclMaps[2], s) ==> s == "INTEGER" || s == "CARDINAL" || s == "SHORTINT" || s == "SMALLINT" || s == "LONGINT" || s == "INT64" || s == "BYTE" || s == "WORD" || s == "LONGWORD" || s == "CHAR" || s == "ANSICHAR" || s == "WIDECHAR" || s == "BOOLEAN"
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["STRING"], "String", 3)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["ANSISTRING"], "AnsiString", 3)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["WIDESTRING"], "WideString", 3)
global [C19] once ast.embeddedTypeDeclMaps: ast.embeddedTypeDeclMaps[3]["STRING"] == ast.embeddedTypeDeclMap["STRING"] && ast.embeddedTypeDeclMaps[3]["ANSISTRING"] == ast.embeddedTypeDeclMap["ANSISTRING"] && ast.embeddedTypeDeclMaps[3]["WIDESTRING"] == ast.embeddedTypeDeclMap["WIDESTRING"]
global [C19] once ast.embeddedTypeDeclMaps: forall s string {has(ast.embeddedTypeDeclMaps[3], s)} :: has(ast.embeddedTypeDeclMaps[3], s) ==> s == "STRING" || s == "ANSISTRING" || s == "WIDESTRING"
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["POINTER"], "Pointer", 4)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["PCHAR"], "PChar", 4)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["PANSICHAR"], "PAnsiChar", 4)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["PWIDECHAR"], "PWideChar", 4)
global [C19] once ast.embeddedTypeDeclMaps: ast.embeddedTypeDeclMaps[4]["POINTER"] == ast.embeddedTypeDeclMap["POINTER"] && ast.embeddedTypeDeclMaps[4]["PCHAR"] == ast.embeddedTypeDeclMap["PCHAR"] && ast.embeddedTypeDeclMaps[4]["PANSICHAR"] == ast.embeddedTypeDeclMap["PANSICHAR"] && ast.embeddedTypeDeclMaps[4]["PWIDECHAR"] == ast.embeddedTypeDeclMap["PWIDECHAR"]
global [C19] once ast.embeddedTypeDeclMaps: forall s string {has(ast.embeddedTypeDeclMaps[4], s)} :: has(ast.embeddedTypeDeclMaps[4], s) ==> s == "POINTER" || s == "PCHAR" || s == "PANSICHAR" || s == "PWIDECHAR"
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["VARIANT"], "Variant", 5)
global [C19] once ast.embeddedTypeDeclMap: embis(ast.embeddedTypeDeclMap["OLEVARIANT"], "OleVariant", 5)
global [C19] once ast.embeddedTypeDeclMaps: ast.embeddedTypeDeclMaps[5]["VARIANT"] == ast.embeddedTypeDeclMap["VARIANT"] && ast.embeddedTypeDeclMaps[5]["OLEVARIANT"] == ast.embeddedTypeDeclMap["OLEVARIANT"]
global [C19] once ast.embeddedTypeDeclMaps: forall s string {has(ast.embeddedTypeDeclMaps[5], s)} :: has(ast.embeddedTypeDeclMaps[5], s) ==> s == "VARIANT" || s == "OLEVARIANT"
global [C19] once ast.embeddedTypeDeclMap: forall s string {has(ast.embeddedTypeDeclMap, s)} :: has(ast.embeddedTypeDeclMap, s) ==> s == "REAL48" || s == "REAL" || s == "SINGLE" || s == "DOUBLE" || s == "EXTENDED" || s == "CURRENCY" || s == "COMP" || s == "INTEGER" || s == "CARDINAL" || s == "SHORTINT" || s == "SMALLINT" || s == "LONGINT" || s == "INT64" || s == "BYTE" || s == "WORD" || s == "LONGWORD" || s == "CHAR" || s == "ANSICHAR" || s == "WIDECHAR" || s == "BOOLEAN" || s == "STRING" || s == "ANSISTRING" || s == "WIDESTRING" || s == "POINTER" || s == "PCHAR" || s == "PANSICHAR" || s == "PWIDECHAR" || s == "VARIANT" || s == "OLEVARIANT"
func ast.EmbeddedTypeDecl(kind, name)(r) {
  ensures [C19] r == ast.embeddedTypeDeclMaps[kind][upper(name)]
}
// unn(s,j): how many of the first j units are present
heap func unn(s ast.Units, j int) int reads "elems *ast.Unit"
theory units
axiom forall s ast.Units {unn(s,0)} :: unn(s,0) == 0
axiom forall s ast.Units, j int {unn(s,j)} :: j > 0 ==> unn(s,j) == unn(s,j-1) + (s[j-1] != nil ? 1 : 0)
theory base
func ast.Units.Compact(s)(r) {
  theory units
  ensures [C20] count: len(r) == old(unn(s,len(s)))
  ensures [C20] present: forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] != nil
  ensures [C20] kept: forall j int {s[j]} :: 0 <= j < len(s) && s[j] != nil ==> 0 <= old(unn(s,j)) < len(r) && r[old(unn(s,j))] == s[j]
  foreach l ast.Units :: forall i int {l[i]} :: 0 <= i < len(l) ==> l[i] != nil
  foreach l ast.Units, k int :: len(l) == old(unn(s,k+1))
  foreach l ast.Units, k int :: forall j int {s[j]} :: 0 <= j <= k && s[j] != nil ==> 0 <= old(unn(s,j)) < len(l) && l[old(unn(s,j))] == s[j]
  foreach l ast.Units, k int :: len(l) == old(unn(s,k))
  foreach l ast.Units, k int :: forall j int {s[j]} :: 0 <= j < k && s[j] != nil ==> 0 <= old(unn(s,j)) < len(l) && l[old(unn(s,j))] == s[j]
}
