// ---------- declarations ----------
// declok(n): the declaration node n names only identifiers with a place; ndecl/declid: the identifiers it declares, in order
def idok(i) = i != nil && i.Location != nil
def mhok(h) = (typeis(h, *ast.FunctionHeading) && as(h, *ast.FunctionHeading) != nil) || (typeis(h, *ast.ConstructorHeading) && as(h, *ast.ConstructorHeading) != nil) || (typeis(h, *ast.DestructorHeading) && as(h, *ast.DestructorHeading) != nil)
heap func declok(n iface) bool reads "field ast.VarDecl.IdentList", "field ast.ThreadVarDecl.IdentList", "field ast.FieldDecl.IdentList", "field ast.ClassField.IdentList",
  "field ast.FormalParm.Parameter", "field ast.Parameter.IdentList", "field ast.LabelDeclSection.LabelId", "field ast.ConstantDecl.Ident", "field ast.FunctionDecl.FunctionHeading",
  "field ast.ExportedHeading.FunctionHeading", "field ast.FunctionHeading.Ident", "field ast.Program.Ident", "field ast.ExceptionBlockHandlerDecl.Ident", "field ast.TypeDecl.Ident",
  "field ast.ClassProperty.Ident", "field ast.EnumeratedTypeElement.Ident", "field ast.Unit.Ident", "field ast.UsesClauseItem.Ident", "field ast.ClassMethod.Heading",
  "field ast.ConstructorHeading.Ident", "field ast.DestructorHeading.Ident", "elems *astcore.Ident", "field astcore.Ident.Location"
heap func ndecl(n iface) int reads "field ast.VarDecl.IdentList", "field ast.ThreadVarDecl.IdentList", "field ast.FieldDecl.IdentList", "field ast.ClassField.IdentList",
  "field ast.FormalParm.Parameter", "field ast.Parameter.IdentList"
heap func declid(n iface, i int) *astcore.Ident reads "field ast.VarDecl.IdentList", "field ast.ThreadVarDecl.IdentList", "field ast.FieldDecl.IdentList", "field ast.ClassField.IdentList",
  "field ast.FormalParm.Parameter", "field ast.Parameter.IdentList", "field ast.LabelDeclSection.LabelId", "field ast.ConstantDecl.Ident", "field ast.FunctionDecl.FunctionHeading",
  "field ast.ExportedHeading.FunctionHeading", "field ast.FunctionHeading.Ident", "field ast.Program.Ident", "field ast.ExceptionBlockHandlerDecl.Ident", "field ast.TypeDecl.Ident",
  "field ast.ClassProperty.Ident", "field ast.EnumeratedTypeElement.Ident", "field ast.Unit.Ident", "field ast.UsesClauseItem.Ident", "field ast.ClassMethod.Heading",
  "field ast.ConstructorHeading.Ident", "field ast.DestructorHeading.Ident", "elems *astcore.Ident"
theory decls
axiom forall n iface {declok(n)} :: declok(n) ==> typeis(n, *ast.VarDecl) || typeis(n, *ast.ThreadVarDecl) || typeis(n, *ast.FieldDecl) || typeis(n, *ast.ClassField) || typeis(n, *ast.FormalParm) || typeis(n, *ast.LabelDeclSection) || typeis(n, *ast.ConstantDecl) || typeis(n, *ast.Program) || typeis(n, *ast.ExceptionBlockHandlerDecl) || typeis(n, *ast.TypeDecl) || typeis(n, *ast.ClassProperty) || typeis(n, *ast.EnumeratedTypeElement) || typeis(n, *ast.Unit) || typeis(n, *ast.UsesClauseItem) || typeis(n, *ast.FunctionDecl) || typeis(n, *ast.ExportedHeading) || typeis(n, *ast.ClassMethod)
axiom forall n iface {declok(n)} :: typeis(n, *ast.VarDecl) ==> (declok(n) <==> (let m = as(n, *ast.VarDecl) :: m != nil && (forall i int {m.IdentList[i]} :: 0 <= i < len(m.IdentList) ==> idok(m.IdentList[i]))))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.VarDecl) ==> ndecl(n) == (let m = as(n, *ast.VarDecl) :: len(m.IdentList))
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.VarDecl) ==> declid(n,i) == (let m = as(n, *ast.VarDecl) :: m.IdentList[i])
axiom forall n iface {declok(n)} :: typeis(n, *ast.ThreadVarDecl) ==> (declok(n) <==> (let m = as(n, *ast.ThreadVarDecl) :: m != nil && (forall i int {m.IdentList[i]} :: 0 <= i < len(m.IdentList) ==> idok(m.IdentList[i]))))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.ThreadVarDecl) ==> ndecl(n) == (let m = as(n, *ast.ThreadVarDecl) :: len(m.IdentList))
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.ThreadVarDecl) ==> declid(n,i) == (let m = as(n, *ast.ThreadVarDecl) :: m.IdentList[i])
axiom forall n iface {declok(n)} :: typeis(n, *ast.FieldDecl) ==> (declok(n) <==> (let m = as(n, *ast.FieldDecl) :: m != nil && (forall i int {m.IdentList[i]} :: 0 <= i < len(m.IdentList) ==> idok(m.IdentList[i]))))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.FieldDecl) ==> ndecl(n) == (let m = as(n, *ast.FieldDecl) :: len(m.IdentList))
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.FieldDecl) ==> declid(n,i) == (let m = as(n, *ast.FieldDecl) :: m.IdentList[i])
axiom forall n iface {declok(n)} :: typeis(n, *ast.ClassField) ==> (declok(n) <==> (let m = as(n, *ast.ClassField) :: m != nil && (forall i int {m.IdentList[i]} :: 0 <= i < len(m.IdentList) ==> idok(m.IdentList[i]))))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.ClassField) ==> ndecl(n) == (let m = as(n, *ast.ClassField) :: len(m.IdentList))
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.ClassField) ==> declid(n,i) == (let m = as(n, *ast.ClassField) :: m.IdentList[i])
axiom forall n iface {declok(n)} :: typeis(n, *ast.FormalParm) ==> (declok(n) <==> (let m = as(n, *ast.FormalParm) :: m != nil && m.Parameter != nil && (forall i int {m.Parameter.IdentList[i]} :: 0 <= i < len(m.Parameter.IdentList) ==> idok(m.Parameter.IdentList[i]))))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.FormalParm) ==> ndecl(n) == (let m = as(n, *ast.FormalParm) :: len(m.Parameter.IdentList))
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.FormalParm) ==> declid(n,i) == (let m = as(n, *ast.FormalParm) :: m.Parameter.IdentList[i])
axiom forall n iface {declok(n)} :: typeis(n, *ast.LabelDeclSection) ==> (declok(n) <==> (let m = as(n, *ast.LabelDeclSection) :: m != nil && idok(m.LabelId)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.LabelDeclSection) ==> ndecl(n) == (let m = as(n, *ast.LabelDeclSection) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.LabelDeclSection) ==> declid(n,i) == (let m = as(n, *ast.LabelDeclSection) :: m.LabelId)
axiom forall n iface {declok(n)} :: typeis(n, *ast.ConstantDecl) ==> (declok(n) <==> (let m = as(n, *ast.ConstantDecl) :: m != nil && idok(m.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.ConstantDecl) ==> ndecl(n) == (let m = as(n, *ast.ConstantDecl) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.ConstantDecl) ==> declid(n,i) == (let m = as(n, *ast.ConstantDecl) :: m.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.Program) ==> (declok(n) <==> (let m = as(n, *ast.Program) :: m != nil && idok(m.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.Program) ==> ndecl(n) == (let m = as(n, *ast.Program) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.Program) ==> declid(n,i) == (let m = as(n, *ast.Program) :: m.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.ExceptionBlockHandlerDecl) ==> (declok(n) <==> (let m = as(n, *ast.ExceptionBlockHandlerDecl) :: m != nil && idok(m.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.ExceptionBlockHandlerDecl) ==> ndecl(n) == (let m = as(n, *ast.ExceptionBlockHandlerDecl) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.ExceptionBlockHandlerDecl) ==> declid(n,i) == (let m = as(n, *ast.ExceptionBlockHandlerDecl) :: m.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.TypeDecl) ==> (declok(n) <==> (let m = as(n, *ast.TypeDecl) :: m != nil && idok(m.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.TypeDecl) ==> ndecl(n) == (let m = as(n, *ast.TypeDecl) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.TypeDecl) ==> declid(n,i) == (let m = as(n, *ast.TypeDecl) :: m.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.ClassProperty) ==> (declok(n) <==> (let m = as(n, *ast.ClassProperty) :: m != nil && idok(m.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.ClassProperty) ==> ndecl(n) == (let m = as(n, *ast.ClassProperty) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.ClassProperty) ==> declid(n,i) == (let m = as(n, *ast.ClassProperty) :: m.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.EnumeratedTypeElement) ==> (declok(n) <==> (let m = as(n, *ast.EnumeratedTypeElement) :: m != nil && idok(m.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.EnumeratedTypeElement) ==> ndecl(n) == (let m = as(n, *ast.EnumeratedTypeElement) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.EnumeratedTypeElement) ==> declid(n,i) == (let m = as(n, *ast.EnumeratedTypeElement) :: m.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.Unit) ==> (declok(n) <==> (let m = as(n, *ast.Unit) :: m != nil && idok(m.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.Unit) ==> ndecl(n) == (let m = as(n, *ast.Unit) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.Unit) ==> declid(n,i) == (let m = as(n, *ast.Unit) :: m.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.UsesClauseItem) ==> (declok(n) <==> (let m = as(n, *ast.UsesClauseItem) :: m != nil && idok(m.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.UsesClauseItem) ==> ndecl(n) == (let m = as(n, *ast.UsesClauseItem) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.UsesClauseItem) ==> declid(n,i) == (let m = as(n, *ast.UsesClauseItem) :: m.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.FunctionDecl) ==> (declok(n) <==> (let m = as(n, *ast.FunctionDecl) :: m != nil && m.FunctionHeading != nil && idok(m.FunctionHeading.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.FunctionDecl) ==> ndecl(n) == (let m = as(n, *ast.FunctionDecl) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.FunctionDecl) ==> declid(n,i) == (let m = as(n, *ast.FunctionDecl) :: m.FunctionHeading.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.ExportedHeading) ==> (declok(n) <==> (let m = as(n, *ast.ExportedHeading) :: m != nil && m.FunctionHeading != nil && idok(m.FunctionHeading.Ident)))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.ExportedHeading) ==> ndecl(n) == (let m = as(n, *ast.ExportedHeading) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.ExportedHeading) ==> declid(n,i) == (let m = as(n, *ast.ExportedHeading) :: m.FunctionHeading.Ident)
axiom forall n iface {declok(n)} :: typeis(n, *ast.ClassMethod) ==> (declok(n) <==> (let m = as(n, *ast.ClassMethod) :: m != nil && mhok(m.Heading) && idok((typeis(m.Heading, *ast.FunctionHeading) ? as(m.Heading, *ast.FunctionHeading).Ident : (typeis(m.Heading, *ast.ConstructorHeading) ? as(m.Heading, *ast.ConstructorHeading).Ident : as(m.Heading, *ast.DestructorHeading).Ident)))))
axiom forall n iface {ndecl(n)} :: typeis(n, *ast.ClassMethod) ==> ndecl(n) == (let m = as(n, *ast.ClassMethod) :: 1)
axiom forall n iface, i int {declid(n,i)} :: typeis(n, *ast.ClassMethod) ==> declid(n,i) == (let m = as(n, *ast.ClassMethod) :: (typeis(m.Heading, *ast.FunctionHeading) ? as(m.Heading, *ast.FunctionHeading).Ident : (typeis(m.Heading, *ast.ConstructorHeading) ? as(m.Heading, *ast.ConstructorHeading).Ident : as(m.Heading, *ast.DestructorHeading).Ident)))
theory base
iface func astcore.DeclNode.ToDeclarations(n)(r) {
  except parser.Program
  except *parser.Program
  theory decls
  requires declok(n)
  ensures [C13] count: len(r) == ndecl(n)
  ensures [C13] declares: forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] != nil && fresh(r[i]) && r[i].Ident == declid(n,i) && r[i].Node == n
  ensures forall i int {r[i]} :: 0 <= i < len(r) ==> idok(r[i].Ident)
  ensures forall i int {declid(n,i)} :: 0 <= i < len(r) ==> r[i].Ident == declid(n,i)
  foreach s astcore.Decls, k int :: len(s) == ndecl(n) && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] != nil && fresh(s[j]) && s[j].Ident == declid(n,j) && s[j].Node == n)
  foreach s astcore.Decls, k int :: len(s) == ndecl(n) && (forall j int {s[j]} :: 0 <= j < k ==> s[j] != nil && fresh(s[j]) && s[j].Ident == declid(n,j) && s[j].Node == n)
  foreach s astcore.Decls, k int :: len(s) == k + 1 && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] != nil && fresh(s[j]) && s[j].Ident == declid(n,j) && s[j].Node == n)
}
func astcore.NewDeclaration(id, node)(r) {
  ensures [C13] fresh(r) && r.Ident == id && r.Node == node
}
func astcore.NewDeclarations(ids, node)(r) {
  ensures [C13] len(r) == len(ids) && (forall i int {r[i]} :: 0 <= i < len(r) ==> fresh(r[i]) && r[i].Ident == ids[i] && r[i].Node == node)
  foreach s astcore.Decls, k int :: len(s) == len(ids) && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] != nil && fresh(s[j]) && s[j].Ident == ids[j] && s[j].Node == node)
  foreach s astcore.Decls, k int :: len(s) == len(ids) && (forall j int {s[j]} :: 0 <= j < k ==> s[j] != nil && fresh(s[j]) && s[j].Ident == ids[j] && s[j].Node == node)
  foreach s astcore.Decls, k int :: len(s) == k + 1 && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] != nil && fresh(s[j]) && s[j].Ident == ids[j] && s[j].Node == node)
}
func ast.(*FunctionHeading).GetIdent(m)(r) { requires m != nil
  ensures [C13] r == m.Ident }
func ast.(*ConstructorHeading).GetIdent(m)(r) { requires m != nil
  ensures [C13] r == m.Ident }
func ast.(*DestructorHeading).GetIdent(m)(r) { requires m != nil
  ensures [C13] r == m.Ident }

func ast.(*ClassField).ToDeclarations(m)(r) {
  requires m != nil && (forall i int {m.IdentList[i]} :: 0 <= i < len(m.IdentList) ==> idok(m.IdentList[i]))
  ensures [C13] len(r) == len(m.IdentList) && (forall i int {r[i]} {m.IdentList[i]} :: 0 <= i < len(r) ==> r[i] != nil && fresh(r[i]) && r[i].Ident == m.IdentList[i] && r[i].Node == iface(m))
  foreach s astcore.Decls, k int :: len(s) == len(m.IdentList) && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] != nil && fresh(s[j]) && s[j].Ident == m.IdentList[j] && s[j].Node == iface(m))
  foreach s astcore.Decls, k int :: len(s) == k + 1 && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] != nil && fresh(s[j]) && s[j].Ident == m.IdentList[j] && s[j].Node == iface(m))
}
