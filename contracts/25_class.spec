// ---------- members of classes ----------
// parent class: the first heritage entry, when it names a class
def parentof(c) = (len(c.Heritage) > 0 && c.Heritage[0].Ref != nil && typeis(c.Heritage[0].Ref.Node, *ast.TypeDecl) && typeis(as(c.Heritage[0].Ref.Node, *ast.TypeDecl).Type, *ast.CustomClassType)) ? as(as(c.Heritage[0].Ref.Node, *ast.TypeDecl).Type, *ast.CustomClassType) : nil
def mhid(h) = (typeis(h, *ast.FunctionHeading) ? as(h, *ast.FunctionHeading).Ident : (typeis(h, *ast.ConstructorHeading) ? as(h, *ast.ConstructorHeading).Ident : as(h, *ast.DestructorHeading).Ident))
def idin(l, kw) = exists j int {l[j]} :: 0 <= j < len(l) && lower(l[j].Name) == kw
// fnode, menode, pnode: the member of section s named kw, at or after place i of the fields, methods, properties
heap func fnode(s *ast.ClassMemberSection, kw str, i int) iface reads "field ast.ClassMemberSection.ClassFieldList", "field ast.ClassMemberSection.ClassMethodList", "field ast.ClassMemberSection.ClassPropertyList", "elems *ast.ClassField", "elems *ast.ClassMethod", "elems *ast.ClassProperty", "field ast.ClassField.IdentList", "elems *astcore.Ident", "field astcore.Ident.Name", "field ast.ClassMethod.Heading", "field ast.FunctionHeading.Ident", "field ast.ConstructorHeading.Ident", "field ast.DestructorHeading.Ident", "field ast.ClassProperty.Ident"
heap func menode(s *ast.ClassMemberSection, kw str, i int) iface reads "field ast.ClassMemberSection.ClassFieldList", "field ast.ClassMemberSection.ClassMethodList", "field ast.ClassMemberSection.ClassPropertyList", "elems *ast.ClassField", "elems *ast.ClassMethod", "elems *ast.ClassProperty", "field ast.ClassField.IdentList", "elems *astcore.Ident", "field astcore.Ident.Name", "field ast.ClassMethod.Heading", "field ast.FunctionHeading.Ident", "field ast.ConstructorHeading.Ident", "field ast.DestructorHeading.Ident", "field ast.ClassProperty.Ident"
heap func pnode(s *ast.ClassMemberSection, kw str, i int) *ast.ClassProperty reads "field ast.ClassMemberSection.ClassPropertyList", "elems *ast.ClassProperty", "field astcore.Ident.Name", "field ast.ClassProperty.Ident"
// mnode: the member named kw of class c, from section i on, then of its ancestors, private sections of c only on demand
heap func mnode(c *ast.CustomClassType, kw str, priv bool, i int) iface reads "field ast.CustomClassType.Heritage", "field ast.CustomClassType.Members", "elems *ast.TypeId", "field ast.TypeId.Ref", "field astcore.Decl.Node", "field ast.TypeDecl.Type", "elems *ast.ClassMemberSection", "field ast.ClassMemberSection.Visibility", "field ast.ClassMemberSection.ClassFieldList", "field ast.ClassMemberSection.ClassMethodList", "field ast.ClassMemberSection.ClassPropertyList", "elems *ast.ClassField", "elems *ast.ClassMethod", "elems *ast.ClassProperty", "field ast.ClassField.IdentList", "elems *astcore.Ident", "field astcore.Ident.Name", "field ast.ClassMethod.Heading", "field ast.FunctionHeading.Ident", "field ast.ConstructorHeading.Ident", "field ast.DestructorHeading.Ident", "field ast.ClassProperty.Ident"
heap func mprop(c *ast.CustomClassType, kw str, anc bool, i int) *ast.ClassProperty reads "field ast.CustomClassType.Heritage", "field ast.CustomClassType.Members", "elems *ast.TypeId", "field ast.TypeId.Ref", "field astcore.Decl.Node", "field ast.TypeDecl.Type", "elems *ast.ClassMemberSection", "field ast.ClassMemberSection.ClassPropertyList", "elems *ast.ClassProperty", "field astcore.Ident.Name", "field ast.ClassProperty.Ident"
// cinv(): what classes are made of is there: every entry of every list, every name, and what a type name stands for
def headed(h) = h != nil ==> allocated(h) && mhok(h) && idok(mhid(h)) && allocated(mhid(h))
def lalloc(l) = len(l) > 0 ==> allocated(l)
def cinv() = (forall t *ast.TypeId {t.Ref} :: t.Ref != nil ==> allocated(t.Ref) && (typeis(t.Ref.Node, *ast.TypeDecl) ==> as(t.Ref.Node, *ast.TypeDecl) != nil))
  && (forall c *ast.CustomClassType {c.Heritage} :: lalloc(c.Heritage))
  && (forall c *ast.CustomClassType {c.Members} :: lalloc(c.Members))
  && (forall s *ast.ClassMemberSection {s.ClassFieldList} :: lalloc(s.ClassFieldList))
  && (forall s *ast.ClassMemberSection {s.ClassMethodList} :: lalloc(s.ClassMethodList))
  && (forall s *ast.ClassMemberSection {s.ClassPropertyList} :: lalloc(s.ClassPropertyList))
  && (forall c *ast.CustomClassType, i int {c.Heritage[i]} :: 0 <= i < len(c.Heritage) ==> c.Heritage[i] != nil)
  && (forall c *ast.CustomClassType, i int {c.Members[i]} :: 0 <= i < len(c.Members) ==> c.Members[i] != nil)
  && (forall s *ast.ClassMemberSection, i int {s.ClassFieldList[i]} :: 0 <= i < len(s.ClassFieldList) ==> s.ClassFieldList[i] != nil)
  && (forall s *ast.ClassMemberSection, i int {s.ClassMethodList[i]} :: 0 <= i < len(s.ClassMethodList) ==> (let m = s.ClassMethodList[i] :: m != nil && allocated(m) && m.Heading != nil))
  && (forall s *ast.ClassMemberSection, i int {s.ClassPropertyList[i]} :: 0 <= i < len(s.ClassPropertyList) ==> (let q = s.ClassPropertyList[i] :: q != nil && allocated(q) && q.Ident != nil))
  && (forall f *ast.ClassField {f.IdentList} :: lalloc(f.IdentList))
  && (forall f *ast.ClassField, i int {f.IdentList[i]} :: 0 <= i < len(f.IdentList) ==> idok(f.IdentList[i]) && allocated(f.IdentList[i]))
  && (forall m *ast.ClassMethod {m.Heading} :: headed(m.Heading))
  && (forall q *ast.ClassProperty {q.Ident} :: q.Ident != nil ==> idok(q.Ident) && allocated(q.Ident))
def classok(c) = c != nil && cinv() && tinv()
theory members
axiom forall s *ast.ClassMemberSection, kw str, i int {fnode(s,kw,i)} :: 0 <= i ==> fnode(s,kw,i) ==
  (i >= len(s.ClassFieldList) ? menode(s,kw,0) : (idin(s.ClassFieldList[i].IdentList, kw) ? iface(s.ClassFieldList[i]) : fnode(s,kw,i+1)))
axiom forall s *ast.ClassMemberSection, kw str, i int {menode(s,kw,i)} :: 0 <= i ==> menode(s,kw,i) ==
  (i >= len(s.ClassMethodList) ? (pnode(s,kw,0) == nil ? nil : iface(pnode(s,kw,0))) : (lower(mhid(s.ClassMethodList[i].Heading).Name) == kw ? iface(s.ClassMethodList[i]) : menode(s,kw,i+1)))
axiom forall s *ast.ClassMemberSection, kw str, i int {pnode(s,kw,i)} :: 0 <= i ==> pnode(s,kw,i) ==
  (i >= len(s.ClassPropertyList) ? nil : (lower(s.ClassPropertyList[i].Ident.Name) == kw ? s.ClassPropertyList[i] : pnode(s,kw,i+1)))
axiom forall c *ast.CustomClassType, kw str, priv bool, i int {mnode(c,kw,priv,i)} :: 0 <= i ==> mnode(c,kw,priv,i) ==
  (i >= len(c.Members) ? (parentof(c) == nil ? nil : mnode(parentof(c), kw, false, 0)) :
   (let s = c.Members[i] :: ((!priv && s.Visibility == "PRIVATE") || fnode(s,kw,0) == nil) ? mnode(c,kw,priv,i+1) : fnode(s,kw,0)))
axiom forall c *ast.CustomClassType, kw str, anc bool, i int {mprop(c,kw,anc,i)} :: 0 <= i ==> mprop(c,kw,anc,i) ==
  (i >= len(c.Members) ? (!anc || parentof(c) == nil ? nil : mprop(parentof(c), kw, true, 0)) :
   (pnode(c.Members[i],kw,0) == nil ? mprop(c,kw,anc,i+1) : pnode(c.Members[i],kw,0)))
theory base
func ast.(*CustomClassType).GetParentClass(m)(r) {
  theory members
  requires classok(m)
  ensures [C18] r == parentof(m)
}
// d.$member: the class whose members were searched for d, private ones included
ghost field astcore.Decl.$member ref
func ast.(*CustomClassType).FindMemberDecl(m, name, includePrivate)(r) {
  theory members
  theory decls
  norec
  requires classok(m)
  ghost if r != nil: r.$member := includePrivate ? ref(m) : nil
  ensures r != nil ==> fresh(r) && r.$member == (includePrivate ? ref(m) : nil)
  ensures [C18] none: r == nil <==> old(mnode(m, lower(name), includePrivate, 0)) == nil
  ensures [C18] member: r != nil ==> r.Node == old(mnode(m, lower(name), includePrivate, 0))
  ensures [C18] named: r != nil ==> r.Ident != nil && lower(r.Ident.Name) == lower(name)
  loopinv classok(m)
  loopinv mnode(m, lower(name), includePrivate, 0) == old(mnode(m, lower(name), includePrivate, 0))
  foreach k int :: mnode(m, lower(name), includePrivate, 0) == mnode(m, lower(name), includePrivate, k + 1)
  foreach s *ast.ClassMemberSection, k int :: fnode(s, lower(name), 0) == fnode(s, lower(name), k + 1)
  foreach s *ast.ClassMemberSection, k int :: menode(s, lower(name), 0) == menode(s, lower(name), k + 1)
  foreach s *ast.ClassMemberSection, k int :: pnode(s, lower(name), 0) == pnode(s, lower(name), k + 1)
}
// the last look-up of a property: in which class, of which name, with its ancestors, and what it gave
ghost var $fpin ref
ghost var $fpname str
ghost var $fpanc bool
ghost var $fprop ref
func ast.(*CustomClassType).FindProperty(m, name, acendant)(r) {
  theory members
  modifies $fpin, $fpname, $fpanc, $fprop
  ghost $fpin := ref(m)
  ghost $fpname := lower(name)
  ghost $fpanc := acendant
  ghost $fprop := ref(r)
  ensures $fpin == ref(m) && $fpname == lower(name) && $fpanc == acendant && $fprop == ref(r)
  norec
  requires classok(m)
  ensures [C18] r == mprop(m, lower(name), acendant, 0)
  ensures r != nil ==> idok(r.Ident) && lower(r.Ident.Name) == lower(name)
  foreach k int :: mprop(m, lower(name), acendant, 0) == mprop(m, lower(name), acendant, k + 1)
  foreach s *ast.ClassMemberSection, k int :: pnode(s, lower(name), 0) == pnode(s, lower(name), k + 1)
}
// eff<X>(p): the X part of property p, its own or else that of the property it overrides
heap func effInterface(p *ast.ClassProperty) ref reads "field ast.ClassProperty.Interface", "field ast.ClassProperty.Index", "field ast.ClassProperty.Read", "field ast.ClassProperty.Write", "field ast.ClassProperty.Stored", "field ast.ClassProperty.Default", "field ast.ClassProperty.Implements", "field ast.ClassProperty.Parent", "field ast.ClassProperty.Ident"
heap func effIndex(p *ast.ClassProperty) ref reads "field ast.ClassProperty.Interface", "field ast.ClassProperty.Index", "field ast.ClassProperty.Read", "field ast.ClassProperty.Write", "field ast.ClassProperty.Stored", "field ast.ClassProperty.Default", "field ast.ClassProperty.Implements", "field ast.ClassProperty.Parent", "field ast.ClassProperty.Ident"
heap func effRead(p *ast.ClassProperty) ref reads "field ast.ClassProperty.Interface", "field ast.ClassProperty.Index", "field ast.ClassProperty.Read", "field ast.ClassProperty.Write", "field ast.ClassProperty.Stored", "field ast.ClassProperty.Default", "field ast.ClassProperty.Implements", "field ast.ClassProperty.Parent", "field ast.ClassProperty.Ident"
heap func effWrite(p *ast.ClassProperty) ref reads "field ast.ClassProperty.Interface", "field ast.ClassProperty.Index", "field ast.ClassProperty.Read", "field ast.ClassProperty.Write", "field ast.ClassProperty.Stored", "field ast.ClassProperty.Default", "field ast.ClassProperty.Implements", "field ast.ClassProperty.Parent", "field ast.ClassProperty.Ident"
heap func effStored(p *ast.ClassProperty) ref reads "field ast.ClassProperty.Interface", "field ast.ClassProperty.Index", "field ast.ClassProperty.Read", "field ast.ClassProperty.Write", "field ast.ClassProperty.Stored", "field ast.ClassProperty.Default", "field ast.ClassProperty.Implements", "field ast.ClassProperty.Parent", "field ast.ClassProperty.Ident"
heap func effDefault(p *ast.ClassProperty) ref reads "field ast.ClassProperty.Interface", "field ast.ClassProperty.Index", "field ast.ClassProperty.Read", "field ast.ClassProperty.Write", "field ast.ClassProperty.Stored", "field ast.ClassProperty.Default", "field ast.ClassProperty.Implements", "field ast.ClassProperty.Parent", "field ast.ClassProperty.Ident"
heap func effImplements(p *ast.ClassProperty) ref reads "field ast.ClassProperty.Interface", "field ast.ClassProperty.Index", "field ast.ClassProperty.Read", "field ast.ClassProperty.Write", "field ast.ClassProperty.Stored", "field ast.ClassProperty.Default", "field ast.ClassProperty.Implements", "field ast.ClassProperty.Parent", "field ast.ClassProperty.Ident"
heap func effroot(p *ast.ClassProperty) *ast.ClassProperty reads "field ast.ClassProperty.Parent"
theory props
axiom forall p *ast.ClassProperty {effInterface(p)} :: effInterface(p) == (p.Parent == nil || p.Interface != nil ? ref(p.Interface) : effInterface(p.Parent))
axiom forall p *ast.ClassProperty {effIndex(p)} :: effIndex(p) == (p.Parent == nil || p.Index != nil ? ref(p.Index) : effIndex(p.Parent))
axiom forall p *ast.ClassProperty {effRead(p)} :: effRead(p) == (p.Parent == nil || p.Read != nil ? ref(p.Read) : effRead(p.Parent))
axiom forall p *ast.ClassProperty {effWrite(p)} :: effWrite(p) == (p.Parent == nil || p.Write != nil ? ref(p.Write) : effWrite(p.Parent))
axiom forall p *ast.ClassProperty {effStored(p)} :: effStored(p) == (p.Parent == nil || p.Stored != nil ? ref(p.Stored) : effStored(p.Parent))
axiom forall p *ast.ClassProperty {effDefault(p)} :: effDefault(p) == (p.Parent == nil || p.Default != nil ? ref(p.Default) : effDefault(p.Parent))
axiom forall p *ast.ClassProperty {effImplements(p)} :: effImplements(p) == (p.Parent == nil || p.Implements != nil ? ref(p.Implements) : effImplements(p.Parent))
axiom forall p *ast.ClassProperty {effroot(p)} :: effroot(p) == (p.Parent == nil ? p : effroot(p.Parent))
theory base
func ast.(*ClassProperty).ComputedProperty(m)(r) {
  theory props
  norec
  requires m != nil
  ensures fresh(r)
  ensures [C18] interface: ref(r.Interface) == old(effInterface(m))
  ensures [C18] index: ref(r.Index) == old(effIndex(m))
  ensures [C18] read: ref(r.Read) == old(effRead(m))
  ensures [C18] write: ref(r.Write) == old(effWrite(m))
  ensures [C18] stored: ref(r.Stored) == old(effStored(m))
  ensures [C18] default: ref(r.Default) == old(effDefault(m))
  ensures [C18] implements: ref(r.Implements) == old(effImplements(m))
  ensures [C18] name: r.Ident == old(effroot(m).Ident)
}
// m.$cmp: the property m was last compared with, and which parts that one has
ghost field ast.ClassProperty.$cmp ref
ghost field ast.ClassProperty.$pintf bool
ghost field ast.ClassProperty.$pindex bool
ghost field ast.ClassProperty.$pread bool
ghost field ast.ClassProperty.$pwrite bool
func ast.(*ClassProperty).InheritsFrom(m, parent)(r) {
  theory props
  requires m != nil
  modifies m.$cmp, m.$pintf, m.$pindex, m.$pread, m.$pwrite
  ghost m.$cmp := ref(parent)
  ghost m.$pintf := old(effInterface(parent)) != nil
  ghost m.$pindex := old(effIndex(parent)) != nil
  ghost m.$pread := old(effRead(parent)) != nil
  ghost m.$pwrite := old(effWrite(parent)) != nil
  ensures m.$cmp == ref(parent)
  ensures r <==> parent != nil && ((m.$pintf && m.Interface == nil) || (m.$pindex && m.Index == nil) || (m.$pread && m.Read == nil) || (m.$pwrite && m.Write == nil))
  ensures m.$pintf == (old(effInterface(parent)) != nil) && m.$pindex == (old(effIndex(parent)) != nil) && m.$pread == (old(effRead(parent)) != nil) && m.$pwrite == (old(effWrite(parent)) != nil)
  ensures [C18] r <==> parent != nil && ((old(effInterface(parent)) != nil && m.Interface == nil) || (old(effIndex(parent)) != nil && m.Index == nil) || (old(effRead(parent)) != nil && m.Read == nil) || (old(effWrite(parent)) != nil && m.Write == nil))
}
