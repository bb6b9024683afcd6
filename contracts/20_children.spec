// Children of the syntax tree: every part of a node, in order, absent optional parts left out.
children [C16] astcore.(*Ident): 
children [C16] astcore.IdentList: each
children [C16] ast.(*Block): DeclSections?, ExportsStmts1?, Body, ExportsStmts2?
children [C16] ast.ExportsStmts: each
children [C16] ast.(*ExportsStmt): each ExportsItems
children [C16] ast.(*ExportsItem): Ident, Name?, Index?
children [C16] ast.DeclSections: each
children [C16] ast.(*LabelDeclSection): LabelId
children [C16] ast.ConstSection: each
children [C16] ast.(*ConstantDecl): Ident, Type?, ConstExpr
children [C16] ast.(*Expression): SimpleExpression, RelOpSimpleExpressions?
children [C16] ast.ExprList: each
children [C16] ast.(*RelOpSimpleExpression): SimpleExpression
children [C16] ast.RelOpSimpleExpressions: each
children [C16] ast.(*SimpleExpression): Term, AddOpTerms?
children [C16] ast.(*AddOpTerm): Term
children [C16] ast.(*Term): Factor, MulOpFactors?
children [C16] ast.(*MulOpFactor): Factor
children [C16] ast.(*DesignatorFactor): Designator, ExprList?
children [C16] ast.(*Address): Designator
children [C16] ast.(*Designator): QualId, Items?
children [C16] ast.DesignatorItems: each
children [C16] ast.(*DesignatorItemIdent): Ident
children [C16] ast.DesignatorItemExprList: each
children [C16] ast.(*DesignatorItemDereference): 
children [C16] ast.(*NumberFactor): 
children [C16] ast.(*StringFactor): 
children [C16] ast.(*ValueFactor): 
children [C16] ast.(*Nil): 
children [C16] ast.(*Parentheses): Expression
children [C16] ast.(*Not): Factor
children [C16] ast.(*SetConstructor): each SetElements
children [C16] ast.(*SetElement): Expression, SubRangeEnd?
children [C16] ast.(*FunctionDecl): FunctionHeading, Block
children [C16] ast.(*ExportedHeading): FunctionHeading
children [C16] ast.(*FunctionHeading): Ident, FormalParameters?, ReturnType?
children [C16] ast.FormalParameters: each
children [C16] ast.(*FormalParm): Parameter
children [C16] ast.(*ParameterType): Type
children [C16] ast.(*Parameter): IdentList, Type?, ConstExpr?
children [C16] ast.(*Program): Ident?, ProgramBlock
children [C16] ast.(*ProgramBlock): UsesClause?, Block
children [C16] ast.(*CompoundStmt): StmtList
children [C16] ast.(*Statement): LabelId?, Body
children [C16] ast.(*CallStatement): Designator, ExprList?
children [C16] ast.(*AssignStatement): Designator, Expression
children [C16] ast.(*InheritedStatement): 
children [C16] ast.(*GotoStatement): LabelId
children [C16] ast.(*IfStmt): Condition, Then, Else?
children [C16] ast.(*CaseStmt): Expression, Selectors, Else?
children [C16] ast.CaseSelectors: each
children [C16] ast.(*CaseSelector): Labels, Statement
children [C16] ast.CaseLabels: each
children [C16] ast.(*CaseLabel): ConstExpr, ExtraConstExpr?
children [C16] ast.(*RepeatStmt): StmtList, Condition
children [C16] ast.(*WhileStmt): Condition, Statement
children [C16] ast.(*ForStmt): QualId, Initial, Terminal, Statement
children [C16] ast.(*WithStmt): Objects, Statement
children [C16] ast.(*TryExceptStmt): Statements, ExceptionBlock
children [C16] ast.(*ExceptionBlock): Handlers, Else
children [C16] ast.ExceptionBlockHandlers: each
children [C16] ast.(*ExceptionBlockHandler): Decl, Statement
children [C16] ast.(*ExceptionBlockHandlerDecl): Ident?, Type
children [C16] ast.(*TryFinallyStmt): Statements1, Statements2
children [C16] ast.(*RaiseStmt): Object?, Address?
children [C16] ast.TypeSection: each
children [C16] ast.(*TypeDecl): Ident, Type
children [C16] ast.(*ForwardDeclaredClassType): 
children [C16] ast.(*CustomClassType): Heritage?, Members?
children [C16] ast.(*CustomObjectType): Heritage?, Members?
children [C16] ast.ClassHeritage: each
children [C16] ast.ClassMemberSections: each
children [C16] ast.(*ClassMemberSection): ClassFieldList?, ClassMethodList?, ClassPropertyList?
children [C16] ast.ClassFieldList: each
children [C16] ast.(*ClassField): IdentList, Type
children [C16] ast.ClassMethodList: each
children [C16] ast.(*ClassMethod): Heading
children [C16] ast.(*ConstructorHeading): Ident, FormalParameters?
children [C16] ast.(*DestructorHeading): Ident
children [C16] ast.ClassPropertyList: each
children [C16] ast.(*ClassProperty): Ident, Interface?, Index?, Read?, Write?, Stored?, Default?, Implements?
children [C16] ast.(*PropertyInterface): Parameters?, Type?
children [C16] ast.(*PropertyStoredSpecifier): IdentRef?
children [C16] ast.(*PropertyDefaultSpecifier): Value?
children [C16] ast.(*CustomClassRefType): TypeId
children [C16] ast.(*TypeEmbedded): Ident
children [C16] ast.(*TypeId): UnitId?, Ident
children [C16] ast.(*CustomInterfaceType): Heritage?, Guid?, Members?
children [C16] ast.InterfaceHeritage: each
children [C16] ast.(*InterfaceGuid): ConstExpr
children [C16] ast.InterfaceMemberList: each
children [C16] ast.(*InterfaceMethod): Heading
children [C16] ast.(*InterfaceProperty): Ident, Interface?, Read?, Write?
children [C16] ast.(*CustomPointerType): TypeId
children [C16] ast.ProcedureType: FormalParameters?, ReturnType?
children [C16] ast.EnumeratedType: each
children [C16] ast.(*EnumeratedTypeElement): Ident, ConstExpr?
children [C16] ast.(*FixedStringType): StringType, Length
children [C16] ast.(*SetType): OrdinalType
children [C16] ast.(*FileType): TypeId
children [C16] ast.(*RecType): FieldList
children [C16] ast.(*FieldList): FieldDecls, VariantSection?
children [C16] ast.FieldDecls: each
children [C16] ast.(*FieldDecl): IdentList, Type
children [C16] ast.(*VariantSection): TypeId, Ident?, RecVariants?
children [C16] ast.RecVariants: each
children [C16] ast.(*RecVariant): ConstExprs, FieldList
children [C16] ast.(*Unit): Ident, InterfaceSection?, ImplementationSection?, InitSection?
children [C16] ast.(*InterfaceSection): UsesClause?, InterfaceDecls?
children [C16] ast.InterfaceDecls: each
children [C16] ast.(*ImplementationSection): UsesClause?, DeclSections?, ExportsStmts?
children [C16] ast.(*InitSection): InitializationStmts, FinalizationStmts?
children [C16] ast.(*QualId): NamespaceId?, Ident
children [C16] ast.QualIds: each
children [C16] ast.UsesClause: each
children [C16] ast.(*UsesClauseItem): Ident
children [C16] ast.VarSection: each
children [C16] ast.(*VarDecl): IdentList, Type?, Absolute?, ConstExpr?
children [C16] ast.(*VarDeclAbsoluteIdent): 
children [C16] ast.ThreadVarSection: each
children [C16] ast.(*ThreadVarDecl): IdentList, Type?
children [C16] ast.(*AssemblerStatement):
children [C16] ast.(*SubrangeType): Low, High
children [C16] ast.(*TypeCast): TypeId, Expression
children [C16] ast.AddOpTerms: each
children [C16] ast.MulOpFactors: each
children [C16] ast.StmtList: each
children [C16] astcore.(*IdentRef): Ident
children [C16] astcore.Nodes: each
children [C16] ast.(*VarDeclAbsoluteConstExpr): SimpleExpression, RelOpSimpleExpressions?
func ast.(*ArrayType).Children(m)(r) {
  requires m != nil
  ensures [C16] parts: len(r) == len(m.IndexTypes) + 1 && r[len(m.IndexTypes)] == iface(m.BaseType)
     && (forall i int {r[i]} :: 0 <= i < len(m.IndexTypes) ==> r[i] == iface(m.IndexTypes[i]))
  foreach s astcore.Nodes, k int :: len(s) == len(m.IndexTypes) + 1 && (forall j int {s[j]} :: 0 <= j < k ==> s[j] == iface(m.IndexTypes[j]))
  foreach s astcore.Nodes, k int :: len(s) == len(m.IndexTypes) + 1 && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] == iface(m.IndexTypes[j]))
  foreach s astcore.Nodes, k int :: len(s) == k && (forall j int {s[j]} :: 0 <= j < k ==> s[j] == iface(m.IndexTypes[j]))
  foreach s astcore.Nodes, k int :: len(s) == k + 1 && (forall j int {s[j]} :: 0 <= j <= k ==> s[j] == iface(m.IndexTypes[j]))
}
