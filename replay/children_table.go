package main

// Generated by hand from contracts/20_children.spec: the parts of each node type, in order ("?" optional).

import (
	"reflect"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

type kidRow struct {
	proto reflect.Type
	parts string
}

var kidTable = []kidRow{
	{reflect.TypeOf((*astcore.Ident)(nil)), ""},
	{reflect.TypeOf((*astcore.IdentList)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.Block)(nil)), "DeclSections?, ExportsStmts1?, Body, ExportsStmts2?"},
	{reflect.TypeOf((*ast.ExportsStmts)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ExportsStmt)(nil)), "each ExportsItems"},
	{reflect.TypeOf((*ast.ExportsItem)(nil)), "Ident, Name?, Index?"},
	{reflect.TypeOf((*ast.DeclSections)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.LabelDeclSection)(nil)), "LabelId"},
	{reflect.TypeOf((*ast.ConstSection)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ConstantDecl)(nil)), "Ident, Type?, ConstExpr"},
	{reflect.TypeOf((*ast.Expression)(nil)), "SimpleExpression, RelOpSimpleExpressions?"},
	{reflect.TypeOf((*ast.ExprList)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.RelOpSimpleExpression)(nil)), "SimpleExpression"},
	{reflect.TypeOf((*ast.RelOpSimpleExpressions)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.SimpleExpression)(nil)), "Term, AddOpTerms?"},
	{reflect.TypeOf((*ast.AddOpTerm)(nil)), "Term"},
	{reflect.TypeOf((*ast.Term)(nil)), "Factor, MulOpFactors?"},
	{reflect.TypeOf((*ast.MulOpFactor)(nil)), "Factor"},
	{reflect.TypeOf((*ast.DesignatorFactor)(nil)), "Designator, ExprList?"},
	{reflect.TypeOf((*ast.Address)(nil)), "Designator"},
	{reflect.TypeOf((*ast.Designator)(nil)), "QualId, Items?"},
	{reflect.TypeOf((*ast.DesignatorItems)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.DesignatorItemIdent)(nil)), "Ident"},
	{reflect.TypeOf((*ast.DesignatorItemExprList)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.DesignatorItemDereference)(nil)), ""},
	{reflect.TypeOf((*ast.NumberFactor)(nil)), ""},
	{reflect.TypeOf((*ast.StringFactor)(nil)), ""},
	{reflect.TypeOf((*ast.ValueFactor)(nil)), ""},
	{reflect.TypeOf((*ast.Nil)(nil)), ""},
	{reflect.TypeOf((*ast.Parentheses)(nil)), "Expression"},
	{reflect.TypeOf((*ast.Not)(nil)), "Factor"},
	{reflect.TypeOf((*ast.SetConstructor)(nil)), "each SetElements"},
	{reflect.TypeOf((*ast.SetElement)(nil)), "Expression, SubRangeEnd?"},
	{reflect.TypeOf((*ast.FunctionDecl)(nil)), "FunctionHeading, Block"},
	{reflect.TypeOf((*ast.ExportedHeading)(nil)), "FunctionHeading"},
	{reflect.TypeOf((*ast.FunctionHeading)(nil)), "Ident, FormalParameters?, ReturnType?"},
	{reflect.TypeOf((*ast.FormalParameters)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.FormalParm)(nil)), "Parameter"},
	{reflect.TypeOf((*ast.ParameterType)(nil)), "Type"},
	{reflect.TypeOf((*ast.Parameter)(nil)), "IdentList, Type?, ConstExpr?"},
	{reflect.TypeOf((*ast.Program)(nil)), "Ident?, ProgramBlock"},
	{reflect.TypeOf((*ast.ProgramBlock)(nil)), "UsesClause?, Block"},
	{reflect.TypeOf((*ast.CompoundStmt)(nil)), "StmtList"},
	{reflect.TypeOf((*ast.Statement)(nil)), "LabelId?, Body"},
	{reflect.TypeOf((*ast.CallStatement)(nil)), "Designator, ExprList?"},
	{reflect.TypeOf((*ast.AssignStatement)(nil)), "Designator, Expression"},
	{reflect.TypeOf((*ast.InheritedStatement)(nil)), ""},
	{reflect.TypeOf((*ast.GotoStatement)(nil)), "LabelId"},
	{reflect.TypeOf((*ast.IfStmt)(nil)), "Condition, Then, Else?"},
	{reflect.TypeOf((*ast.CaseStmt)(nil)), "Expression, Selectors, Else?"},
	{reflect.TypeOf((*ast.CaseSelectors)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.CaseSelector)(nil)), "Labels, Statement"},
	{reflect.TypeOf((*ast.CaseLabels)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.CaseLabel)(nil)), "ConstExpr, ExtraConstExpr?"},
	{reflect.TypeOf((*ast.RepeatStmt)(nil)), "StmtList, Condition"},
	{reflect.TypeOf((*ast.WhileStmt)(nil)), "Condition, Statement"},
	{reflect.TypeOf((*ast.ForStmt)(nil)), "QualId, Initial, Terminal, Statement"},
	{reflect.TypeOf((*ast.WithStmt)(nil)), "Objects, Statement"},
	{reflect.TypeOf((*ast.TryExceptStmt)(nil)), "Statements, ExceptionBlock"},
	{reflect.TypeOf((*ast.ExceptionBlock)(nil)), "Handlers, Else"},
	{reflect.TypeOf((*ast.ExceptionBlockHandlers)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ExceptionBlockHandler)(nil)), "Decl, Statement"},
	{reflect.TypeOf((*ast.ExceptionBlockHandlerDecl)(nil)), "Ident?, Type"},
	{reflect.TypeOf((*ast.TryFinallyStmt)(nil)), "Statements1, Statements2"},
	{reflect.TypeOf((*ast.RaiseStmt)(nil)), "Object?, Address?"},
	{reflect.TypeOf((*ast.TypeSection)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.TypeDecl)(nil)), "Ident, Type"},
	{reflect.TypeOf((*ast.ForwardDeclaredClassType)(nil)), ""},
	{reflect.TypeOf((*ast.CustomClassType)(nil)), "Heritage?, Members?"},
	{reflect.TypeOf((*ast.CustomObjectType)(nil)), "Heritage?, Members?"},
	{reflect.TypeOf((*ast.ClassHeritage)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ClassMemberSections)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ClassMemberSection)(nil)), "ClassFieldList?, ClassMethodList?, ClassPropertyList?"},
	{reflect.TypeOf((*ast.ClassFieldList)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ClassField)(nil)), "IdentList, Type"},
	{reflect.TypeOf((*ast.ClassMethodList)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ClassMethod)(nil)), "Heading"},
	{reflect.TypeOf((*ast.ConstructorHeading)(nil)), "Ident, FormalParameters?"},
	{reflect.TypeOf((*ast.DestructorHeading)(nil)), "Ident"},
	{reflect.TypeOf((*ast.ClassPropertyList)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ClassProperty)(nil)), "Ident, Interface?, Index?, Read?, Write?, Stored?, Default?, Implements?"},
	{reflect.TypeOf((*ast.PropertyInterface)(nil)), "Parameters?, Type?"},
	{reflect.TypeOf((*ast.PropertyStoredSpecifier)(nil)), "IdentRef?"},
	{reflect.TypeOf((*ast.PropertyDefaultSpecifier)(nil)), "Value?"},
	{reflect.TypeOf((*ast.CustomClassRefType)(nil)), "TypeId"},
	{reflect.TypeOf((*ast.TypeEmbedded)(nil)), "Ident"},
	{reflect.TypeOf((*ast.TypeId)(nil)), "UnitId?, Ident"},
	{reflect.TypeOf((*ast.CustomInterfaceType)(nil)), "Heritage?, Guid?, Members?"},
	{reflect.TypeOf((*ast.InterfaceHeritage)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.InterfaceGuid)(nil)), "ConstExpr"},
	{reflect.TypeOf((*ast.InterfaceMemberList)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.InterfaceMethod)(nil)), "Heading"},
	{reflect.TypeOf((*ast.InterfaceProperty)(nil)), "Ident, Interface?, Read?, Write?"},
	{reflect.TypeOf((*ast.CustomPointerType)(nil)), "TypeId"},
	{reflect.TypeOf((*ast.ProcedureType)(nil)).Elem(), "FormalParameters?, ReturnType?"},
	{reflect.TypeOf((*ast.EnumeratedType)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.EnumeratedTypeElement)(nil)), "Ident, ConstExpr?"},
	{reflect.TypeOf((*ast.FixedStringType)(nil)), "StringType, Length"},
	{reflect.TypeOf((*ast.SetType)(nil)), "OrdinalType"},
	{reflect.TypeOf((*ast.FileType)(nil)), "TypeId"},
	{reflect.TypeOf((*ast.RecType)(nil)), "FieldList"},
	{reflect.TypeOf((*ast.FieldList)(nil)), "FieldDecls, VariantSection?"},
	{reflect.TypeOf((*ast.FieldDecls)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.FieldDecl)(nil)), "IdentList, Type"},
	{reflect.TypeOf((*ast.VariantSection)(nil)), "TypeId, Ident?, RecVariants?"},
	{reflect.TypeOf((*ast.RecVariants)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.RecVariant)(nil)), "ConstExprs, FieldList"},
	{reflect.TypeOf((*ast.Unit)(nil)), "Ident, InterfaceSection?, ImplementationSection?, InitSection?"},
	{reflect.TypeOf((*ast.InterfaceSection)(nil)), "UsesClause?, InterfaceDecls?"},
	{reflect.TypeOf((*ast.InterfaceDecls)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ImplementationSection)(nil)), "UsesClause?, DeclSections?, ExportsStmts?"},
	{reflect.TypeOf((*ast.InitSection)(nil)), "InitializationStmts, FinalizationStmts?"},
	{reflect.TypeOf((*ast.QualId)(nil)), "NamespaceId?, Ident"},
	{reflect.TypeOf((*ast.QualIds)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.UsesClause)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.UsesClauseItem)(nil)), "Ident"},
	{reflect.TypeOf((*ast.VarSection)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.VarDecl)(nil)), "IdentList, Type?, Absolute?, ConstExpr?"},
	{reflect.TypeOf((*ast.VarDeclAbsoluteIdent)(nil)), ""},
	{reflect.TypeOf((*ast.ThreadVarSection)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.ThreadVarDecl)(nil)), "IdentList, Type?"},
	{reflect.TypeOf((*ast.AssemblerStatement)(nil)), ""},
	{reflect.TypeOf((*ast.SubrangeType)(nil)), "Low, High"},
	{reflect.TypeOf((*ast.TypeCast)(nil)), "TypeId, Expression"},
	{reflect.TypeOf((*ast.AddOpTerms)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.MulOpFactors)(nil)).Elem(), "each"},
	{reflect.TypeOf((*ast.StmtList)(nil)).Elem(), "each"},
	{reflect.TypeOf((*astcore.IdentRef)(nil)), "Ident"},
	{reflect.TypeOf((*ast.VarDeclAbsoluteConstExpr)(nil)), "SimpleExpression, RelOpSimpleExpressions?"},
	{reflect.TypeOf((*ast.ArrayType)(nil)), "each IndexTypes, BaseType"},
}
