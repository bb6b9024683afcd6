From 633ae626d16373a3b41d292aa05c9ab9c4312261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 01/20] fix: keep the pending line feed when a cursor is cloned

---
 runes/cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index 07557a2..0cf8ea4 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -22,6 +22,7 @@ func (c *Cursor) Clone() *Cursor {
 		Text:     c.Text,
 		Len:      c.Len,
 		Position: c.Position.Clone(),
+		wasLF:    c.wasLF,
 	}
 }
 
-- 
2.43.0


From 6ac553f41cb228ef1c73688ec3d3e9c22199b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 02/20] fix: end an unterminated character string at the end of
 the text

---
 token/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token/string.go b/token/string.go
index be38b40..909dddc 100644
--- a/token/string.go
+++ b/token/string.go
@@ -11,7 +11,7 @@ func ProcessString(c *runes.Cursor) *Token {
 		var last rune
 		for {
 			r := c.Next()
-			if last != '\\' && r == '\'' {
+			if r == runes.CursorEOF || (last != '\\' && r == '\'') {
 				break
 			}
 			last = r
-- 
2.43.0


From 5611792e2016268bb91763aea8affbd837bce35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 03/20] fix: return a token for a character which starts no
 other token

---
 token/illegal.go   | 12 ++++++++++++
 token/tokenizer.go |  1 +
 token/type.go      |  2 ++
 3 files changed, 15 insertions(+)
 create mode 100644 token/illegal.go

diff --git a/token/illegal.go b/token/illegal.go
new file mode 100644
index 0000000..d716801
--- /dev/null
+++ b/token/illegal.go
@@ -0,0 +1,12 @@
+package token
+
+import (
+	"github.com/akm/tparser/runes"
+)
+
+// ProcessIllegal makes a token of one rune which starts no other token.
+func ProcessIllegal(c *runes.Cursor) *Token {
+	start := c.Position.Clone()
+	c.Next()
+	return NewToken(Illegal, c.Text, start, c.Position.Clone())
+}
diff --git a/token/tokenizer.go b/token/tokenizer.go
index 0f32d50..e97de10 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -42,6 +42,7 @@ var processors = []func(*runes.Cursor) *Token{
 	ProcessSingleSpecialSymbol,
 	ProcessWord,
 	ProcessSpace,
+	ProcessIllegal,
 }
 
 func (t *Tokenizer) GetNext() *Token {
diff --git a/token/type.go b/token/type.go
index b5da5ef..9fde529 100644
--- a/token/type.go
+++ b/token/type.go
@@ -20,6 +20,7 @@ const (
 	NumeralReal
 	Label
 	CharacterString
+	Illegal
 )
 
 var TypeNames = map[Type]string{
@@ -34,6 +35,7 @@ var TypeNames = map[Type]string{
 	NumeralReal:         "real",
 	Label:               "label",
 	CharacterString:     "character string",
+	Illegal:             "illegal character",
 }
 
 func (t Type) String() string {
-- 
2.43.0


From 5e0700554c546611dd57176ee8cf5bcb1a2aca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:29 +0000
Subject: [PATCH 04/20] fix: stop at the end of the text in an assembler
 statement and accept an empty one

---
 parser/statement_asm.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/statement_asm.go b/parser/statement_asm.go
index 6df2624..22499f8 100644
--- a/parser/statement_asm.go
+++ b/parser/statement_asm.go
@@ -14,12 +14,13 @@ func (p *Parser) ParseAssemblerStatement() (*ast.AssemblerStatement, error) {
 
 	log.Printf("ParseAssemblerStatement start")
 
-	for {
-		if p.NextToken().Is(token.ReservedWord.HasKeyword("END")) {
-			p.NextToken()
-			break
+	for !p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+		if p.CurrentToken().Is(token.EOF) {
+			return nil, p.TokenErrorf("expects END but was %s", p.CurrentToken())
 		}
+		p.NextToken()
 	}
+	p.NextToken()
 
 	log.Printf("ParseAssemblerStatement done")
 
-- 
2.43.0


From 8b6a922eba60a5ec1c5f4110d30ab4b8a9f7a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 05/20] fix: keep the same context object when the parser is
 rolled back

---
 parser/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/base.go b/parser/base.go
index 2cdaa48..0f36b51 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -29,7 +29,7 @@ func (p *Parser) SetText(text *[]rune) {
 func (p *Parser) RollbackPoint() func() {
 	tokenizer := p.tokenizer.Clone()
 	curr := p.curr.Clone()
-	ctx := p.context.Clone()
+	ctx := p.context
 	return func() {
 		p.tokenizer = tokenizer
 		p.curr = curr
-- 
2.43.0


From d5e86d3893d96c053d4fea6ab404bc2209d509f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:33 +0000
Subject: [PATCH 06/20] fix: keep the exports statements which precede a block
 body

---
 parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/block.go b/parser/block.go
index 0f5fef7..801aa24 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -37,7 +37,7 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
 		return nil, err
 	} else if exportStmts != nil {
-		res.ExportsStmts1 = exportStmts
+		res.ExportsStmts2 = exportStmts
 	}
 
 	return res, nil
-- 
2.43.0


From 69b7355886e71a0027685d995083225823a7b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 07/20] fix: report a missing semicolon after a unit name

---
 parser/unit_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 7b773f4..c5662f9 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -104,9 +104,9 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 	if t.Is(token.PortabilityDirective) {
 		s := ast.PortabilityDirective(t.Value())
 		res.PortabilityDirective = &s
-		t = p.NextToken()
+		p.NextToken()
 	}
-	if !t.Is(token.Symbol(';')) {
+	if _, err := p.Current(token.Symbol(';')); err != nil {
 		return nil, err
 	}
 	p.NextToken()
-- 
2.43.0


From 24ef276225ba42237a72dd831e7742e575daf601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:36 +0000
Subject: [PATCH 08/20] fix: report a reserved word which starts no type

---
 parser/type_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_string.go b/parser/type_string.go
index 8b3d139..b671522 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -23,7 +23,7 @@ func (p *Parser) ParseStringOfStringType() (ast.StringType, error) {
 	t1 := p.CurrentToken()
 	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t1.Value())
 	if decl == nil {
-		return nil, nil
+		return nil, p.TokenErrorf("Unsupported Type token %s", t1)
 	}
 	t2 := p.NextToken()
 	if t2.Is(token.Symbol('[')) {
-- 
2.43.0


From 1f2e7ddc8754fce27306c8ffa67153911101ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:38 +0000
Subject: [PATCH 09/20] fix: report a qualified identifier of a namespace
 without declarations yet

---
 parser/unit.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/unit.go b/parser/unit.go
index 0e27f44..6104655 100644
--- a/parser/unit.go
+++ b/parser/unit.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
 )
 
@@ -78,7 +79,10 @@ func (p *Parser) ParseQualId() (*ast.QualId, error) {
 			return nil, p.TokenErrorf("%s is neither unit nor program but was %T", name1, namespaceDecl.Node)
 		}
 
-		decl := namespace.GetDeclMap().Get(name2.Value())
+		var decl *astcore.Decl
+		if declMap := namespace.GetDeclMap(); declMap != nil {
+			decl = declMap.Get(name2.Value())
+		}
 		if decl == nil {
 			return nil, p.TokenErrorf("undefined identifier %s in unit %s", name2, name1.Value())
 		}
-- 
2.43.0


From e8ade260ddee176285d7a4cafbe203cc7ecf1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 10/20] fix: return the error when a program file cannot be
 opened

---
 parser/program.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/program.go b/parser/program.go
index 69d04e0..276f9b7 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -20,7 +20,7 @@ type Program struct {
 func ParseProgram(path string) (*Program, error) {
 	fp, err := os.Open(path)
 	if err != nil {
-		panic(err)
+		return nil, errors.Wrapf(err, "failed to open file: %q", path)
 	}
 	defer fp.Close()
 
-- 
2.43.0


From 3bf809a20b0b98e659739777b0d0540e86ebff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:41 +0000
Subject: [PATCH 11/20] fix: consume the NODEFAULT and IMPLEMENTS keywords of a
 property

---
 parser/type_class.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index aba690f..893267d 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -473,6 +473,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 		p.Logf("Parser.ParseClassProperty #18")
 		v := true
 		res.Default = &ast.PropertyDefaultSpecifier{NoDefault: &v}
+		p.NextToken()
 	}
 
 	p.Logf("Parser.ParseClassProperty #19")
@@ -480,6 +481,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 	//   [IMPLEMENTS TypeId]
 	if strings.ToUpper(p.CurrentToken().Value()) == "IMPLEMENTS" {
 		p.Logf("Parser.ParseClassProperty #20")
+		p.NextToken()
 		typeId, err := p.ParseTypeId()
 		if err != nil {
 			p.Logf("Parser.ParseClassProperty #21")
-- 
2.43.0


From 4486af80f3f516b9faf0508215dad8bdef82bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:42 +0000
Subject: [PATCH 12/20] fix: accept a number where a number is expected

---
 parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index 5508ec3..c8390ea 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -258,7 +258,7 @@ func (p *Parser) ParseStringFactor(t *token.Token, skipTypeCheck bool) (*ast.Str
 }
 
 func (p *Parser) ParseNumberFactor(t *token.Token, skipTypeCheck bool) (*ast.NumberFactor, error) {
-	if skipTypeCheck || t.Is(token.CharacterString) {
+	if skipTypeCheck || t.Is(token.Some(token.NumeralInt, token.NumeralReal)) {
 		p.NextToken()
 		return &ast.NumberFactor{Value: t.Value()}, nil
 	} else {
-- 
2.43.0


From 9cab230524036ab76776515bc920ead5157b903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:20 +0000
Subject: [PATCH 13/20] fix: visit the whole constant expression of an absolute
 clause

---
 ast/var.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/var.go b/ast/var.go
index ff545e6..3920135 100644
--- a/ast/var.go
+++ b/ast/var.go
@@ -97,6 +97,9 @@ type VarDeclAbsoluteConstExpr ConstExpr
 var _ VarDeclAbsolute = (*VarDeclAbsoluteConstExpr)(nil)
 
 func (*VarDeclAbsoluteConstExpr) isVarDeclAbsolute() {}
+func (m *VarDeclAbsoluteConstExpr) Children() Nodes {
+	return (*ConstExpr)(m).Children()
+}
 
 // threadvar X: Integer;
 // Thread-variable declarations
-- 
2.43.0


From e3302c43f8c4cc59c6f58e747ace2865a710b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:12 +0000
Subject: [PATCH 14/20] fix: a set or file type is not of its element's kind

SetType and FileType embedded their element type, so that they took over its
IsOrdinalType, IsSimpleType etc.: a set of ordinals counted as an ordinal
type itself, and asking an untyped file dereferenced nil.
---
 ast/type_struc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 6b8ef86..1ed9ba1 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -44,8 +44,8 @@ func (m *ArrayType) Children() Nodes {
 //   SET OF OrdinalType [PortabilityDirective]
 //   ```
 type SetType struct {
-	OrdinalType
-	Packed bool
+	OrdinalType OrdinalType
+	Packed      bool
 }
 
 var _ StrucType = (*SetType)(nil)
@@ -62,7 +62,7 @@ func (m *SetType) Children() Nodes {
 //   FILE OF TypeId [PortabilityDirective]
 //   ```
 type FileType struct {
-	*TypeId
+	TypeId *TypeId
 	Packed bool
 }
 
-- 
2.43.0


From b851846a79fdbfd76d6a2b8217302d0d79caf6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:03 +0000
Subject: [PATCH 15/20] fix: consume exactly the tokens of a type

A record or class type left its END, a class reference type and a type of
another unit left their last identifier unread, and a type declaration
skipped one token of whatever followed: a portability directive after a
type name was dropped, and such types failed in variables and parameters.
---
 parser/type.go       | 15 +++++----------
 parser/type_class.go |  3 +++
 parser/type_struc.go |  1 +
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index cfd8241..133fa2c 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -90,16 +90,10 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		}
 	}
 
-	{
-		t := p.CurrentToken()
-		if t.Is(token.Symbol(';')) {
-			return res, nil
-		}
-		if t := p.NextToken(); t.Is(token.PortabilityDirective) {
-			portabilityDirective := ast.PortabilityDirective(t.Value())
-			res.PortabilityDirective = &portabilityDirective
-			p.NextToken()
-		}
+	if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
+		portabilityDirective := ast.PortabilityDirective(t.Value())
+		res.PortabilityDirective = &portabilityDirective
+		p.NextToken()
 	}
 
 	return res, nil
@@ -169,6 +163,7 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if err != nil {
 		return nil, err
 	}
+	p.NextToken()
 	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
 }
 
diff --git a/parser/type_class.go b/parser/type_class.go
index 893267d..a42d3a6 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -34,6 +34,7 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 		if typeId == nil {
 			typeId = ast.NewTypeId(ast.NewIdent(t))
 		}
+		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
@@ -50,12 +51,14 @@ func (p *Parser) ParseClassType() (ast.ClassType, error) {
 		res.Heritage = heritage
 	}
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+		p.NextToken()
 		return res, nil
 	}
 	if !p.CurrentToken().Is(token.Symbol(';')) {
 		if _, err := p.ParseClassMemberSections(res); err != nil {
 			return nil, err
 		}
+		p.NextToken()
 	}
 	return res, nil
 }
diff --git a/parser/type_struc.go b/parser/type_struc.go
index 45af2d1..b2c9df4 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -142,6 +142,7 @@ func (p *Parser) ParseRecType() (*ast.RecType, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("END")); err != nil {
 		return nil, err
 	}
+	p.NextToken()
 
 	return r, nil
 }
-- 
2.43.0


From dc45821a88a16636d39f2ad1cc0fe7f79e341e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:19 +0000
Subject: [PATCH 16/20] fix: an exception handler's identifier is visible in
 the handler only

Two handlers with the same identifier in one block were refused as a
duplicate declaration, and the identifier stayed visible after the block.
---
 parser/statement_try.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index cb8abde..fa976c1 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -121,6 +121,9 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	t := p.NextToken()
 
+	// The identifier is visible in this handler only
+	defer p.context.StackDeclMap()()
+
 	hasIdent := true
 
 	// p.logger.Printf("p.context.DeclMap.Keys(): %+v\n", p.context.DeclMap.Keys())
-- 
2.43.0


From ddb3c0583ee85c6d7f8cec9c021d05a2ca5d274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:40 +0000
Subject: [PATCH 17/20] fix: a forward or external function has no block

What followed such a declaration was taken for its block, so that the
declarations after it became nested in it.
---
 parser/function.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index c18c160..26be247 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -34,6 +34,13 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		}
 		res.Directives = directives
 		res.ExternalOptions = opts
+		for _, d := range directives {
+			// The block is given elsewhere. What follows is not a part of this declaration
+			if d == ast.DrForward || d == ast.DrExternal {
+				res.Block = &ast.Block{}
+				return res, nil
+			}
+		}
 	}
 	// TODO PortabilityDirective
 	block, err := p.ParseBlock()
-- 
2.43.0


From 4e67eb301e8283c2f33bd9f43b0f5a3ad2c449d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:24 +0000
Subject: [PATCH 18/20] fix: a type name is an identifier or STRING, not any
 token

---
 parser/type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index 133fa2c..18211b7 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -168,7 +168,11 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-	ident := p.NewIdent(p.CurrentToken())
+	t, err := p.Current(token.Some(token.Identifier, token.ReservedWord.HasKeyword("STRING")))
+	if err != nil {
+		return nil, err
+	}
+	ident := p.NewIdent(t)
 	p.NextToken()
 	r := &ast.TypeId{Ident: ident}
 
-- 
2.43.0


From 0cebcb1b931ca121905f831cd505883170955a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:26 +0000
Subject: [PATCH 19/20] fix: a variant part nested in a variant ends at its
 closing parenthesis

---
 parser/type_struc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index b2c9df4..6c2aa5f 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -233,7 +233,8 @@ func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
 	p.NextToken()
 
 	recVariants := ast.RecVariants{}
-	endPred := token.ReservedWord.HasKeyword("END")
+	// A variant part ends with the record or, when nested, with the field list of the variant
+	endPred := token.Some(token.ReservedWord.HasKeyword("END"), token.Symbol(')'))
 	if err := p.Until(endPred, token.Symbol(';'), func() error {
 		if p.CurrentToken().Is(endPred) {
 			return QuitUntil
@@ -274,6 +275,9 @@ func (p *Parser) ParseRecVariant() (*ast.RecVariant, error) {
 	if err != nil {
 		return nil, err
 	}
+	if _, err := p.Current(token.Symbol(')')); err != nil {
+		return nil, err
+	}
 	p.NextToken() // Go to next token because ParseFieldList doesn't call NextToken which quits by terminator
 	return &ast.RecVariant{
 		ConstExprs: constExprs,
-- 
2.43.0


From b456d397138c392cea2a0a2344712b61e76ce423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:37 +0000
Subject: [PATCH 20/20] fix: report a unit which is loaded twice instead of
 panicking

---
 parser/program.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/program.go b/parser/program.go
index 276f9b7..fab3cd3 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -128,6 +128,9 @@ func (p *ProgramParser) LoadUnits(uses ast.UsesClause) error {
 		if err := loader.ProcessIdentAndIntfUses(); err != nil {
 			return err
 		}
+		if p.context.Units.ByName(loader.Unit.Ident.Name) != nil {
+			return errors.Errorf("duplicate unit: %s", loader.Unit.Ident.Name)
+		}
 		p.context.AddUnit(loader.Unit)
 	}
 
-- 
2.43.0

