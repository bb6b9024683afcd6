LEX="All obligations of the lexer functions discharged from current source; assumes unicode.IsLetter/IsSpace and strings.ToUpper behave as functions of their argument, unbounded integers, and the verifier itself."
prop("C01","Lexing covers the source without loss or overlap",
 "For every text, the tokens handed out one after another (with spaces and comments loaded) start at the first character, each begin exactly where the previous one ended, and together cover the text up to its end (the end of the slice or a NUL character). Each token's text is exactly the characters of its span, and without spaces or comments loaded the same tokens come out with just those left out.",
 ["inputs"],"every text (any runes, any length), every flag combination, every position a tokenizer may be cloned at",
 "The tests compare a few short sources; coverage without gaps has to hold for every text, including unterminated comments and strings, NUL, and characters that start no token.",
 ["runes/cursor.go","token/tokenizer.go","token/token.go","token/comment.go","token/string.go","token/numeral.go","token/word.go","token/space.go","token/special_symbols.go","token/eof.go"],
 [("cursor stepping","runes/cursor.go"),("token processors","token/*.go"),("skipping of spaces and comments","token/tokenizer.go")],LEX)
prop("C02","Token positions give the true line and column",
 "For every text, each token's start and end positions carry the index, the line (one plus the number of line feeds before it) and the column (one plus the distance to the last line feed or the start of the text) of the place they denote. Cloning a tokenizer or a token, or letting the original run on, never changes the positions handed out.",
 ["inputs","histories"],"every text and every sequence of reads and clones",
 "Positions are kept incrementally with a pending line-feed flag; whether it stays in step for every mixture of line feeds, multi-line tokens and clones cannot be sampled.",
 ["runes/cursor.go","runes/position.go","token/token.go","token/tokenizer.go"],
 [("incremental line/column","runes/cursor.go Next"),("clones","runes/cursor.go, runes/position.go, token/token.go")],LEX+" A line feed as the very first character is not counted (known finding K01; the existing tests pin that behaviour).")
prop("C03","Every token is classified by the documented lexical rules",
 "For every text and every start index, the token there is: comment ({…}, (*…*), // to line end), quoted string (a backslash keeps a quote from closing it), integer or real numeral (optional minus, at most one dot, never swallowing '..'), two- or one-character special symbol, reserved word (case-insensitive, exactly the 65 words) or identifier (letter or underscore, then letters, digits, underscores), white space, or an illegal single character — tried in that order, each extending as far as its rule says.",
 ["inputs"],"every text, every index in it",
 "Classification is decided by eight ordered recognisers over unbounded text; tests sample a few dozen lexemes and cannot see interactions such as numerals before '..', unterminated constructs or non-ASCII letters.",
 ["token/comment.go","token/string.go","token/numeral.go","token/special_symbols.go","token/word.go","token/space.go","token/reserved_words.go","token/type.go"],
 [("ordered recognisers","token/tokenizer.go processors"),("reserved word set","token/reserved_words.go"),("symbol tables","token/special_symbols.go")],LEX)
prop("C04","Lexing is total: it always ends, never panics, always advances",
 "For every text and flag combination, asking for the next token returns a token after finitely many steps without panicking, and a token other than end-of-input always moves the read position forward. Hence every text reaches its end-of-input token.",
 ["inputs"],"every text, every flag combination, every reachable tokenizer state",
 "Non-termination and index errors hide in unterminated or malformed input that nobody writes into a test.",
 ["token/tokenizer.go","token/string.go","token/comment.go","runes/cursor.go"],
 [("loops of the recognisers","token/*.go"),("skip recursion","token/tokenizer.go GetNext")],LEX)
AST="All obligations of the listed functions discharged from current source for all trees; assumes strings.ToLower/ToUpper behave as functions (ToLower idempotent), that log.Printf has no effect on the tree, unbounded integers, and the verifier itself."
prop("C13","Declaration maps: innermost declaration wins, names ignore case, duplicates are refused",
 "For every declaration node, ToDeclarations gives one declaration per declared identifier, in order, carrying that identifier and the node. For every composition of plain, chained, composite and context declaration maps and every history of Set and Overwrite, Get(name) ignores letter case and gives the declaration of the innermost map that has one (own before parent, composite members in order, the table of built-in types last) or nil. Set adds one entry per identifier of the node to the map it addresses (a chained map's own part, a composite's first member), never replaces an entry, and fails exactly when a name is already there or occurs twice in the node; Overwrite changes exactly the entry of its name.",
 ["inputs","histories"],"every map composition, every history of operations, every declaration node",
 "Unit tests look up a handful of names in fixed maps; shadowing and duplicate detection have to hold for every nesting and history.",
 ["ast/astcore/decl_map.go","ast/astcore/decl.go","ast/astcore/decl_node.go","ast/var.go","ast/const.go","ast/type.go","ast/type_class.go","ast/function.go","ast/function_heading.go","parser/pcontext/stackable_context.go","parser/pcontext/program_context.go","parser/pcontext/unit_context.go","ast/type_embedded.go"],
 [("lookup and insertion","ast/astcore/decl_map.go"),("declarations of a node","ToDeclarations methods in ast/*.go"),("contexts as maps","parser/pcontext/*.go")],AST)
prop("C16","Walking a syntax tree visits every part once, in order",
 "For every syntax tree node, Children gives each part of the node once, in the fixed order of its grammar, leaving out optional parts that are absent and giving list nodes element by element. WalkDown hands the visitor the node, then all its descendants depth first in that order, skips absent children, and stops at once with the visitor's error when the visitor fails.",
 ["inputs"],"every node of every AST type with every combination of optional parts present or absent, every visitor",
 "About a hundred node types each spell out their own Children; no test combines all optional parts of all of them.",
 ["ast/astcore/node.go","ast/*.go"],
 [("walk","ast/astcore/node.go WalkDown"),("children","Children methods in ast/*.go and ast/astcore/*.go")],AST+" The walk is specified over the children each node reports; that a visitor and the walk do not change the tree meanwhile is assumed.")
prop("C18","Class members resolve to the first visible declaration up the inheritance chain",
 "For every class and chain of ancestors, FindMemberDecl(name, includePrivate) ignores letter case and gives the declaration of the first field, method or property of that name, section by section (fields, then methods, then properties), own class before parent, where private sections of the class itself count only when asked for and private sections of ancestors never. FindProperty gives the first property of that name, in ancestors only when asked. The parent is the class named first in the heritage, if that name denotes a class. ComputedProperty takes each part from the nearest property in the override chain that has it without changing any of them, and InheritsFrom tells whether the interface, index, read or write part is taken from the given parent.",
 ["inputs"],"every class hierarchy without inheritance cycles, every name and flag",
 "Visibility, section order and override rules interact over unboundedly deep hierarchies.",
 ["ast/type_class.go"],
 [("member look-up","ast/type_class.go FindMemberDecl, FindProperty, GetParentClass"),("property overrides","ast/type_class.go ComputedProperty, InheritsFrom")],AST+" Termination is not claimed here: a cyclic inheritance chain never ends (see DESIGN.md).")
prop("C19","A type name is of the kind of the type it denotes",
 "For every type, however many aliases lie between a name and the type it denotes, IsSimpleType, IsOrdinalType, IsRealType, IsOrdIdent, IsStringType, IsPointerType and IsVariantType say what the denoted type is: enumerations and subranges are simple and ordinal, pointers and fixed strings are pointer and string types, built-in types are of the kind of the language's table (exactly the 29 names, whatever their case), and sets, files, arrays, records, classes, unresolved names and names of things other than types are none of these.",
 ["inputs"],"every type and every chain of aliases",
 "The kind decides which declarations the parser accepts; alias chains are unbounded and the table has 29 entries of five kinds.",
 ["ast/type_id.go","ast/type_embedded.go","ast/type_simple.go","ast/type_string.go","ast/type_pointer.go","ast/type_variant.go","ast/type_struc.go"],
 [("alias following","ast/type_id.go"),("built-in table","ast/type_embedded.go")],AST+" The built-in table is proved at package initialisation and assumed unchanged afterwards (it is unexported and nothing writes to it).")
prop("C20","Look-ups in lists find the first entry of a name, ignoring case",
 "For every list and name, IdentList.Find, Decls.Find, UsesClause.Find and Units.ByName give the first entry whose name equals the given one up to letter case, and nil if and only if there is none; ClassMethodDirectiveList.Include is true exactly when the upper-cased word is in the list. IdentList.Names, UsesClause.IdentList, UsesClause.Units, Units.DeclMaps keep length and order, Reverse turns the order round, Compact leaves out just the absent units, and the string list and set helpers (Include, Equal, Reverse, Set, Add, Remove) behave as on mathematical sequences and sets.",
 ["inputs"],"every list, every name",
 "Name resolution rests on these; which of several equal names wins and the empty and last positions are not sampled by tests.",
 ["ast/astcore/ident.go","ast/astcore/decl.go","ast/astcore/decl_map.go","ast/uses_clause.go","ast/unit.go","ast/type_class.go","ext/strings.go","ext/string_set.go"],
 [("first match","Find, ByName"),("list conversions","Names, IdentList, Units, DeclMaps, Reverse, Compact"),("string helpers","ext/*.go")],AST)
PAR="All obligations of the listed parser functions discharged from current source for every text; the lexer's contracts are the ones proved for C01–C04. Assumes strings.ToUpper/ToLower behave as functions, that logging has no effect on the parser, that errors made by pkg/errors are not the parser's own end-of-list signal, unbounded integers, and the verifier itself. Which texts are accepted is not specified: the property is about every text the parser accepts."
prop("C05","Parsing never panics",
 "For every text and every scope, reading an expression, statement, type, declaration, class, block, unit (identifier, interface, implementation and initialization) or program returns a tree or an error and never panics: no nil dereference, index out of range, failed type assertion, write to a nil map or call of a nil function in any function of the parser, whatever the text, also at its end and after errors.",
 ["inputs"],"every text (any runes, any length), every start token, every scope",
 "A nil part of a tree or a missing token shows only for the malformed text that produces it; nobody writes those into tests.",
 ["parser/base.go","parser/expression.go","parser/statement.go","parser/type.go","parser/type_struc.go","parser/type_class.go","parser/function.go","parser/block.go","parser/unit_parser.go","parser/uses_clause.go","parser/program.go"],
 [("recursive descent","parser/*.go"),("token predicates","token/predicator.go"),("scopes","parser/pcontext/*.go")],PAR.replace(" Which texts are accepted is not specified: the property is about every text the parser accepts.","")+" Reading files and putting units in order (LoadFile, LoadUnits, ProcessIntfBody, ProcessImplAndInit, UnitParsers) is outside: LoadUnits has an assumed contract. ParseExportedHeading is proved for calls at FUNCTION or PROCEDURE, where its only caller makes them.")
prop("C06","Parsing always ends",
 "For every text and every scope, reading an expression, statement, type, declaration, class, block, unit or program comes to an end: every loop moves on in the text or shortens what is left to do, and every recursion is on a smaller rest of the text or on a smaller construct at the same place.",
 ["inputs"],"every text (any runes, any length), every start token, every scope",
 "Endless loops and recursions wait at malformed or truncated text (an END that never comes, a separator that is never consumed) and left recursion hides behind optional parts; tests that end prove nothing about the others.",
 ["parser/base.go","parser/expression.go","parser/statement.go","parser/statement_asm.go","parser/type.go","parser/type_struc.go","parser/type_class.go","parser/function.go","parser/block.go","parser/unit_parser.go","token/tokenizer.go"],
 [("list loop","parser/base.go Until"),("recursive descent","parser/*.go")],PAR.replace(" Which texts are accepted is not specified: the property is about every text the parser accepts.","")+" The look-ups along map parents, type aliases and class ancestors are taken to end (their chains to be finite); known finding K02 is a text for which the chain of ancestors is not. LoadFile, LoadUnits and what they call are outside (assumed contract).")
prop("C07","An expression's tree mirrors the text it was read from",
 "For every text and every place in it where the parser reads an expression successfully, the tree it returns spans exactly the tokens consumed, each once and in order: operators with their operands at the precedence of the grammar (relations over sums over products over factors, chains from left to right, one optional sign before a sum), parentheses, NOT, @, NIL, numbers, strings, TRUE and FALSE, sets with elements and ranges, casts, calls with their arguments in order, and designators with field, index and dereference items in order. Names and literals keep the spelling of the text, and identifiers their position. The parser takes the longest such expression, and stands at the token after it.",
 ["inputs"],"every text (any runes, any length), every start token, every scope",
 "The grammar is recursive: expressions nest without bound and operators, sets, casts, calls and designators combine in ways no table of examples covers.",
 ["parser/expression.go","parser/base.go","parser/ident.go","parser/unit.go","ast/astcore/ident.go","token/predicator.go"],
 [("recursive descent","parser/expression.go"),("token stream and rollback","parser/base.go"),("token predicates","token/predicator.go")],PAR)
prop("C14","A name is bound to the declaration visible where it stands",
 "For every text and scope, a name that the parser reads in an expression or designator is bound to the declaration the scope in force gives for it, ignoring letter case: an unqualified name to the innermost declaration, or to none if there is none; a name qualified by a used unit, by this unit or by the program to the declaration in that namespace, never to a local one, and it is an error when there is none. A name followed by '(' is read as a type cast exactly when it is bound to a type declaration, and the cast refers to that declaration; what the parser looked at before deciding leaves no trace.",
 ["inputs","histories"],"every text, every composition of scopes, every history of declarations",
 "Shadowing, namespaces and letter case combine; tests bind a few names in flat scopes.",
 ["parser/unit.go","parser/ident.go","parser/expression.go","parser/pcontext/stackable_context.go","ast/astcore/decl_map.go"],
 [("binding","parser/ident.go NewIdentRef, parser/unit.go ParseQualId"),("cast or call","parser/expression.go ParseFactor")],PAR)
prop("C08","A statement's tree mirrors the text it was read from",
 "For every text and every place in it where the parser reads a statement successfully, the kind of statement is the one its first token names, an optional label and colon come first exactly when the name is declared as a label, and the parts of the tree span the tokens between the words of its grammar rule, in order and without gaps: assignments and calls with their arguments, GOTO, INHERITED, BEGIN..END, IF with its ELSE taken by the nearest IF, CASE with selectors, label ranges and ELSE, REPEAT, WHILE, FOR with its direction, WITH and its names, TRY..EXCEPT with handlers and ELSE, TRY..FINALLY, and RAISE with object and address. Lists keep the order of the text, with one separator between two elements, and the parser stands at the token after the statement.",
 ["inputs"],"every text (any runes, any length), every start token, every scope",
 "Statements nest without bound; optional parts, separators before END and the dangling ELSE combine in ways no table of examples covers.",
 ["parser/statement.go","parser/statement_asm.go","parser/statement_conditional.go","parser/statement_loop.go","parser/statement_raise.go","parser/statement_try.go","parser/statement_with.go","parser/base.go","parser/unit.go"],
 [("statements","parser/statement*.go"),("token stream and rollback","parser/base.go")],PAR+" The statements of an ASM block are not represented in the tree and not specified beyond its first word.")
prop("C09","The tree of a type, declaration, function or block mirrors the text it was read from",
 "For every text and every place in it where the parser reads a type, declaration, section, function or block successfully, the kind of node is the one its first word names, and the parts of the tree span the tokens between the words and symbols of its grammar rule, in order and without gaps: type names with their unit, built-in names, strings with a length, subranges, enumerations, pointers, arrays with index types, sets, files, records with fields, variant parts and nested field lists, procedure and function types with parameter modes, names, types, defaults, result type and OF OBJECT; labels, constants, types with their portability directive, variables with ABSOLUTE or a value, thread variables; functions with heading, directives, EXTERNAL options and block (none exactly when FORWARD or EXTERNAL is written); exports and blocks. PACKED is recorded exactly when it is written. Lists keep the order of the text, and the parser stands at the token after what it read.",
 ["inputs"],"every text (any runes, any length), every start token, every scope",
 "Types and blocks nest without bound (arrays of records with variant parts of pointers, functions in functions); optional parts and separators combine in ways no table of examples covers.",
 ["parser/type.go","parser/type_simple.go","parser/type_string.go","parser/type_struc.go","parser/type_procedure.go","parser/type_variant.go","parser/function_heading.go","parser/function.go","parser/const.go","parser/var.go","parser/block.go","parser/ident_list.go","parser/base.go"],
 [("types","parser/type*.go"),("declarations and sections","parser/const.go, parser/var.go, parser/type.go"),("functions","parser/function.go, parser/function_heading.go"),("blocks","parser/block.go")],PAR)
prop("C10","The tree of a class mirrors the text it was read from",
 "For every text and every place in it where the parser reads a class type successfully, it is a forward declaration exactly when ';' follows CLASS, a class reference exactly when OF does, and otherwise a class whose parts span the tokens in order and without gaps: the ancestors in parentheses, sections with the visibility of their first word (default if there is none) and in each the fields, methods and properties in the order of the text. Fields carry their names and type; methods the heading their first word names (function, procedure, constructor, destructor) and their directives; properties exactly the parts that are written: parameters and type, INDEX, READ, WRITE, STORED, DEFAULT or NODEFAULT, IMPLEMENTS. A name after READ, WRITE or STORED is bound to the member of that name which the class gives, private ones and ancestors included, and an unknown one is an error. A property's parent is the property of its name which the class finds among its members and ancestors, set exactly when the property takes its interface, index, read or write part from it.",
 ["inputs"],"every text (any runes, any length), every start token, every scope, every hierarchy declared before",
 "Sections, optional parts and directives combine freely, and class types nest inside fields; the tests parse a handful of classes.",
 ["parser/type_class.go","ast/type_class.go","parser/function_heading.go"],
 [("classes and sections","parser/type_class.go ParseClassType, ParseClassMemberSection"),("methods","parser/type_class.go ParseClassMethod"),("properties","parser/type_class.go ParseClassProperty")],PAR)
prop("C11","The tree of a unit or program mirrors the text it was read from",
 "For every text that is read successfully as a unit, the tree holds the name after UNIT, its portability directive exactly when one is written, the uses clause of the interface exactly when USES follows INTERFACE, the interface's sections and headings in the order of the text and without gaps up to a reserved word that starts none, then after IMPLEMENTATION its uses clause, sections and exports, an initialization and finalization section exactly when written, and END with a full stop ends it. A uses clause holds exactly the names written, in order, each with the path after IN or none. For a program likewise: its name, uses clause and block, which ends at a full stop.",
 ["inputs"],"every text (any runes, any length), every scope, every list of units and sections",
 "Optional parts and lists of any length combine; the tests parse a few small units.",
 ["parser/unit_parser.go","parser/uses_clause.go","parser/program.go","parser/block.go","ast/unit.go","ast/const.go","ast/var.go","ast/type.go"],
 [("units","parser/unit_parser.go"),("uses clauses","parser/uses_clause.go"),("programs","parser/program.go ParseProgram, ParseProgramBlock"),("declarations of a section","ast/*.go GetDeclNodes")],PAR+" Loading the used units (LoadUnits) has an assumed contract: it leaves the place in the program's text and puts a new scope in force.")
prop("C12","Scopes nest: a declaration is visible from where it stands to the end of its scope, and nowhere else",
 "For every text and scope, reading an expression, statement, type, declaration, function, class or block, and the interface or implementation body of a unit, leaves in force the scope that was in force before, also when reading fails. A label, constant, type, variable, thread variable, enumeration value, parameter or used unit is from then on what its name stands for in the scope open there, ignoring letter case; no declaration of that scope is ever lost or replaced, except that the type declaration which completes a forward declared class takes its place. A function, a class method, the parameters of a property and an exception handler open a scope of their own, empty and in front of the one in force, and what is declared in it is not visible after it: the scope around it keeps exactly the declarations it had.",
 ["inputs","histories"],"every text, every nesting of scopes, every point where reading may fail",
 "Scopes are pushed and popped by deferred closures over shared maps; whether they are balanced on every path, including every error path, cannot be sampled.",
 ["parser/pcontext/stackable_context.go","parser/pcontext/program_context.go","parser/pcontext/unit_context.go","parser/function.go","parser/statement_try.go","parser/type_class.go","parser/type.go","parser/const.go","parser/var.go","parser/block.go","parser/base.go"],
 [("pushing and popping","StackDeclMap in parser/pcontext/*.go and its deferred restore in parser/*.go"),("declaring","p.context.Set in parser/*.go"),("rollback","parser/base.go RollbackPoint")],PAR+" The names of functions themselves are not claimed to be visible outside (see DESIGN.md).")
