From f93bc9bb5e9110b9f4c574cc3e3f1ce76a5fede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 01/21] fix: do not index the empty return type list of a
 function without return value

---
 parser/function.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c330183..fbe4f8a 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -65,10 +65,13 @@ func (e FunctionCall) Args() []Expression {
 func functionValueType(returnTypes []ValueType) ValueType {
 	var valueType ValueType
 
-	if len(returnTypes) > 1 {
-		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
-	} else {
+	switch len(returnTypes) {
+	case 0:
+		valueType = NewValueType(DATA_TYPE_UNKNOWN, false) // The function doesn't return a value.
+	case 1:
 		valueType = returnTypes[0]
+	default:
+		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
 	}
 	return valueType
 }
-- 
2.43.0


From a1d9dc0b4818f753114149cbeb11997cdbe04338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 02/21] fix: limit the nesting of statements and expressions
 instead of exhausting the stack

---
 parser/parser.go | 74 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 73 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 819565f..142e827 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -22,6 +22,14 @@ var typeMapping = map[lexer.VarType]DataType{
 	lexer.DATA_TYPE_ERROR:   DATA_TYPE_STRING, // error is internally just a string to make heandling easier.
 }
 
+// maxNesting limits how deep statements and expressions can be nested and maxOperands limits how many
+// operations can be chained in one expression. Both are far beyond anything a meaningful program contains,
+// they just make sure that the (recursive) evaluation of a program doesn't exhaust the memory.
+const (
+	maxNesting  = 1000
+	maxOperands = 10000
+)
+
 type scope string
 
 const (
@@ -189,6 +197,8 @@ type Parser struct {
 	prefix    string
 	currFunc  string
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	nesting   int                 // Stores how deep the statement/expression which is currently being evaluated is nested.
+	height    int                 // Stores the height of the largest expression tree within the current expression.
 }
 
 func New() Parser {
@@ -422,6 +432,28 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+// enter must be called before a nested element gets evaluated (and leave after it has been evaluated).
+func (p *Parser) enter() error {
+	if p.nesting >= maxNesting {
+		return p.atError(fmt.Sprintf("nesting exceeds %d levels", maxNesting), p.peek())
+	}
+	p.nesting++
+	return nil
+}
+
+func (p *Parser) leave() {
+	p.nesting--
+}
+
+// grow must be called for every operation that is added on top of an expression.
+func (p *Parser) grow(operatorToken lexer.Token) error {
+	if p.height >= maxOperands {
+		return p.atError(fmt.Sprintf("expression exceeds %d operations", maxOperands), operatorToken)
+	}
+	p.height++
+	return nil
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -2136,13 +2168,26 @@ func (p *Parser) evaluateLogicalOr(ctx context) (Expression, error) {
 }
 
 func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
-	return p.evaluateLogicalOr(ctx)
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+	height := p.height
+	p.height = 0
+	expr, err := p.evaluateLogicalOr(ctx)
+	p.height = max(height, p.height+1)
+
+	return expr, err
 }
 
 func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 	var stmt Statement
 	var err error
 
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
 	token := p.peek()
 	tokenType := token.Type()
 
@@ -2228,6 +2273,11 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 		p.eat() // Eat operator token.
 		rightExpression, err := higherPrioOperation(ctx)
 
+		if err != nil {
+			return nil, err
+		}
+		err = p.grow(operatorToken)
+
 		if err != nil {
 			return nil, err
 		}
@@ -2265,8 +2315,19 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 
 	if operatorToken.Type() == lexer.COMPARE_OPERATOR {
 		p.eat() // Eat operator token.
+		err = p.enter()
+
+		if err != nil {
+			return nil, err
+		}
+		defer p.leave()
 		rightExpression, err := p.evaluateComparison(ctx)
 
+		if err != nil {
+			return nil, err
+		}
+		err = p.grow(operatorToken)
+
 		if err != nil {
 			return nil, err
 		}
@@ -2308,6 +2369,11 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		operatorValue := operatorToken.Value()
 		rightExpression, errTemp := higherPrioOperation(ctx)
 
+		if errTemp != nil {
+			return nil, errTemp
+		}
+		errTemp = p.grow(operatorToken)
+
 		if errTemp != nil {
 			return nil, errTemp
 		}
@@ -2481,6 +2547,12 @@ func (p *Parser) evaluateAppCall(ctx context) (Call, error) {
 
 	if p.peek().Type() == lexer.PIPE {
 		p.eat() // Eat pipe token.
+		err = p.enter()
+
+		if err != nil {
+			return nil, err
+		}
+		defer p.leave()
 		nextCall, err := p.evaluateAppCall(ctx)
 
 		if err != nil {
-- 
2.43.0


From fb324ff05c511c76edf241018a7d046ca8b0bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:20 +0000
Subject: [PATCH 03/21] fix: follow the calls of each function only once when
 unused functions are removed

---
 parser/parser.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 142e827..162bd0f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -471,25 +471,20 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 	return nil
 }
 
-func (p *Parser) getUsedFuncs(startFunc string) []string {
-	usedFuncs := []string{}
-	startFunc = strings.TrimSpace(startFunc)
-
-	if usedFuncsTemp, exists := p.usedFuncs[startFunc]; exists {
-		if len(startFunc) > 0 && !slices.Contains(usedFuncs, startFunc) {
-			usedFuncs = append(usedFuncs, startFunc)
-		}
-
-		for _, usedFuncTemp := range usedFuncsTemp {
-			if !slices.Contains(usedFuncs, usedFuncTemp) {
-				usedFuncs = append(usedFuncs, usedFuncTemp)
-			}
-			usedSubFuncs := p.getUsedFuncs(usedFuncTemp)
-
-			for _, usedSubFunc := range usedSubFuncs {
-				if !slices.Contains(usedFuncs, usedSubFunc) {
-					usedFuncs = append(usedFuncs, usedSubFunc)
-				}
+func (p *Parser) getUsedFuncs(startFunc string) map[string]bool {
+	usedFuncs := map[string]bool{}
+	pending := []string{startFunc}
+
+	// Follow the calls of each function only once, no matter how many callers it has.
+	for len(pending) > 0 {
+		lastIndex := len(pending) - 1
+		calledFuncs := p.usedFuncs[pending[lastIndex]]
+		pending = pending[:lastIndex]
+
+		for _, calledFunc := range calledFuncs {
+			if !usedFuncs[calledFunc] {
+				usedFuncs[calledFunc] = true
+				pending = append(pending, calledFunc)
 			}
 		}
 	}
@@ -505,7 +500,7 @@ func (p *Parser) cleanProgram(program Program) (Program, error) {
 		switch stmt.StatementType() {
 		case STATEMENT_TYPE_FUNCTION_DEFINITION:
 			function := stmt.(FunctionDefinition)
-			return !slices.Contains(usedFuncs, function.Name())
+			return !usedFuncs[function.Name()]
 		}
 		return false
 	})
-- 
2.43.0


From 7ddb7f6d0eff7b53607b9f4b2a4936fba7da2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 04/21] fix: parse every imported file once and reject import
 cycles

Import cycles recursed without bound, a file reached via several import paths
was parsed over and over again and its top-level code has been emitted several
times.
---
 parser/parser.go | 147 ++++++++++++++++++++++++++++-------------------
 1 file changed, 87 insertions(+), 60 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 162bd0f..6d6e5d3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -188,6 +188,18 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 	return multi, call
 }
 
+// module is a parsed file.
+type module struct {
+	prefix     string      // Prefix of the module's global names.
+	statements []Statement // The module's own top-level statements (without the ones of its imports).
+}
+
+// loader keeps track of the files of a program. It is shared by the parsers of all these files.
+type loader struct {
+	modules map[string]*module // Maps real file paths to modules (nil if the file is still being parsed).
+	depth   int                // Stores how many imports are currently being parsed.
+}
+
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
@@ -197,6 +209,7 @@ type Parser struct {
 	prefix    string
 	currFunc  string
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	loader    *loader             // Stores which files have already been parsed.
 	nesting   int                 // Stores how deep the statement/expression which is currently being evaluated is nested.
 	height    int                 // Stores the height of the largest expression tree within the current expression.
 }
@@ -204,14 +217,13 @@ type Parser struct {
 func New() Parser {
 	return Parser{
 		usedFuncs: map[string][]string{},
+		loader: &loader{
+			modules: map[string]*module{},
+		},
 	}
 }
 
 func (p *Parser) Parse(path string) (Program, error) {
-	return p.parse(path, false)
-}
-
-func (p *Parser) parse(path string, imported bool) (Program, error) {
 	// If path is relative, make it absolute.
 	if !filepath.IsAbs(path) {
 		pathTemp, err := filepath.Abs(path)
@@ -221,7 +233,15 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		}
 		path = pathTemp
 	}
+	realPath, err := filepath.EvalSymlinks(path)
 
+	if err != nil {
+		return Program{}, err
+	}
+	return p.parse(path, realPath, false)
+}
+
+func (p *Parser) parse(path string, realPath string, imported bool) (Program, error) {
 	// Make sure path exists.
 	if _, err := os.Stat(path); err != nil {
 		return Program{}, err
@@ -248,11 +268,19 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 
 		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
 	}
-	program, err := p.evaluateProgram()
+	p.loader.modules[realPath] = nil // Mark file as being parsed to be able to detect import cycles.
+	imports, statements, err := p.evaluateProgram()
 
 	if err != nil {
 		return Program{}, err
 	}
+	p.loader.modules[realPath] = &module{
+		prefix:     p.prefix,
+		statements: statements,
+	}
+	program := Program{
+		body: append(imports, statements...),
+	}
 
 	// If this is the original program, removed unused stuff.
 	if !imported {
@@ -626,12 +654,42 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 	return stmtCallout(keywordToken, expressions)
 }
 
-func (p *Parser) evaluateProgram() (Program, error) {
+// load returns the module at the given path. If it hasn't been parsed yet, all the statements it consists
+// of are returned as well (including the ones of its imports). Otherwise they are already part of the program.
+func (p *Parser) load(path string) (*module, []Statement, error) {
+	realPath, err := filepath.EvalSymlinks(path)
+
+	if err != nil {
+		return nil, nil, err
+	}
+	if loaded, exists := p.loader.modules[realPath]; exists {
+		if loaded == nil {
+			return nil, nil, fmt.Errorf(`import of "%s" in "%s" causes an import cycle`, path, p.path)
+		}
+		return loaded, nil, nil
+	}
+	if p.loader.depth >= maxNesting {
+		return nil, nil, fmt.Errorf(`import of "%s" in "%s" exceeds %d import levels`, path, p.path, maxNesting)
+	}
+	importParser := New()
+	importParser.loader = p.loader
+	importParser.usedFuncs = p.usedFuncs // All files contribute to the same call graph.
+	p.loader.depth++
+	importedProg, err := importParser.parse(path, realPath, true)
+	p.loader.depth--
+
+	if err != nil {
+		return nil, nil, err
+	}
+	return p.loader.modules[realPath], importedProg.Body(), nil
+}
+
+func (p *Parser) evaluateProgram() (imports []Statement, statements []Statement, err error) {
 	ctx := newContext()
-	statements, err := p.evaluateImports(ctx)
+	imports, err = p.evaluateImports(ctx)
 
 	if err != nil {
-		return Program{}, err
+		return nil, nil, err
 	}
 
 	// Add own hash to imports for easier mapping handling.
@@ -639,23 +697,19 @@ func (p *Parser) evaluateProgram() (Program, error) {
 	err = ctx.addImport(prefix, prefix)
 
 	if err != nil {
-		return Program{}, err
+		return nil, nil, err
 	}
-	statementsTemp, err := p.evaluateBlockContent([]lexer.TokenType{lexer.EOF}, nil, ctx, SCOPE_PROGRAM)
+	statements, err = p.evaluateBlockContent([]lexer.TokenType{lexer.EOF}, nil, ctx, SCOPE_PROGRAM)
 
 	if err != nil {
-		return Program{}, err
+		return nil, nil, err
 	}
-	statements = append(statements, statementsTemp...)
-
-	return Program{
-		body: statements,
-	}, nil
+	return imports, statements, nil
 }
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	var nextToken lexer.Token
-	statementsTemp := []Statement{}
+	statements := []Statement{}
 
 	// Skip empty characters.
 	for {
@@ -718,8 +772,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
-			importParser := New()
-			importedProg, err := importParser.parse(absPath, true)
+			imported, importedStatements, err := p.load(absPath)
 
 			if err != nil {
 				return nil, err
@@ -728,23 +781,28 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if _, exists := ctx.findImport(alias); exists {
 				return nil, fmt.Errorf(`import alias "%s" already exists`, alias)
 			}
-			err = ctx.addImport(alias, importParser.prefix)
+			err = ctx.addImport(alias, imported.prefix)
 
 			if err != nil {
 				return nil, err
 			}
-			statementsTemp = append(statementsTemp, importedProg.Body()...)
+			statements = append(statements, importedStatements...)
 
-			// Import-parser funcs with current parser funcs.
-			for funcName, usedFuncs := range importParser.usedFuncs {
-				if foundUsedFuncs, exists := p.usedFuncs[funcName]; !exists {
-					p.usedFuncs[funcName] = usedFuncs
-				} else {
-					for _, usedFunc := range foundUsedFuncs {
-						if !slices.Contains(foundUsedFuncs, usedFunc) {
-							p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
+			// Add the public variables and functions of the imported module.
+			for _, statement := range imported.statements {
+				switch statement.StatementType() {
+				case STATEMENT_TYPE_VAR_DEFINITION:
+					for _, variable := range statement.(VariableDefinition).Variables() {
+						if variable.Public() {
+							ctx.variables[variable.Name()] = variable
 						}
 					}
+				case STATEMENT_TYPE_FUNCTION_DEFINITION:
+					function := statement.(FunctionDefinition)
+
+					if function.Public() {
+						ctx.functions[function.Name()] = function
+					}
 				}
 			}
 
@@ -763,37 +821,6 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 		}
 	}
-	statements := []Statement{}
-
-	// Add functions add variables.
-	for _, statement := range statementsTemp {
-		exists := false
-
-		switch statement.StatementType() {
-		case STATEMENT_TYPE_VAR_DEFINITION:
-			definedVariable := statement.(VariableDefinition)
-
-			for _, variable := range definedVariable.Variables() {
-				name := variable.Name()
-
-				if _, exists = ctx.variables[name]; !exists && variable.Public() {
-					ctx.variables[name] = variable
-				}
-			}
-		case STATEMENT_TYPE_FUNCTION_DEFINITION:
-			definedFunction := statement.(FunctionDefinition)
-			name := definedFunction.Name()
-
-			if _, exists = ctx.functions[name]; !exists && definedFunction.Public() {
-				ctx.functions[name] = definedFunction
-			}
-		}
-
-		// Prevent code duplication.
-		if !exists {
-			statements = append(statements, statement)
-		}
-	}
 	return statements, nil
 }
 
-- 
2.43.0


From d3501ea59b6f0c05962d557e52519ac2ee2bb114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 05/21] fix: make sure that the name prefix of an imported file
 is unique and doesn't start with a digit

---
 parser/parser.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6d6e5d3..94670db 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -196,8 +196,22 @@ type module struct {
 
 // loader keeps track of the files of a program. It is shared by the parsers of all these files.
 type loader struct {
-	modules map[string]*module // Maps real file paths to modules (nil if the file is still being parsed).
-	depth   int                // Stores how many imports are currently being parsed.
+	modules  map[string]*module // Maps real file paths to modules (nil if the file is still being parsed).
+	prefixes map[string]bool    // Stores which prefixes are in use.
+	depth    int                // Stores how many imports are currently being parsed.
+}
+
+// uniquePrefix turns the hash of a file into the prefix of the file's global names.
+func (l *loader) uniquePrefix(hash string) string {
+	hash = fmt.Sprintf("h%s", hash) // A hash might start with a digit which is not allowed for names.
+	prefix := hash
+
+	// Files might share the same hash (e.g. if they have the same content).
+	for i := 1; l.prefixes[prefix]; i++ {
+		prefix = fmt.Sprintf("%s_%d", hash, i)
+	}
+	l.prefixes[prefix] = true
+	return prefix
 }
 
 type blockCallback func(statements []Statement, last bool) error
@@ -218,7 +232,8 @@ func New() Parser {
 	return Parser{
 		usedFuncs: map[string][]string{},
 		loader: &loader{
-			modules: map[string]*module{},
+			modules:  map[string]*module{},
+			prefixes: map[string]bool{},
 		},
 	}
 }
@@ -266,7 +281,7 @@ func (p *Parser) parse(path string, realPath string, imported bool) (Program, er
 		h := sha256.New()
 		h.Write(source)
 
-		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		p.prefix = p.loader.uniquePrefix(fmt.Sprintf("%x", h.Sum(nil))[0:7]) // Only use the 7 first characters (inspired by Git).
 	}
 	p.loader.modules[realPath] = nil // Mark file as being parsed to be able to detect import cycles.
 	imports, statements, err := p.evaluateProgram()
-- 
2.43.0


From 5966aaa5ccecf1af1b760bb21fa5406ea3e07b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:37 +0000
Subject: [PATCH 06/21] fix: make the global variables of an imported file
 accessible within its functions and blocks

---
 parser/parser.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 94670db..1e6ae84 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -134,8 +134,12 @@ func (c context) findImport(alias string) (string, bool) {
 	return hash, exists
 }
 
-func (c context) findVariable(name string, prefix string, global bool) (Variable, bool) {
-	prefixedName, err := c.buildPrefixedName(name, prefix, global, true)
+func (c context) findVariable(name string, prefix string) (Variable, bool) {
+	// Local variables don't have a prefix.
+	if variable, exists := c.variables[strings.TrimSpace(name)]; exists {
+		return variable, true
+	}
+	prefixedName, err := c.buildPrefixedName(name, prefix, true, true)
 
 	if err != nil {
 		return Variable{}, false
@@ -506,7 +510,7 @@ func (p *Parser) isShortVarInit() bool {
 
 func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error {
 	name := token.Value()
-	_, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	_, exists := ctx.findVariable(name, p.prefix)
 
 	if exists {
 		return p.atError(fmt.Sprintf("variable %s has already been defined", name), token)
@@ -1121,7 +1125,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		prefix := p.prefix
 		global := ctx.global()
 		name := nameToken.Value()
-		variable, exists := ctx.findVariable(name, prefix, global)
+		variable, exists := ctx.findVariable(name, prefix)
 		variableValueType := variable.ValueType()
 
 		// If the variable already exists, make sure it has the same type as the specified type.
@@ -1266,7 +1270,7 @@ func (p *Parser) evaluateCompoundAssignment(ctx context) (Statement, error) {
 	name := nameToken.Value()
 
 	// Make sure variable has been defined.
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1337,7 +1341,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		name := nameToken.Value()
 
 		// Make sure variable has been defined.
-		definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+		definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 		if !exists {
 			return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1348,7 +1352,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		if valueType != expectedValueType {
 			return nil, p.expectedError(fmt.Sprintf("%s but got %s", expectedValueType.String(), valueType.String()), valuesToken)
 		}
-		variables = append(variables, NewVariable(name, valueType, ctx.global(), isPublic(name)))
+		variables = append(variables, definedVariable)
 	}
 
 	if isMultiReturnFuncCall {
@@ -1380,7 +1384,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		p.eat()
 
 		name := nameToken.Value()
-		_, exists := ctx.findVariable(name, p.prefix, false)
+		_, exists := ctx.findVariable(name, p.prefix)
 
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
@@ -2023,7 +2027,7 @@ func (p *Parser) evaluateVarEvaluation(ctx context) (Expression, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
@@ -2267,7 +2271,7 @@ func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 					stmt, err = p.evaluateVarAssignment(ctx)
 				default:
 					// Handle slice assignment.
-					variable, exists := ctx.findVariable(token.Value(), p.prefix, ctx.global())
+					variable, exists := ctx.findVariable(token.Value(), p.prefix)
 
 					// If variable has been defined and is a slice, handles slice assignment.
 					if exists && variable.ValueType().IsSlice() {
@@ -2782,7 +2786,7 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 		return nil, p.expectedError("slice variable", nameToken)
 	}
 	name := nameToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -2844,7 +2848,7 @@ func (p *Parser) evaluateIncrementDecrement(ctx context) (Statement, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
-- 
2.43.0


From a56a1e78a9c39c042b9b988c446553020ca6d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 07/21] fix: fall back to the standard library only if the
 imported file doesn't exist

---
 parser/parser.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1e6ae84..58705d5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -770,23 +770,20 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			aliasLen := len(alias)
 
 			// If path doesn't exist, try to find it in the standard library.
-			if _, err := os.Stat(absPath); err != nil {
+			if _, err := os.Stat(absPath); errors.Is(err, os.ErrNotExist) {
 				ex, err := os.Executable()
 
 				if err != nil {
 					return nil, err
 				}
 				pathWithoutExt := strings.TrimSuffix(path, filepath.Ext(path))
-				absPathTemp := filepath.Join(filepath.Dir(ex), "std", fmt.Sprintf("%s.tsh", pathWithoutExt)) // Standart library is at <executable-path>/std.
+				absPath = filepath.Join(filepath.Dir(ex), "std", fmt.Sprintf("%s.tsh", pathWithoutExt)) // Standart library is at <executable-path>/std.
 
-				// If path exists, use it.
-				if _, err := os.Stat(absPath); err != nil {
-					absPath = absPathTemp
-
-					if aliasLen == 0 {
-						alias = filepath.Base(pathWithoutExt)
-					}
+				if aliasLen == 0 {
+					alias = filepath.Base(pathWithoutExt)
 				}
+			} else if err != nil {
+				return nil, err
 			} else if aliasLen == 0 {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
-- 
2.43.0


From 4659d710c46d7ea2aea4a222d290f753fbbf72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 08/21] fix: return an error for a Batch break outside of a
 loop instead of indexing an empty label stack

---
 converters/batch/converter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2d11ebc..176b6d0 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -1,6 +1,7 @@
 package batch
 
 import (
+	"errors"
 	"fmt"
 	"slices"
 	"strconv"
@@ -383,6 +384,10 @@ func (c *converter) ForEnd() error {
 }
 
 func (c *converter) Break() error {
+	// A break within a switch which isn't part of a loop has no label to go to.
+	if len(c.endLabels) == 0 {
+		return errors.New("break is only supported within loops")
+	}
 	c.addLine(fmt.Sprintf("goto %s", c.mustCurrentEndLabel()))
 	return nil
 }
-- 
2.43.0


From af7501c9f3060df6d554d1f5886d4f427ed26d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 09/21] fix: use a converter of its own for each requested
 target

---
 tsh.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tsh.go b/tsh.go
index 92bab69..e1f54fc 100644
--- a/tsh.go
+++ b/tsh.go
@@ -16,9 +16,11 @@ const (
 	typeBash  string = "bash"
 )
 
-var convMapping = map[string]transpiler.Converter{
-	typeBatch: batch.New(),
-	typeBash:  bash.New(),
+// Converters collect the code of a single transpilation, therefore each target
+// requires its own instance.
+var convMapping = map[string]func() transpiler.Converter{
+	typeBatch: func() transpiler.Converter { return batch.New() },
+	typeBash:  func() transpiler.Converter { return bash.New() },
 }
 
 type options struct {
@@ -58,12 +60,12 @@ func parseOptions() options {
 			}
 			options.out = cValue
 		case "-t", "--type":
-			conv, ok := convMapping[cValue]
+			newConverter, ok := convMapping[cValue]
 
 			if !ok {
 				panic(fmt.Errorf("unknown converter type %s. Allowed types are %s", cValue, strings.Join(types, ", ")))
 			}
-			options.converters = append(options.converters, conv)
+			options.converters = append(options.converters, newConverter())
 		default:
 			panic(fmt.Errorf("unknown option %s", cSwitch))
 		}
-- 
2.43.0


From 3e3760f35718cff130a1d3261c8924103abe7e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 10/21] fix: reject an option without a value instead of
 ignoring it

---
 tsh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index e1f54fc..fc208d5 100644
--- a/tsh.go
+++ b/tsh.go
@@ -38,8 +38,12 @@ func parseOptions() options {
 		types = append(types, k)
 	}
 
-	for i := 1; i < (len(args) - 1); i += 2 {
+	for i := 1; i < len(args); i += 2 {
 		cSwitch := args[i]
+
+		if i == len(args)-1 {
+			panic(fmt.Errorf("no value provided for option %s", cSwitch))
+		}
 		cValue := args[i+1]
 
 		switch cSwitch {
-- 
2.43.0


From 3a8a7f0f27aa0c41a8100799a999a4f866ae0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 11/21] fix: report write errors and never leave a partial
 output file or overwrite the input file

---
 tsh.go | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index fc208d5..c9f0f4e 100644
--- a/tsh.go
+++ b/tsh.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -85,6 +86,43 @@ func parseOptions() options {
 	return options
 }
 
+// writeOutput replaces the output file as a whole, so that a failed write never
+// leaves a new or changed output file.
+func writeOutput(path string, in string, data []byte) error {
+	// Make sure the output is not the input file.
+	if outStat, err := os.Stat(path); err == nil {
+		inStat, err := os.Stat(in)
+
+		if err != nil {
+			return err
+		} else if os.SameFile(outStat, inStat) {
+			return fmt.Errorf("output file %s is the input file", path)
+		}
+	} else if !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	temp := filepath.Join(filepath.Dir(path), fmt.Sprintf(".tsh-%d.tmp", os.Getpid()))
+	file, err := os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0777)
+
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(data)
+
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(temp, path)
+	}
+
+	if err != nil {
+		os.Remove(temp)
+	}
+	return err
+}
+
 func main() {
 	options := parseOptions()
 	t := transpiler.New()
@@ -99,6 +137,10 @@ func main() {
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
 
-		os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		err = writeOutput(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), in, []byte(dump))
+
+		if err != nil {
+			panic(err)
+		}
 	}
 }
-- 
2.43.0


From 1b3beecb2ca7aa0f5cee9d9cc119e6e6ac8da72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:59 +0000
Subject: [PATCH 12/21] fix: do not share the converter between the
 transpilations of a transpiler object

---
 transpiler/transpiler.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 6787bb6..4dc55bc 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -58,13 +58,16 @@ func (t *transpiler) Transpile(path string, converter Converter) (string, error)
 	if err != nil {
 		return "", err
 	}
-	t.converter = converter
-	err = t.evaluate(ast)
+
+	// The transpiler object might be used for another transpilation meanwhile,
+	// therefore the converter must not be stored in it.
+	run := transpiler{converter: converter}
+	err = run.evaluate(ast)
 
 	if err != nil {
 		return "", err
 	}
-	return t.converter.Dump()
+	return run.converter.Dump()
 }
 
 func (t *transpiler) evaluateValueTypeDefaultValue(valueType parser.ValueType) (string, error) {
-- 
2.43.0


From b608ceefe2cd67ed091c39f31fddb2724db26778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 13/21] fix: do not share the increment flag between nested
 Bash loops

---
 converters/bash/converter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c388c71..91db879 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -19,6 +19,7 @@ type converter struct {
 	code                          []string
 	varCounter                    int
 	forCounter                    int
+	fors                          []int
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -167,6 +168,10 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	// Nested loops must not share their increment flag.
+	c.fors = append(c.fors, c.forCounter)
+	c.forCounter++
+
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.addLine("while true; do")
 	return nil
@@ -190,8 +195,9 @@ func (c *converter) ForCondition(condition string) error {
 
 func (c *converter) ForEnd() error {
 	c.addLine("done")
-	c.forCounter++
 
+	lastIndex := len(c.fors) - 1
+	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
 	return nil
 }
 
@@ -542,7 +548,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter)
+	return fmt.Sprintf("_fv%d", c.fors[len(c.fors)-1])
 }
 
 func (c *converter) varName(name string, global bool) string {
-- 
2.43.0


From c70b88c2ada032d24a9b61f73d4432f36286a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:03 +0000
Subject: [PATCH 14/21] fix: do not expand slice values a second time within
 eval

---
 converters/bash/converter.go | 63 ++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 91db879..7c7e3d5 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -14,17 +14,18 @@ type funcInfo struct {
 }
 
 type converter struct {
-	interpreter                   string
-	startCode                     []string
-	code                          []string
-	varCounter                    int
-	forCounter                    int
-	fors                          []int
-	funcs                         []funcInfo
-	funcCounter                   int
-	sliceAssignmentHelperRequired bool
-	sliceCopyHelperRequired       bool
-	stringSubscriptHelperRequired bool
+	interpreter                      string
+	startCode                        []string
+	code                             []string
+	varCounter                       int
+	forCounter                       int
+	fors                             []int
+	funcs                            []funcInfo
+	funcCounter                      int
+	sliceInstantiationHelperRequired bool
+	sliceAssignmentHelperRequired    bool
+	sliceCopyHelperRequired          bool
+	stringSubscriptHelperRequired    bool
 }
 
 func New() *converter {
@@ -58,6 +59,16 @@ func (c *converter) ProgramStart() error {
 }
 
 func (c *converter) ProgramEnd() error {
+	if c.sliceInstantiationHelperRequired {
+		// $1: Slice name
+		// $2...: Values
+		c.addHelper("slice instantiation", "_sih",
+			"local _n=${1}",
+			"shift",
+			`eval "${_n}=(\"\${@}\")"`,
+		)
+	}
+
 	if c.sliceAssignmentHelperRequired {
 		// $1: Slice name
 		// $2: Assignment index
@@ -67,9 +78,9 @@ func (c *converter) ProgramEnd() error {
 			"local _i=${2}",
 			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${1}")),
 			`for ((_c=${_l};_c<${_i};_c++)); do`,
-			c.sliceAssignmentString("${1}", "${_c}", "${4}", false),
+			c.sliceAssignmentString("${1}", "${_c}", "${4}"),
 			`done`,
-			c.sliceAssignmentString("${1}", "${_i}", "${3}", false),
+			c.sliceAssignmentString("${1}", "${_i}", "${3}"),
 		)
 	}
 
@@ -78,9 +89,10 @@ func (c *converter) ProgramEnd() error {
 			"local _i=0",
 			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${2}")),
 			"local _n=$(eval \"echo \\${${1}}\")",
+			"local _v",
 			"while [ ${_i} -lt ${_l} ]; do",
-			fmt.Sprintf("local _v=%s", c.sliceEvaluationString("${2}", "${_i}")),
-			c.sliceAssignmentString("${_n}", "${_i}", "${_v}", false),
+			c.sliceEvaluationString("_v", "${2}", "${_i}"),
+			c.sliceAssignmentString("${_n}", "${_i}", "${_v}"),
 			"_i=$((${_i}+1))",
 			"done",
 		)
@@ -390,20 +402,17 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 		vals := ""
 
 		for _, value := range values {
-			vals = fmt.Sprintf(`%s \"%s\"`, vals, value)
+			vals = fmt.Sprintf(`%s "%s"`, vals, value)
 		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), strings.TrimSpace(vals)))
+		c.sliceInstantiationHelperRequired = true
+		c.addLine(fmt.Sprintf(`_sih %s%s`, c.varEvaluationString(helper, false), vals))
 	}
 	return c.varEvaluationString(helper, false), nil
 }
 
 func (c *converter) SliceEvaluation(name string, index string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(
-		helper,
-		c.sliceEvaluationString(name, index),
-		false,
-	)
+	c.addLine(c.sliceEvaluationString(c.varName(helper, false), name, index))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -576,13 +585,13 @@ func (c *converter) varEvaluationString(name string, global bool) string {
 	return fmt.Sprintf("${%s}", c.varName(name, global))
 }
 
-func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
-	c.sliceAssignmentHelperRequired = true
-	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
+// The value must be a variable. It's not expanded before eval runs, therefore its content is not evaluated.
+func (c *converter) sliceAssignmentString(name string, index string, value string) string {
+	return fmt.Sprintf(`eval "%s[%s]=\%s"`, name, index, value)
 }
 
-func (c *converter) sliceEvaluationString(name string, index string) string {
-	return fmt.Sprintf(`$(eval "echo \${%s[%s]}")`, name, index)
+func (c *converter) sliceEvaluationString(target string, name string, index string) string {
+	return fmt.Sprintf(`eval "%s=\${%s[%s]}"`, target, name, index)
 }
 
 func (c *converter) sliceLenString(name string) string {
-- 
2.43.0


From c78ec4d0fb92e54267093a787770c950f1bb990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:48 +0000
Subject: [PATCH 15/21] fix: escape string literals within Bash code and always
 quote assigned values

---
 converters/bash/converter.go | 17 ++++-------------
 std/os.tsh                   |  2 +-
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 7c7e3d5..067a46e 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -35,8 +35,9 @@ func New() *converter {
 	}
 }
 
+// Escapes characters which have a special meaning within double quotes.
 func (c *converter) StringToString(value string) string {
-	return value
+	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `$`, `\$`, "`", "\\`").Replace(value)
 }
 
 func (c *converter) Dump() (string, error) {
@@ -293,7 +294,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-			c.VarAssignment(helper, fmt.Sprintf("\"%s%s\"", left, right), false)
+			c.VarAssignment(helper, fmt.Sprintf("%s%s", left, right), false)
 		default:
 			return notAllowedError()
 		}
@@ -568,17 +569,7 @@ func (c *converter) varName(name string, global bool) string {
 }
 
 func (c *converter) varAssignmentString(name string, value string, global bool) string {
-	length := len(value)
-
-	if length > 0 {
-		if string(value[length-1]) != `"` {
-			value = fmt.Sprintf(`%s"`, value)
-		}
-		if string(value[0]) != `"` {
-			value = fmt.Sprintf(`"%s`, value)
-		}
-	}
-	return fmt.Sprintf("%s=%s", c.varName(name, global), value)
+	return fmt.Sprintf(`%s="%s"`, c.varName(name, global), value)
 }
 
 func (c *converter) varEvaluationString(name string, global bool) string {
diff --git a/std/os.tsh b/std/os.tsh
index de27e0d..d01c2cc 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -5,7 +5,7 @@ func Shell() string {
 	if win[:3] == "Win" {
 		shell = "batch"
 	} else {
-		stdout, stderr, code := @ps("-p", "$$", "-o", "args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", `"[0-9a-zA-Z][0-9a-zA-Z]*$"`)
+		stdout, stderr, code := @sh("-c", "ps -p $PPID -o args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", "[0-9a-zA-Z][0-9a-zA-Z]*$")
 		shell = stdout
 	}
 	return shell
-- 
2.43.0


From a56990c67e5f7f5fd722084ad1373c8ca74071b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 16/21] fix: do not interpret printed values as options of echo

---
 converters/bash/converter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 067a46e..d4b5e92 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -225,12 +225,12 @@ func (c *converter) Continue() error {
 }
 
 func (c *converter) Print(values []string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", strings.Join(values, " ")))
+	c.addLine(fmt.Sprintf(`printf '%%s\n' "%s"`, strings.Join(values, " ")))
 	return nil
 }
 
 func (c *converter) Panic(value string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", value))
+	c.addLine(fmt.Sprintf(`printf '%%s\n' "%s"`, value))
 	c.addLine("exit 1")
 	return nil
 }
-- 
2.43.0


From a9d6df3306936e520c67a27edd84c48095db2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:10 +0000
Subject: [PATCH 17/21] fix: write and read file contents and paths unchanged

---
 converters/bash/converter.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index d4b5e92..c983017 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -236,10 +236,11 @@ func (c *converter) Panic(value string) error {
 }
 
 func (c *converter) WriteFile(path string, content string, append string) error {
-	helper := c.nextHelperVar()
-
-	c.VarAssignment(helper, fmt.Sprintf(`$(if [ "%s" -eq "%s" ]; then echo ">>"; else echo ">"; fi)`, append, transpiler.BoolToString(true)), false)
-	c.addLine(fmt.Sprintf(`eval "echo \"%s\" %s %s"`, content, c.varEvaluationString(helper, false), path))
+	c.addLine(fmt.Sprintf(`if [ "%s" -eq "%s" ]; then`, append, transpiler.BoolToString(true)))
+	c.addLine(fmt.Sprintf(`printf '%%s\n' "%s" >> "%s"`, content, path))
+	c.addLine("else")
+	c.addLine(fmt.Sprintf(`printf '%%s\n' "%s" > "%s"`, content, path))
+	c.addLine("fi")
 	return nil
 }
 
@@ -553,10 +554,22 @@ func (c *converter) Exists(path string, valueUsed bool) (string, error) {
 
 func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, fmt.Sprintf("$(cat \"%s\")", path), false)
+
+	// The additional character prevents the command substitution from removing all trailing newlines, only the
+	// one which terminates the last line must be removed.
+	c.VarAssignment(helper, fmt.Sprintf(`$(cat < "%s"; echo .)`, path), false)
+	c.trimOutput(helper)
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
+// trimOutput removes the additional character and one newline from a command's output.
+func (c *converter) trimOutput(helper string) {
+	name := c.varName(helper, false)
+
+	c.VarAssignment(helper, fmt.Sprintf("${%s%%.}", name), false)
+	c.VarAssignment(helper, fmt.Sprintf(`${%s%%$'\n'}`, name), false)
+}
+
 func (c *converter) mustCurrentForVar() string {
 	return fmt.Sprintf("_fv%d", c.fors[len(c.fors)-1])
 }
-- 
2.43.0


From 1dcaf32e8541484454825a9550f68d14d68a28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:54 +0000
Subject: [PATCH 18/21] fix: pass arguments of program calls unchanged and keep
 their output except for one trailing newline

---
 converters/bash/converter.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c983017..65a1239 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -482,23 +482,21 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		argsCopy := call.Args()
 
 		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "$") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf("\"%s\"", arg)
-			}
-			argsCopy[j] = arg
+			argsCopy[j] = fmt.Sprintf(`"%s"`, arg)
 		}
 		space := ""
 
 		if len(argsCopy) > 0 {
 			space = " "
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		// A program might have the same name as a function of the script.
+		callStrings = append(callStrings, fmt.Sprintf(`command "%s"%s%s`, c.StringToString(call.Name()), space, strings.Join(argsCopy, " ")))
 	}
 	callString := strings.Join(callStrings, " | ")
 
 	if valueUsed {
-		callString = fmt.Sprintf("$(%s)", callString)
+		// The additional character prevents the command substitution from removing more than one trailing newline.
+		callString = fmt.Sprintf("$(%s; _s=$?; echo .; exit ${_s})", callString)
 		helper1 := c.nextHelperVar()
 		helper2 := c.nextHelperVar()
 
@@ -509,6 +507,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 			return nil, err
 		}
 		c.VarDefinition(helper2, "$?", false)
+		c.trimOutput(helper1)
 		return []string{eval, "", c.varEvaluationString(helper2, false)}, nil // TODO: Return stderr (https://github.com/monstermichl/TypeShell/issues/28).
 	}
 	c.addLine(callString)
-- 
2.43.0


From f8691f7a71a495b924a27afe95b03f64a3cb6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:02 +0000
Subject: [PATCH 19/21] fix: read the input unchanged and make it available
 within functions

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 65a1239..e7376ff 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -520,7 +520,7 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	if len(prompt) > 0 {
 		prompt = fmt.Sprintf(" -p \"%s\"", prompt)
 	}
-	c.addLine(fmt.Sprintf("read%s %s", prompt, helper))
+	c.addLine(fmt.Sprintf("IFS= read -r%s %s", prompt, c.varName(helper, false)))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From b5cc7ade8aba411d0dd3e27870ebc591799292d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:27 +0000
Subject: [PATCH 20/21] fix: do not take a program name for an option

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index e7376ff..a8ee5f2 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -490,7 +490,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 			space = " "
 		}
 		// A program might have the same name as a function of the script.
-		callStrings = append(callStrings, fmt.Sprintf(`command "%s"%s%s`, c.StringToString(call.Name()), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, fmt.Sprintf(`command -- "%s"%s%s`, c.StringToString(call.Name()), space, strings.Join(argsCopy, " ")))
 	}
 	callString := strings.Join(callStrings, " | ")
 
-- 
2.43.0


From 76fc563bc23e2555c30e167b3a92aba596291be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 21/21] fix: pass the tenth and every further argument of a
 function

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index a8ee5f2..ac56e26 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -132,7 +132,7 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 	c.addLine(fmt.Sprintf("%s() {", name))
 
 	for i, param := range params {
-		s := c.varAssignmentString(param, fmt.Sprintf("$%d", i+1), false)
+		s := c.varAssignmentString(param, fmt.Sprintf("${%d}", i+1), false)
 		c.addLine(fmt.Sprintf("local %s", s))
 	}
 	return nil
-- 
2.43.0

