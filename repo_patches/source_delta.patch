From bf883bcfb7e42353a08d59c3da52e238e27a66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 01/25] fix: reject malformed method annotations instead of
 hanging or swallowing the next token

---
 schema/ridl/service_parser.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 1ba8f72..246b743 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -192,6 +192,10 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 	for {
 		annotationMatches, err := p.match(matcher...)
 		if err != nil {
+			if p.cursor().tt == tokenAt {
+				// '@' must be followed by an annotation name
+				return nil, err
+			}
 			break
 		}
 
@@ -212,22 +216,23 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 
 		p.next()
 
-		// @acl:admin
-		if p.cursor() != eofToken && p.cursor().tt == tokenWord {
+		switch p.cursor().tt {
+		case tokenWord:
+			// @acl:admin
 			annotation.value = newTokenNode(p.cursor())
-		}
+			p.next()
 
-		// @auth:"cookies,authorization,query"
-		if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+		case tokenQuote:
+			// @auth:"cookies,authorization,query"
 			annotationValue, err := p.expectStringValue()
 			if err != nil {
 				return nil, fmt.Errorf("parse string value: %w", err)
 			}
-
 			annotation.value = newTokenNode(annotationValue)
-		}
 
-		p.next()
+		default:
+			return nil, errUnexpectedToken
+		}
 
 		annotations = append(annotations, annotation)
 	}
-- 
2.43.0


From 3e1259191f364ea53ad8f47cc1b28b5b9370a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 02/25] fix: don't swallow tokens after succinct arguments and
 before the errors clause

---
 schema/ridl/service_parser.go | 7 ++++++-
 schema/ridl/type_parser.go    | 3 +--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 246b743..b868866 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -106,7 +106,12 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 
 		// Check for optional errors clause
 		matches, err = p.match(tokenWhitespace, tokenWord)
-		if err == nil && matches[1].val == wordErrors {
+		if err == nil {
+			if err := expectWord(matches[1], wordErrors); err != nil {
+				p.rewind(1)
+				return p.stateError(err)
+			}
+
 			// Parse bar-separated list of error names
 			errorNames, err := p.expectErrorList()
 			if err != nil {
diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 3dc8ca6..adf86b5 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -93,8 +93,7 @@ loop:
 						inlineStruct: newTokenNode(matches[0]),
 					})
 
-					tokens = append(tokens, tok)
-					p.next()
+					tokens = append(tokens, matches...)
 					break loop
 				}
 			}
-- 
2.43.0


From 577379b2d89bf2a22c54fc81d87378722f854c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 03/25] fix: reject a misplaced stream keyword instead of
 ignoring it

---
 schema/ridl/type_parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index adf86b5..de8cc7b 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -47,13 +47,6 @@ loop:
 func (p *parser) expectArgumentList() ([]*ArgumentNode, error) {
 	values := []*ArgumentNode{}
 
-	matches, err := p.match(tokenWord, tokenWhitespace)
-	if err == nil {
-		if matches[0].val != "stream" {
-			return nil, errUnexpectedToken
-		}
-	}
-
 	tok, err := p.match(tokenOpenParen)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 855638016687dcbeff6f0918fcb7b0b4fcab2b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 04/25] fix: don't treat a NUL character in RIDL source as end
 of file

---
 schema/ridl/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/lexer.go b/schema/ridl/lexer.go
index 025687a..e6e5c15 100644
--- a/schema/ridl/lexer.go
+++ b/schema/ridl/lexer.go
@@ -328,7 +328,8 @@ func lexDefaultState(lx *lexer) lexState {
 	r := lx.peek()
 
 	switch {
-	case isEmpty(r):
+	case isEmpty(r) && lx.pos >= lx.length:
+		// end of input, as opposed to a NUL character within the source
 		return nil
 
 	case isQuote(r):
-- 
2.43.0


From 22e2c03fe37644cb6437b240780c8bf39e6edeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 05/25] fix: report out-of-range error codes and HTTP statuses
 instead of clamping them

---
 schema/ridl/ridl.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index da54a97..1ab1166 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -304,12 +304,18 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 	// error types
 	for _, line := range q.root.Errors() {
 		var errorType schema.Error
-		code, _ := strconv.ParseInt(line.code.String(), 10, 32)
+		code, err := strconv.ParseInt(line.code.String(), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("error %q: invalid code: %w", line.name, err)
+		}
 		errorType.Code = int(code)
 		errorType.Name = line.name.String()
 		errorType.Message = line.message.String()
 		if line.httpStatus != nil {
-			httpStatus, _ := strconv.ParseInt(line.httpStatus.String(), 10, 32)
+			httpStatus, err := strconv.ParseInt(line.httpStatus.String(), 10, 32)
+			if err != nil {
+				return nil, fmt.Errorf("error %q: invalid HTTP status code: %w", line.name, err)
+			}
 			errorType.HTTPStatus = int(httpStatus)
 		} else {
 			errorType.HTTPStatus = 400 // Default HTTP status code
-- 
2.43.0


From 60a218053cbb93f018fdeb5e1c422f6c0577e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 06/25] fix: don't duplicate services imported along several
 paths

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 1ab1166..b3ca8df 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -193,7 +193,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 				}
 			}
 			for i := range imported.Services {
-				if isImportAllowed(imported.Services[i].Name, members) {
+				if !slices.Contains(s.Services, imported.Services[i]) && isImportAllowed(imported.Services[i].Name, members) {
 					s.Services = append(s.Services, imported.Services[i])
 				}
 			}
-- 
2.43.0


From baa37039c5396d87c16dcd6522eccb6904ba2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 07/25] fix: reject undeclared and non-enum map key types (nil
 dereference, case-insensitive match)

---
 schema/var_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index b358507..1db73aa 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -138,8 +138,8 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 				Value: &VarType{},
 			}
 		} else {
-			t := schema.GetTypeByName(key)
-			if t == nil || t.Kind != "enum" && t.Type.Type != T_Enum {
+			t, ok := getType(schema, key)
+			if !ok || t.Kind != TypeKind_Enum && (t.Type == nil || t.Type.Type != T_Enum) {
 				return fmt.Errorf("schema error: invalid map key '%s' for '%s'", key, expr)
 			}
 			vt.Map = &VarMapType{
-- 
2.43.0


From 45844e5cc4cdb16edcab980b37afc84206419261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 08/25] fix: reject list and map types without an element type

---
 schema/var_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 1db73aa..875f800 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -90,7 +90,7 @@ type VarAliasType struct {
 
 func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 	if expr == "" {
-		return nil
+		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	vt.Expr = expr
 
-- 
2.43.0


From 2875cd228bbecbe329fe5d942686adc2231d9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 09/25] fix: reject null definitions and missing types instead
 of panicking

---
 schema/schema.go   | 56 ++++++++++++++++++++++++++++++++++++++++++++++
 schema/var_type.go |  2 +-
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/schema/schema.go b/schema/schema.go
index 78ed123..5579d11 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -29,6 +29,14 @@ type WebRPCSchema struct {
 // Validate validates the schema through the AST, intended to be called after
 // the json has been unmarshalled
 func (s *WebRPCSchema) Validate() error {
+	if s == nil {
+		return fmt.Errorf("schema error: schema cannot be empty")
+	}
+
+	if err := s.validateNoNulls(); err != nil {
+		return err
+	}
+
 	if s.WebrpcVersion != SCHEMA_VERSION {
 		return fmt.Errorf("webrpc schema version, '%s' is invalid, try '%s'", s.WebrpcVersion, SCHEMA_VERSION)
 	}
@@ -90,6 +98,54 @@ func (s *WebRPCSchema) Validate() error {
 	return nil
 }
 
+// validateNoNulls rejects null definitions, which can be present in the json file.
+func (s *WebRPCSchema) validateNoNulls() error {
+	for _, t := range s.Types {
+		if t == nil {
+			return fmt.Errorf("schema error: type definition cannot be null")
+		}
+		for _, field := range t.Fields {
+			if field == nil {
+				return fmt.Errorf("schema error: field definition cannot be null in type '%s'", t.Name)
+			}
+		}
+	}
+
+	for _, e := range s.Errors {
+		if e == nil {
+			return fmt.Errorf("schema error: error definition cannot be null")
+		}
+	}
+
+	for _, svc := range s.Services {
+		if svc == nil {
+			return fmt.Errorf("schema error: service definition cannot be null")
+		}
+		for _, method := range svc.Methods {
+			if method == nil {
+				return fmt.Errorf("schema error: method definition cannot be null in service '%s'", svc.Name)
+			}
+			for _, input := range method.Inputs {
+				if input == nil {
+					return fmt.Errorf("schema error: input argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
+				}
+			}
+			for _, output := range method.Outputs {
+				if output == nil {
+					return fmt.Errorf("schema error: output argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
+				}
+			}
+			for name, annotation := range method.Annotations {
+				if annotation == nil {
+					return fmt.Errorf("schema error: annotation '%s' cannot be null for method '%s' in service '%s'", name, method.Name, svc.Name)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func (s *WebRPCSchema) SchemaHash() (string, error) {
 	// TODO: lets later make this even more deterministic in face of re-ordering
 	// definitions within the ridl file
diff --git a/schema/var_type.go b/schema/var_type.go
index 875f800..f731796 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -53,7 +53,7 @@ func (t *VarType) UnmarshalJSON(b []byte) error {
 }
 
 func (t *VarType) Parse(schema *WebRPCSchema) error {
-	if t.Expr == "" {
+	if t == nil || t.Expr == "" {
 		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	err := ParseVarTypeExpr(schema, t.Expr, t)
-- 
2.43.0


From 28b276adbd9f4438c5a06f7a7b665f604c17908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 10/25] fix: resolve alias targets and enum base types when
 validating a schema

---
 schema/type.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/type.go b/schema/type.go
index 9c01264..b0b8632 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -67,7 +67,7 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return nil
+		return t.Type.Parse(schema)
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
@@ -142,6 +142,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if !isValidVarType(fieldType.String(), validCoreTypes) {
 			return fmt.Errorf("schema error: enum '%s' field '%s' is invalid. must be an integer type", t.Name, fieldType.String())
 		}
+		if err := fieldType.Parse(schema); err != nil {
+			return err
+		}
 	}
 
 	// For structs only
-- 
2.43.0


From b20c44ba80cd396807b19491145b7da2e074b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 11/25] fix: keep alias types and terminate on recursive types
 in MethodTreeShake

---
 schema/schema.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index 5579d11..d5b3aa3 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -260,12 +260,13 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Struct type: mark and traverse its fields
 		if vt.Struct != nil && vt.Struct.Type != nil {
 			t := vt.Struct.Type
-			if t.Name != "" {
+			// Traverse struct fields to include transitive type usage,
+			// visit each (possibly recursive) struct just once
+			if !mark[t.Name] {
 				mark[t.Name] = true
-			}
-			// Traverse struct fields to include transitive type usage
-			for _, f := range t.Fields {
-				walkVarType(f.Type, mark)
+				for _, f := range t.Fields {
+					walkVarType(f.Type, mark)
+				}
 			}
 		}
 
@@ -276,6 +277,15 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 				mark[t.Name] = true
 			}
 		}
+
+		// Alias type: mark and traverse the underlying type
+		if vt.Alias != nil && vt.Alias.Type != nil {
+			t := vt.Alias.Type
+			if !mark[t.Name] {
+				mark[t.Name] = true
+				walkVarType(t.Type, mark)
+			}
+		}
 	}
 
 	// Traverse all methods of services; split by included/excluded.
-- 
2.43.0


From 2f8f4a2e27a7bab4e81bf4cb30ffddf70ab65bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/25] fix: find bigints behind maps, aliases, nested lists
 and recursive structs

---
 schema/helpers.go | 94 +++++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 53 deletions(-)

diff --git a/schema/helpers.go b/schema/helpers.go
index f0cbb83..497532d 100644
--- a/schema/helpers.go
+++ b/schema/helpers.go
@@ -3,47 +3,39 @@ package schema
 import "strings"
 
 // SchemaUsesBigInts returns true if any struct type in the schema, or any
-// method input/output argument (including nested / list / struct references)
-// makes use of a bigint field (case-insensitive match on the original expr).
+// method input/output argument (including nested / list / map / struct / alias
+// references) makes use of a bigint field (case-insensitive match on the original expr).
 // The function is read-only and does not mutate the provided schema.
 func SchemaUsesBigInts(s *WebRPCSchema) bool {
 	if s == nil {
 		return false
 	}
 
-	visited := make(map[string]bool) // cycle guard for struct recursion
-	memo := make(map[string]bool)    // memoize struct -> hasBigInt
+	visited := make(map[string]bool) // cycle guard for struct and alias recursion
 
-	var structHasBigIntRecursive func(t *Type) bool
+	var typeHasBigInt func(t *Type) bool
 	var varTypeHasBigInt func(vt *VarType) bool // forward declaration so each can call the other
 
-	structHasBigIntRecursive = func(t *Type) bool {
-		if t == nil || t.Kind != TypeKind_Struct {
-			return false
-		}
-		if v, ok := memo[t.Name]; ok {
-			return v
-		}
-		if visited[t.Name] { // cycle
+	typeHasBigInt = func(t *Type) bool {
+		// No need to visit a type twice, as we stop at the first bigint found.
+		if t == nil || visited[t.Name] {
 			return false
 		}
 		visited[t.Name] = true
-		defer func() { visited[t.Name] = false }()
 
-		for _, f := range t.Fields {
-			if f.Type == nil {
-				continue
-			}
-			if varTypeHasBigInt(f.Type) {
-				memo[t.Name] = true
-				return true
+		switch t.Kind {
+		case TypeKind_Struct:
+			for _, f := range t.Fields {
+				if varTypeHasBigInt(f.Type) {
+					return true
+				}
 			}
+		case TypeKind_Alias:
+			return varTypeHasBigInt(t.Type)
 		}
-		memo[t.Name] = false
 		return false
 	}
 
-	// Helper on VarType mirroring logic in SchemaBigIntFieldsByType.
 	varTypeHasBigInt = func(vt *VarType) bool {
 		if vt == nil {
 			return false
@@ -54,27 +46,20 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 		}
 		switch vt.Type {
 		case T_List:
-			if vt.List != nil {
-				// []bigint
-				if strings.EqualFold(vt.List.Elem.Expr, "bigint") {
-					return true
-				}
-				// []Struct{...}
-				if vt.List.Elem.Type == T_Struct && vt.List.Elem.Struct != nil && structHasBigIntRecursive(vt.List.Elem.Struct.Type) {
-					return true
-				}
-			}
+			return vt.List != nil && varTypeHasBigInt(vt.List.Elem)
+		case T_Map:
+			return vt.Map != nil && varTypeHasBigInt(vt.Map.Value)
 		case T_Struct:
-			if vt.Struct != nil && structHasBigIntRecursive(vt.Struct.Type) {
-				return true
-			}
+			return vt.Struct != nil && typeHasBigInt(vt.Struct.Type)
+		case T_Alias:
+			return vt.Alias != nil && typeHasBigInt(vt.Alias.Type)
 		}
 		return false
 	}
 
 	// Scan all defined struct types first.
 	for _, t := range s.Types {
-		if t.Kind == TypeKind_Struct && structHasBigIntRecursive(t) {
+		if t.Kind == TypeKind_Struct && typeHasBigInt(t) {
 			return true
 		}
 	}
@@ -108,24 +93,20 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 // the names Args and Return for suffixes instead of Request and Resposne suffixes for implicit method types.
 func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string][]any {
 	out := make(map[string][]any)
-	// cache for recursive detection to avoid cycles
-	visited := make(map[string]bool)
-	memo := make(map[string]bool)
+	memo := make(map[string]bool) // memoize struct -> hasBigInt
 
-	var structHasBigIntRecursive func(t *Type) bool
-	structHasBigIntRecursive = func(t *Type) bool {
+	// visited is a cycle guard of a single lookup. The result of a nested lookup
+	// must not be memoized, as it might have been cut short by the cycle guard.
+	var structReachesBigInt func(t *Type, visited map[string]bool) bool
+	structReachesBigInt = func(t *Type, visited map[string]bool) bool {
 		if t == nil || t.Kind != TypeKind_Struct {
 			return false
 		}
 		name := t.Name
-		if v, ok := memo[name]; ok {
-			return v
-		}
 		if visited[name] { // cycle guard
 			return false
 		}
 		visited[name] = true
-		defer func() { visited[name] = false }()
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
@@ -133,29 +114,36 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 			}
 			// direct scalar bigint
 			if strings.EqualFold(f.Type.Expr, "bigint") {
-				memo[name] = true
 				return true
 			}
 			// list of bigint
 			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
-				memo[name] = true
 				return true
 			}
 			// nested struct (struct types are parsed as T_Struct)
-			if f.Type.Type == T_Struct && f.Type.Struct != nil && structHasBigIntRecursive(f.Type.Struct.Type) {
-				memo[name] = true
+			if f.Type.Type == T_Struct && f.Type.Struct != nil && structReachesBigInt(f.Type.Struct.Type, visited) {
 				return true
 			}
 			// list of nested struct
-			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigIntRecursive(f.Type.List.Elem.Struct.Type) {
-				memo[name] = true
+			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structReachesBigInt(f.Type.List.Elem.Struct.Type, visited) {
 				return true
 			}
 		}
-		memo[name] = false
 		return false
 	}
 
+	structHasBigIntRecursive := func(t *Type) bool {
+		if t == nil {
+			return false
+		}
+		if v, ok := memo[t.Name]; ok {
+			return v
+		}
+		v := structReachesBigInt(t, make(map[string]bool))
+		memo[t.Name] = v
+		return v
+	}
+
 	// helper to collect bigint-related fields for a given struct type
 	collectStruct := func(t *Type) []any {
 		var list []any
-- 
2.43.0


From bd870cd15b4b3c1942853c3065f6409c068ef15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 13/25] fix: minVersion must not compare minor versions across
 major versions

---
 gen/funcmap_flow.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gen/funcmap_flow.go b/gen/funcmap_flow.go
index 1e41f20..d5cd861 100644
--- a/gen/funcmap_flow.go
+++ b/gen/funcmap_flow.go
@@ -42,15 +42,11 @@ func minVersion(version string, minVersion string) bool {
 		panic(fmt.Sprintf("minVersion: unexpected min version %q", minVersion))
 	}
 
-	if minMajor > major {
-		return false
-	}
-
-	if minMinor > minor {
-		return false
+	if major != minMajor {
+		return major > minMajor
 	}
 
-	return true
+	return minor >= minMinor
 }
 
 func parseMajorMinorVersion(version string) (major int, minor int, err error) {
-- 
2.43.0


From dd0a3b45a58faa33b9457bf31d2e0cfe2d4e529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 14/25] fix: make toString of a dictionary deterministic

---
 gen/funcmap_string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap_string.go b/gen/funcmap_string.go
index 3e5d65a..c6ac997 100644
--- a/gen/funcmap_string.go
+++ b/gen/funcmap_string.go
@@ -2,6 +2,8 @@ package gen
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/webrpc/webrpc/schema"
@@ -24,8 +26,8 @@ func toString(v interface{}) string {
 		return t
 	case map[string]interface{}:
 		var b strings.Builder
-		for k, v := range t {
-			b.WriteString(fmt.Sprintf("%v=%v\n", k, v))
+		for _, k := range slices.Sorted(maps.Keys(t)) { // deterministic output
+			b.WriteString(fmt.Sprintf("%v=%v\n", k, t[k]))
 		}
 		return b.String()
 	default:
-- 
2.43.0


From 246db235edf8bdd2c19600a7ee7115959310c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 15/25] fix: drop stale templates when refreshing the template
 cache

---
 gen/template_source.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 5dd7689..6249775 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -142,13 +142,6 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 }
 
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
-	// create empty cache directory
-	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-		if err := os.RemoveAll(cacheDir); err != nil {
-			return err
-		}
-	}
-
 	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
 	if err != nil {
 		return err
@@ -158,6 +151,13 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 		return fmt.Errorf("no template files were found in target %s", target)
 	}
 
+	// create empty cache directory
+	if _, err := os.Stat(cacheDir); err == nil {
+		if err := os.RemoveAll(cacheDir); err != nil {
+			return err
+		}
+	}
+
 	if err := os.MkdirAll(cacheDir, 0755); err != nil {
 		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
 	}
-- 
2.43.0


From a4374631f0dc887d7c29d0e50263802770784f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 16/25] fix: print template help, and the error when it fails,
 in webrpc-gen usage

---
 cmd/webrpc-gen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 8154bfe..8d69c99 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -268,9 +268,9 @@ func setTargetFlagsUsage(templateOpts map[string]interface{}) {
 			fmt.Fprintf(os.Stderr, "\nTarget generator usage:\n")
 			templateHelp, err := gen.Generate(&schema.WebRPCSchema{}, *targetFlag, &gen.Config{TemplateOptions: templateOpts})
 			if err != nil {
-				fmt.Fprintln(os.Stderr, templateHelp.Code)
-			} else {
 				fmt.Fprintf(os.Stderr, "failed to render -help: %v\n", err)
+			} else {
+				fmt.Fprintln(os.Stderr, templateHelp.Code)
 			}
 		}
 	}
-- 
2.43.0


From 1c9a65cfeba114b6843429ae101eb0e40b721d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 17/25] fix: webrpc-gen must exit non-zero on a format error
 with -silent or stdout output

---
 cmd/webrpc-gen/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 8d69c99..542797a 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -125,6 +125,10 @@ func main() {
 	// Write output to stdout
 	if *outFlag == "" || *outFlag == "stdout" {
 		fmt.Println(genOutput.Code)
+		if genOutput.FormatErr != nil {
+			fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
+			os.Exit(1)
+		}
 		os.Exit(0)
 	}
 
@@ -137,6 +141,10 @@ func main() {
 
 	// Print gen report
 	if *silentFlag {
+		if genOutput.FormatErr != nil {
+			fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
+			os.Exit(1)
+		}
 		os.Exit(0)
 	}
 
-- 
2.43.0


From fdd7856be2942ef1e5d61a9d5f1232ac15d896d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 18/25] fix: test the first character, not the first byte, of
 type and error names

---
 schema/type.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index b0b8632..51be1d0 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const (
@@ -182,8 +183,6 @@ func startsWithUpper(s string) bool {
 	if len(s) == 0 {
 		return false
 	}
-	if !unicode.IsUpper(rune(s[0])) {
-		return false
-	}
-	return true
+	first, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsUpper(first)
 }
-- 
2.43.0


From 38613598a49f76553f3795bc64cec5c10b4178cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 19/25] fix: report null method annotations deterministically

---
 schema/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index d5b3aa3..356aafa 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -135,9 +135,9 @@ func (s *WebRPCSchema) validateNoNulls() error {
 					return fmt.Errorf("schema error: output argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
 				}
 			}
-			for name, annotation := range method.Annotations {
+			for _, annotation := range method.Annotations {
 				if annotation == nil {
-					return fmt.Errorf("schema error: annotation '%s' cannot be null for method '%s' in service '%s'", name, method.Name, svc.Name)
+					return fmt.Errorf("schema error: annotation cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
 				}
 			}
 		}
-- 
2.43.0


From 665fbc20a93169f2d93cf664c16b7ae3c601fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 20/25] fix: keep non-ASCII characters of RIDL strings and
 values

---
 schema/ridl/parser_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 7bc0b35..75fc60d 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -54,7 +54,7 @@ func unescapeString(in string) (string, error) {
 				return "", errors.New("unexpected end after backslash")
 			}
 		} else {
-			out = out + string(c)
+			out = out + in[i:i+1]
 		}
 	}
 
-- 
2.43.0


From c1f9cd73323cfa2c90c47e4ef347ad8335f2118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 21/25] fix: keep the comment on the last line of a RIDL file
 without a final newline

---
 schema/ridl/tokenizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 5cab16b..ac0b0eb 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -19,6 +19,10 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 
 	for tok := range lx.tokens {
 		if tok.tt == tokenEOF {
+			if parsingComment {
+				// comment on the last line, without a new line after it
+				lineComments[tok.line] = strings.Join(commentTokens, " ")
+			}
 			break
 		}
 
-- 
2.43.0


From 22fdd53a3b70f026b0331329ea32ff56d2841da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 22/25] fix: don't attach comments of errors, imports, metadata
 and annotated methods to the next declaration

---
 schema/ridl/error_parser.go      |  2 ++
 schema/ridl/import_parser.go     |  4 ++++
 schema/ridl/parser.go            | 11 +++++++++++
 schema/ridl/service_parser.go    | 11 ++++++++++-
 schema/ridl/struct_parser.go     |  2 ++
 schema/ridl/type_alias_parser.go |  2 ++
 6 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/error_parser.go b/schema/ridl/error_parser.go
index b96c782..35e9902 100644
--- a/schema/ridl/error_parser.go
+++ b/schema/ridl/error_parser.go
@@ -20,6 +20,8 @@ func parserStateError(p *parser) parserState {
 		return p.stateError(fmt.Errorf("expecting error code to be a number but got '%s'", matches[2].val))
 	}
 
+	p.lineComment(matches[0].line)
+
 	return parserStateErrorMessage(&ErrorNode{
 		code: newTokenNode(matches[2]),
 		name: newTokenNode(matches[4]),
diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 933250a..330946d 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -21,6 +21,7 @@ func parserStateImportMembers(p *parser, in *ImportNode) parserState {
 			return p.stateError(err)
 		}
 
+		p.lineComment(member.line)
 		in.members = append(in.members, newTokenNode(member))
 
 	case tokenHash:
@@ -57,6 +58,7 @@ func parserStateImportValue(p *parser) parserState {
 			return p.stateError(err)
 		}
 
+		p.lineComment(path.line)
 		p.emit(&ImportNode{
 			path:    newTokenNode(path),
 			members: []*TokenNode{},
@@ -84,6 +86,7 @@ func parserStateImport(p *parser) parserState {
 			if err = expectWord(matches[0], wordImport); err != nil {
 				return p.stateError(err)
 			}
+			p.lineComment(matches[0].line)
 			return parserStateImportValue
 		}
 	}
@@ -100,6 +103,7 @@ func parserStateImport(p *parser) parserState {
 			return p.stateError(err)
 		}
 
+		p.lineComment(path.line)
 		importNode := &ImportNode{
 			path: newTokenNode(path),
 		}
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index a5f752a..64f6aad 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -520,6 +520,17 @@ func composedValue(tokens []*token) (*token, error) {
 	}, nil
 }
 
+// lineComment takes the comment of a line, so that the declaration on the
+// following line doesn't inherit it.
+func (p *parser) lineComment(line int) string {
+	comment := p.comments[line]
+	delete(p.comments, line)
+	if strings.HasPrefix(comment, "!") {
+		return ""
+	}
+	return comment
+}
+
 func parseComments(comments map[int]string, currentLine int) string {
 	iteration := 0
 	c := []string{}
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index b868866..fceb476 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -56,10 +56,19 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 			commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line
 		}
 
+		comment := parseComments(p.comments, commentLine)
+		if own := p.lineComment(matches[0].line); own != "" {
+			// comment next to the method, below its annotations
+			if comment != "" {
+				comment += "\n"
+			}
+			comment += own
+		}
+
 		mn := &MethodNode{
 			name:    newTokenNode(methodName),
 			proxy:   proxy,
-			comment: parseComments(p.comments, commentLine),
+			comment: comment,
 			inputs: argumentList{
 				stream:    streamInput,
 				arguments: []*ArgumentNode{},
diff --git a/schema/ridl/struct_parser.go b/schema/ridl/struct_parser.go
index cc9a9a8..3b14d5d 100644
--- a/schema/ridl/struct_parser.go
+++ b/schema/ridl/struct_parser.go
@@ -29,6 +29,8 @@ func parserStateStructFieldMetaDefinition(mn *StructNode) parserState {
 			return p.stateError(err)
 		}
 
+		p.lineComment(left.line)
+
 		field.meta = append(field.meta, &DefinitionNode{
 			leftNode:  newTokenNode(left),
 			rightNode: newTokenNode(right),
diff --git a/schema/ridl/type_alias_parser.go b/schema/ridl/type_alias_parser.go
index fe880d1..beda089 100644
--- a/schema/ridl/type_alias_parser.go
+++ b/schema/ridl/type_alias_parser.go
@@ -23,6 +23,8 @@ func parserStateTypeAliasMetaDefinition(ta *TypeAliasNode) parserState {
 			return p.stateError(err)
 		}
 
+		p.lineComment(left.line)
+
 		ta.meta = append(ta.meta, &DefinitionNode{
 			leftNode:  newTokenNode(left),
 			rightNode: newTokenNode(right),
-- 
2.43.0


From 288064fa3a65037e61a21551d340f62f9b20df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:59 +0000
Subject: [PATCH 23/25] fix: reject an unquoted value directly followed by a
 quoted one

The unquoted part was silently dropped.
---
 schema/ridl/import_parser.go | 5 +++++
 schema/ridl/parser.go        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 330946d..230a4b0 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -127,6 +127,11 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				// the value already started without a quote
+				return nil, errUnexpectedToken
+			}
+
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 64f6aad..8da5402 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -241,6 +241,11 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				// the value already started without a quote
+				return nil, errUnexpectedToken
+			}
+
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
-- 
2.43.0


From 87eed101cdc200c4ea6c39ac35acdbf5335f62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:45 +0000
Subject: [PATCH 24/25] fix: webrpc-gen: fail when the generated code cannot be
 written to stdout

---
 cmd/webrpc-gen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 542797a..6824a87 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -124,7 +124,10 @@ func main() {
 
 	// Write output to stdout
 	if *outFlag == "" || *outFlag == "stdout" {
-		fmt.Println(genOutput.Code)
+		if _, err := fmt.Println(genOutput.Code); err != nil {
+			fmt.Fprintf(os.Stderr, "failed to write generated code: %v\n", err)
+			os.Exit(1)
+		}
 		if genOutput.FormatErr != nil {
 			fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
 			os.Exit(1)
-- 
2.43.0


From 880a2d2fb58f717c8ec273cf245e07c5957a550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:31 +0000
Subject: [PATCH 25/25] fix: an interrupted removal of the template cache left
 a partial cache that was taken for a complete one

---
 gen/template_source.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 6249775..2136f57 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -151,11 +151,13 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 		return fmt.Errorf("no template files were found in target %s", target)
 	}
 
-	// create empty cache directory
-	if _, err := os.Stat(cacheDir); err == nil {
-		if err := os.RemoveAll(cacheDir); err != nil {
-			return err
-		}
+	// create empty cache directory; the timestamp goes first, so that an
+	// interrupted removal leaves no partial cache that seems to be complete
+	if err := os.Remove(filepath.Join(cacheDir, templateCacheTimestampFilename)); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err := os.RemoveAll(cacheDir); err != nil {
+		return err
 	}
 
 	if err := os.MkdirAll(cacheDir, 0755); err != nil {
-- 
2.43.0

