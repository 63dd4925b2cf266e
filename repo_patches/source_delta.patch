From bd9ecbe2626a53dfc9692c4ddba3b3c649eddece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 01/13] fix: NOT IN and NOT LIKE are parsed as their own
 operators

The tokens of the two-word operators were not concatenated, so only "not" was
looked up and the comparison became a unary NOT.
---
 soql/parser/core/expressions2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 4a793a9..830e884 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -30,6 +30,7 @@ func conditionalOperator() ParserFn {
 						),
 						wordBoundary(),
 					),
+					Concat,
 				),
 				Trans(
 					FlatGroup(
-- 
2.43.0


From 71ce9149a46e527abc7713132ba48403216d1ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 02/13] fix: NOT negates only its own operand

Negation was distributed to every condition preceding the operator, including
those outside of its operand.
---
 soql/parser/postprocess/normalize2.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index aabecba..c80e6dd 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -98,11 +98,30 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	return nil
 }
 
+// getConditionOperandPos returns the position of the first item of the postfix expression that ends at the `end`.
+func getConditionOperandPos(conditions []SoqlCondition, end int) int {
+	start := end
+	for n := 1; start >= 0; start-- {
+		switch conditions[start].Opcode {
+		case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Not:
+			// The number of operands to find is not changed.
+		case SoqlConditionOpcode_Unknown, SoqlConditionOpcode_FieldInfo:
+			n--
+		default:
+			n++
+		}
+		if n == 0 {
+			return start
+		}
+	}
+	return 0
+}
+
 func distributeNotOperators(conditions []SoqlCondition) []SoqlCondition {
 	for i := 0; i < len(conditions); i++ {
 		switch conditions[i].Opcode {
 		case SoqlConditionOpcode_Not:
-			for j := 0; j < i; j++ {
+			for j := getConditionOperandPos(conditions, i-1); j < i; j++ {
 				switch conditions[j].Opcode {
 				case SoqlConditionOpcode_And:
 					conditions[j].Opcode = SoqlConditionOpcode_Or
-- 
2.43.0


From 87906687bc3b7a846f47e8455560b50ead8f85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 03/13] fix: AND binds tighter than OR regardless of the order

The right operand of a logical operator was parsed as a whole condition
expression and reduced on its own, so "a and b or c" became "a and (b or c)".
Parse the operands as a flat list and let the production rules decide.
---
 soql/parser/core/expressions2.go | 62 +++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 830e884..7022d9b 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -167,7 +167,7 @@ func whereFieldExpression() ParserFn {
 	)
 }
 
-func whereConditionExpressionInnerRoot() ParserFn {
+func whereConditionExpressionOperand() ParserFn {
 	return FlatGroup(
 		ZeroOrOnce(
 			Trans(
@@ -192,6 +192,12 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			),
 			whereFieldExpression(),
 		),
+	)
+}
+
+func whereConditionExpressionInnerRoot() ParserFn {
+	return FlatGroup(
+		whereConditionExpressionOperand(),
 		ZeroOrMoreTimes(
 			Trans(
 				First(
@@ -204,7 +210,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpression),
+					whereConditionExpressionOperand(),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -318,32 +324,38 @@ func havingFieldExpression() ParserFn {
 	)
 }
 
-func havingConditionExpressionInnerRoot() ParserFn {
-	return Trans(
-		FlatGroup(
-			ZeroOrOnce(
-				Trans(
-					SeqI("not"),
-					ChangeClassName("soql:UnaryOp"),
-				),
-				wordBoundary(),
-				sp0(),
+func havingConditionExpressionOperand() ParserFn {
+	return FlatGroup(
+		ZeroOrOnce(
+			Trans(
+				SeqI("not"),
+				ChangeClassName("soql:UnaryOp"),
 			),
-			First(
-				FlatGroup(
-					erase(CharClass("(")),
-					First(
-						FlatGroup(
-							sp0(),
-							Indirect(havingConditionExpression),
-							erase(CharClass(")")),
-							sp0(),
-						),
-						Error("Unexpected token aheads near by the 'having' clause"),
+			wordBoundary(),
+			sp0(),
+		),
+		First(
+			FlatGroup(
+				erase(CharClass("(")),
+				First(
+					FlatGroup(
+						sp0(),
+						Indirect(havingConditionExpression),
+						erase(CharClass(")")),
+						sp0(),
 					),
+					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-				havingFieldExpression(),
 			),
+			havingFieldExpression(),
+		),
+	)
+}
+
+func havingConditionExpressionInnerRoot() ParserFn {
+	return Trans(
+		FlatGroup(
+			havingConditionExpressionOperand(),
 			ZeroOrMoreTimes(
 				Trans(
 					First(
@@ -356,7 +368,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						havingConditionExpressionOperand(),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-- 
2.43.0


From 732a609c39b6428b3e31a77f2645aa79129b3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 04/13] fix: FOR VIEW and FOR REFERENCE do not set the update
 flag

---
 soql/parser/core/expressions3.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions3.go b/soql/parser/core/expressions3.go
index 3bb1a46..ca5ac80 100644
--- a/soql/parser/core/expressions3.go
+++ b/soql/parser/core/expressions3.go
@@ -198,9 +198,7 @@ func forViewClause() ParserFn {
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 			astsLen := len(asts)
-			z := SoqlForClause{
-				Update: true,
-			}
+			z := SoqlForClause{}
 			for i := 0; i < astsLen; i++ {
 				v := strings.ToLower(asts[i].Value.(string))
 				switch v {
-- 
2.43.0


From 38bd0e49dad048bbefc29670bb4253af73906031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 05/13] fix: FOR clause just after the FROM clause is not an
 alias name

---
 soql/parser/core/elements.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a557df0..a650bbe 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -59,6 +59,12 @@ func reservedKeywords() ParserFn {
 			FlatGroup(SeqI("having"), WordBoundary()),
 			FlatGroup(SeqI("offset"), WordBoundary()),
 			FlatGroup(SeqI("limit"), WordBoundary()),
+			FlatGroup(
+				SeqI("for"),
+				sp1(),
+				First(SeqI("view"), SeqI("reference"), SeqI("update")),
+				WordBoundary(),
+			),
 		),
 		Concat,
 	)
-- 
2.43.0


From 2823dae82dcef3268b88cc908c7353c8bbf0539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 06/13] fix: data race when parsing from multiple goroutines
 for the first time

The parsers of the recursive rules are built on first use and cached without
synchronization.
---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  4 ++--
 soql/parser/core/helpers.go      | 14 ++++++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 621f00d..4c07af5 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -54,7 +54,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							Indirect(selectFieldFunctionCall),
+							indirect(selectFieldFunctionCall),
 							complexSymbolName(),
 							literalValue(),
 						),
@@ -63,7 +63,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								Indirect(selectFieldFunctionCall),
+								indirect(selectFieldFunctionCall),
 								complexSymbolName(),
 								literalValue(),
 							),
@@ -130,7 +130,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			Indirect(subQuerySelectStatement),
+			indirect(subQuerySelectStatement),
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 7022d9b..af90171 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -183,7 +183,7 @@ func whereConditionExpressionOperand() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(whereConditionExpression),
+						indirect(whereConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -340,7 +340,7 @@ func havingConditionExpressionOperand() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						indirect(havingConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 0a55646..302b929 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"strings"
+	"sync"
 
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
@@ -48,3 +49,16 @@ func anyOperand() ParserFn {
 func isOperator(className string, ops []string) ParserFn {
 	return Trans(objparser.ObjClassFn(makeOpMatcher(className, ops)), unwrapOperandItem)
 }
+
+// indirect delays the construction of the parser until it is first used.
+// Unlike Indirect() of the takenoco, it can be used from multiple goroutines.
+func indirect(fn func() ParserFn) ParserFn {
+	var once sync.Once
+	var parser ParserFn
+	return func(ctx ParserContext) (ParserContext, error) {
+		once.Do(func() {
+			parser = fn()
+		})
+		return parser(ctx)
+	}
+}
-- 
2.43.0


From 6c05d6f80271660a01cc986123f19a92cd88ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 07/13] fix: date-time literal names in a list can be decoded
 from JSON

The list item value is a SoqlDateTimeLiteralName, but it was decoded as a string.
---
 soql/parser/types/marshalhelper.go | 3 +--
 soql/parser/types/types.go         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index cda9e5e..4cb9e93 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -90,8 +90,7 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 
 func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
-	case SoqlFieldInfo_ParameterizedValue,
-		SoqlFieldInfo_DateTimeLiteralName:
+	case SoqlFieldInfo_ParameterizedValue:
 		{
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
diff --git a/soql/parser/types/types.go b/soql/parser/types/types.go
index 7db61f4..ef6bdb1 100644
--- a/soql/parser/types/types.go
+++ b/soql/parser/types/types.go
@@ -111,7 +111,7 @@ type soqlFieldInfo_unmarshal struct {
 
 type SoqlListItem struct {
 	Type  SoqlFieldInfoType `json:"type,omitempty"`
-	Value interface{}       `json:"value,omitempty"` // ParameterizedValue, DateTimeLiteralName: string ; Literal_*: any
+	Value interface{}       `json:"value,omitempty"` // ParameterizedValue: string ; DateTimeLiteralName: SoqlDateTimeLiteralName ; Literal_*: any
 }
 
 type SoqlDateTimeLiteralName struct {
-- 
2.43.0


From b8ed7c386081d6f641b3e3c67dadda64f59982d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 08/13] fix: parameters and date-time literals in a list are
 listed in the meta information

---
 soql/parser/postprocess/normalize1.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 92f4bf2..3f09c61 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -323,6 +323,19 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
 	case SoqlFieldInfo_DateTimeLiteralName:
 		ctx.dateTimeLiterals[strings.ToLower(field.Name[0])] = struct{}{}
+	case SoqlFieldInfo_Literal_List:
+		if items, ok := field.Value.([]SoqlListItem); ok {
+			for i := 0; i < len(items); i++ {
+				switch v := items[i].Value.(type) {
+				case string:
+					if items[i].Type == SoqlFieldInfo_ParameterizedValue {
+						ctx.parameters[strings.ToLower(v)] = struct{}{}
+					}
+				case SoqlDateTimeLiteralName:
+					ctx.dateTimeLiterals[strings.ToLower(v.Name)] = struct{}{}
+				}
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From fe8b55cb67d01c129ed9875ff5266f06f9bb31e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 09/13] fix: parameter names of OFFSET and LIMIT are listed in
 lower case as any other

---
 soql/parser/postprocess/normalize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 5a2d17b..ee49d86 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -363,10 +363,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	if q.OffsetAndLimit.OffsetParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.OffsetParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.OffsetParamName)] = struct{}{}
 	}
 	if q.OffsetAndLimit.LimitParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.LimitParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.LimitParamName)] = struct{}{}
 	}
 
 	if q.IsAggregation {
-- 
2.43.0


From 5a756f2b5103e4edf089ea5266027f0a1721fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 10/13] fix: GROUP BY finds select aliases regardless of the
 letter case

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index ee49d86..cd5042e 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -164,7 +164,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 			field := q.GroupBy[i]
 
 			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[field.Name[len(field.Name)-1]]; ok {
+				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
 					delete(groupingFields, field.Key)
 					q.GroupBy[i] = *p
 					groupingFields[p.Key] = struct{}{}
-- 
2.43.0


From 34c808243ae6beefd38ff886ac95264c4316fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 11/13] fix: ORDER BY an alias of a function or a subquery does
 not add it to the fields again

---
 soql/parser/postprocess/normalize2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index c80e6dd..adc4e25 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -87,6 +87,10 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	}
 
 	for i := 0; i < len(q.OrderBy); i++ {
+		if q.OrderBy[i].Field.Type != SoqlFieldInfo_Field {
+			// It is the alias name of a function or a subquery that is already selected.
+			continue
+		}
 		key := nameutil.MakeDottedKeyIgnoreCase(q.OrderBy[i].Field.Name, len(q.OrderBy[i].Field.Name))
 		if _, ok := fieldMap[key]; !ok {
 			f := q.OrderBy[i].Field
-- 
2.43.0


From 201ef03ea94c05aa277b14b02494457dc85c8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 12/13] fix: literal words and date-time literals are literals
 as function arguments

null, true, TODAY and so on were taken as field names, LAST_N_DAYS:n could not
be parsed, and the value of a date-time literal was asserted to be a string.
---
 soql/parser/core/expressions1.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 4c07af5..312d25a 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -55,8 +55,8 @@ func selectFieldFunctionCall() ParserFn {
 					ZeroOrOnce(
 						First(
 							indirect(selectFieldFunctionCall),
-							complexSymbolName(),
 							literalValue(),
+							complexSymbolName(),
 						),
 						ZeroOrMoreTimes(
 							sp0(),
@@ -64,8 +64,8 @@ func selectFieldFunctionCall() ParserFn {
 							sp0(),
 							First(
 								indirect(selectFieldFunctionCall),
-								complexSymbolName(),
 								literalValue(),
+								complexSymbolName(),
 							),
 						),
 						sp0(),
@@ -96,12 +96,22 @@ func selectFieldFunctionCall() ParserFn {
 						}
 
 						switch ty {
-						case SoqlFieldInfo_ParameterizedValue, SoqlFieldInfo_DateTimeLiteralName:
+						case SoqlFieldInfo_ParameterizedValue:
 							z[i-1] = SoqlFieldInfo{
 								Type:      ty,
 								ClassName: asts[i].ClassName,
 								Name:      []string{asts[i].Value.(string)},
 							}
+						case SoqlFieldInfo_DateTimeLiteralName:
+							{
+								v := asts[i].Value.(SoqlDateTimeLiteralName)
+								z[i-1] = SoqlFieldInfo{
+									Type:      ty,
+									ClassName: asts[i].ClassName,
+									Name:      []string{v.Name},
+									Value:     v,
+								}
+							}
 						default:
 							z[i-1] = SoqlFieldInfo{
 								Type:      ty,
-- 
2.43.0


From 9fe36b3f8518c1e52f9abe954948a72a6356c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 13/13] fix: a function argument naming an ancestor object is
 an error, not a panic

---
 soql/parser/postprocess/normalize1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 3f09c61..6b5a0dd 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -131,7 +131,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				}
 
 				for i := 0; i < len(q.From[0].Name); i++ {
-					if q.From[0].Name[i] != field.Name[i] {
+					if i >= len(field.Name) || q.From[0].Name[i] != field.Name[i] {
 						return errors.New(
 							"The siblings object item is not allowed to be selected: " +
 								strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-- 
2.43.0

