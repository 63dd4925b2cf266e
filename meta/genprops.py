#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the wording is reviewed in one place).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({"observe_at":observe} if observe else {}))))
PA="soql/parser/parser.go"; C="soql/parser/core/"; N="soql/parser/postprocess/"; T="soql/parser/types/"
E1,E2,E3,EL,RU=C+"expressions1.go",C+"expressions2.go",C+"expressions3.go",C+"elements.go",C+"rules.go"
W20="The 20 stable tests parse about twenty fixed, well-formed statements and never compare the result with an expectation; "

p("C01","Accepted statement syntax is exactly the supported SOQL grammar",
 "A source text gets past the syntax stage exactly when, ignoring surrounding whitespace and comments, it is one complete SELECT statement of the supported grammar: SELECT list, FROM, optional WHERE, GROUP BY with optional HAVING, ORDER BY, OFFSET/LIMIT in either order and FOR in that order, with the documented operators, literals, lists, bind parameters, date literals, function calls, parentheses, aliases and subqueries in the places the grammar allows. Keywords must be delimited from neighbouring identifier characters, a clause keyword is never swallowed as an alias, and nothing may follow the statement.",
 ["inputs"],"every string given to the parser (literal values out of range and name-resolution errors are later stages)",
 W20+"acceptance of every other string, and rejection of any malformed one, is not exercised.",[EL,E1,E2,E3,C+"parser.go"],
 [("grammar combinators","soql/parser/core Query() and everything it calls")],["error result of Parse"])
p("C02","Keyword letter case never matters",
 "Keywords, operator words, literal words (true, false, null, NaN, Infinity), date-literal names and radix prefixes are recognised in any mix of upper and lower case, and the parsed result is the same whichever case is used; only names, string contents and the upper-case T and Z of date-times keep their case.",
 ["inputs"],"every accepted statement and every re-casing of its keyword letters",
 W20+"only a few spellings of each keyword occur.",[EL,E1,E2,E3,C+"helpers.go"],
 [("SeqI terminals and case folding in actions","soql/parser/core")])
p("C03","Whitespace and comments are interchangeable",
 "Wherever the grammar accepts whitespace outside quoted text, it accepts in its place any non-empty mixture of blanks, tabs, line breaks, line comments (terminated) and block comments, and accepting it never depends on which of them is used or how many there are.",
 ["inputs"],"every accepted statement and every replacement of one whitespace run by another whitespace/comment run",
 W20+"comments appear in almost none of them.",[EL],[("sp0, sp1, comment","soql/parser/core/elements.go")])
p("C04","Syntactic recognition always terminates",
 "For every input the syntax stage finishes: no repetition can succeed without consuming input and then repeat, no rule can re-enter itself at the same input position, and every reduction of a condition expression shortens it.",
 ["inputs"],"every string, of any nesting depth that fits the stack",
 "a hang needs an input shape the tests do not contain, and a test cannot show absence of hanging.",[EL,E1,E2,E3,RU],
 [("repetition and recursion in the grammar","soql/parser/core"),("production rules","soql/parser/core/rules.go")])
p("C05","Parse calls are independent and safe to run concurrently",
 "Any number of goroutines may call the parser at the same time: a call never writes memory that another call can reach except under synchronisation, and two results never share mutable memory. No earlier or concurrent call can change the outcome of another.",
 ["schedules","histories"],"every interleaving and every sequence of calls",
 "the tests call the parser sequentially from one goroutine, without the race detector.",[PA,EL,E1,E2,N+"normalize.go"],
 [("package-level parser built once","soql/parser/parser.go"),("lazily built recursive rules","soql/parser/core")])
p("C06","Parse returns exactly one of query or error; no error is lost",
 "Every call returns either a non-nil query and a nil error or a nil query and a non-nil error, and an error reported by any stage or nested step always makes the whole call fail. A syntax failure's message carries the line, column and source excerpt computed from the text that was passed in and the position where recognition stopped.",
 ["inputs"],"every string and every step that can fail",
 "the tests contain no statement that is expected to fail.",[PA,N+"normalize.go",N+"normalize1.go",N+"normalize3.go",N+"normalizeperobj.go",T+"marshaller.go",T+"marshalhelper.go"],
 [("error returns","all functions reachable from Parse")])
p("C07","Comparison operators map to their opcodes",
 "In WHERE and HAVING each comparison is reported as its left operand, its right operand and then the opcode of the operator that was written: = != < <= > >= LIKE, NOT LIKE, IN, NOT IN, INCLUDES, EXCLUDES each give their own opcode, whatever the letter case or the spacing inside NOT IN / NOT LIKE.",
 ["inputs"],"every comparison with every operator and operand kind",
 W20+"several operators (NOT IN, NOT LIKE, INCLUDES, EXCLUDES, <=) have no expectation at all.",[E2],
 [("conditionalOperator, transWhereFieldExpression","soql/parser/core/expressions2.go")],["query.Where[i].Opcode","query.Having[i].Opcode"])
p("C08","Boolean structure of conditions follows NOT > AND > OR",
 "The condition list of WHERE and HAVING is the postfix form of the written expression, with NOT binding tighter than AND, AND tighter than OR, equal operators grouped left to right, and parentheses overriding; no operand or operator is dropped, duplicated or reordered.",
 ["inputs"],"every condition expression of any size and nesting",
 W20+"mixed AND/OR expressions without parentheses are not compared with an expected tree.",[RU,E2],
 [("production rules","soql/parser/core/rules.go"),("condition rules","soql/parser/core/expressions2.go")])
p("C09","NOT is eliminated into exactly its own operand",
 "After parsing, conditions contain no NOT: every comparison or connective inside the operand of an odd number of NOTs is replaced by its complement (= and !=, < and >=, > and <=, LIKE and NOT LIKE, IN and NOT IN, INCLUDES and EXCLUDES, AND and OR), and everything outside that operand is left as written.",
 ["inputs"],"every condition expression with any placement of NOT",
 W20+"NOT in the middle of an expression is not tested against an expected result.",[N+"normalize2.go",N+"normalizeperobj.go"],
 [("distributeNotOperators","soql/parser/postprocess/normalize2.go")])
p("C10","Literals get the type tag and Go type of their written form",
 "Each literal in a condition, list or function argument is reported with the type tag of its written form (null, integer, float, boolean, string, date, date-time, time, bind parameter, date-literal name) and a value of the Go type documented for that tag, in lists as well as alone.",
 ["inputs"],"every literal form in every position",
 W20+"literal types in results are not asserted.",[EL,E1],
 [("literalValue, listValue","soql/parser/core/elements.go"),("fieldInfoTypeFromClassName, transComplexSelectFieldName","soql/parser/core/expressions1.go")])
p("C11","String escapes decode to the documented characters",
 "In a quoted string every escape sequence denotes its documented character (\\n, \\r, \\t, \\v, \\b, \\f in either case, quotes and backslash themselves, \\_ and \\% kept escaped for LIKE, \\uXXXX, \\u{X..}, \\xXX, octal), every other character denotes itself, and the quotes are not part of the value.",
 ["inputs"],"every quoted string",W20+"hardly any escape occurs.",[EL,C+"helpers.go"],[("stringLiteralInner","soql/parser/core/elements.go")])
p("C12","Each clause lands in its own part of the query",
 "The parsed query carries each written clause in its own member and nothing for an absent one: offset and limit values or parameter names in either order, ORDER BY direction and NULLS position per key with ascending and nulls-first as defaults, exactly the FOR flags that were written, GROUP BY turning the query into an aggregation, and WHERE and HAVING conditions kept apart.",
 ["inputs"],"every combination of optional clauses and clause options",W20+"most combinations of optional clauses never occur.",[E3,E2],
 [("selectStatementInner and clause rules","soql/parser/core/expressions3.go")],["query members returned by Parse"])
p("C13","Select items, objects and function arguments keep order, kind and alias",
 "Select items, FROM objects, GROUP BY keys, list elements and function arguments are reported in source order, one per written item, with the written (possibly dotted or quoted) name, alias and kind: field, function call with its arguments, or subquery with its own query.",
 ["inputs"],"every select list, FROM list and argument list of any length and nesting",W20+"results are only printed.",[E1,E2,EL],
 [("selectFieldList, fromClause, selectFieldFunctionCall, complexSymbolName","soql/parser/core/expressions1.go")])
p("C14","Date, date-time and time values are UTC instants of the written text",
 "Every date, date-time and time literal value is normalised to UTC before it is exposed, comes from parsing exactly the written text under the layout of its kind, and an impossible calendar value is an error rather than some other instant.",
 ["inputs"],"every date, date-time and time literal",W20+"one or two date literals occur and their values are not checked.",[EL],
 [("dateValue, dateTimeValue, timeValue","soql/parser/core/elements.go")])
p("C15","Enum names in JSON are unique and complete",
 "Every field-type and condition-opcode value the parser can emit has its own JSON name, and decoding that name gives back the same value.",
 ["inputs"],"every defined enum value",W20+"no test decodes JSON.",[T+"types.go",T+"marshalhelper.go"],
 [("String, MarshalJSON, UnmarshalJSON","soql/parser/types")])
p("C16","JSON decoding restores every encoded member with its type",
 "Decoding the JSON of a parsed query restores every member that encoding writes, and a literal value, inside a list too, comes back with the same Go type it had before encoding, for every type tag.",
 ["inputs"],"every parsed query",W20+"no test decodes JSON.",[T+"types.go",T+"marshaller.go",T+"marshalhelper.go"],
 [("custom decoders","soql/parser/types")])
p("C17","A parsed query can always be encoded: no cycles, no unsupported members",
 "The serialised form of a query never follows back references (to parent queries or from the graphs to queries and objects) and contains no member type JSON cannot express, so encoding neither recurses forever nor fails because of the structure.",
 ["inputs"],"every parsed query",W20+"only a few shapes are ever encoded.",[T+"types.go",T+"marshalhelper.go",N+"normalize.go"],
 [("json tags","soql/parser/types/types.go")])
p("C18","Name lookup ignores letter case everywhere",
 "Resolving a name, alias or function name and detecting duplicates never depends on letter case: two spellings of a name that differ only in case always denote the same object, field, alias, function or parameter.",
 ["inputs"],"every statement and every re-casing of its names",W20+"names are nearly always spelled the same way throughout.",[N+"normalize.go",N+"normalize1.go",N+"normalize2.go",N+"normalize3.go",N+"normalizeperobj.go"],
 [("case-folded map keys","soql/parser/postprocess")])
p("C19","Subqueries in conditions have their own name space",
 "Views and columns of a subquery used in a WHERE or HAVING condition are numbered in a name space of their own: they never take the ids of, or leave ids behind for, equally named objects of the enclosing query, on every path by which the enclosing query is completed successfully.",
 ["inputs","histories"],"every statement with subqueries in conditions, in any number and nesting",W20+"ids of conditional subqueries are not asserted.",[N+"normalize.go"],
 [("save/replace/restore of id maps","soql/parser/postprocess/normalize.go")])
p("C20","Query, view and column ids are unique and counted",
 "Every query, every distinct object of a name space, and every distinct column gets a fresh id: ids start at 1, an id once given is never given to a different one, equal keys in one name space share the id, and the next-id numbers reported are one past the highest id used.",
 ["inputs"],"every parsed statement",W20+"ids are not asserted.",[N+"normalize.go",N+"normalize2.go"],
 [("id counters","soql/parser/postprocess")],["meta.NextQueryId, NextViewId, NextColumnId"])
p("C21","Meta information is complete",
 "The meta information of a query carries the exact source text, the graphs with an entry for every query and object, and in lower case every function called and every bind parameter and date literal used anywhere in the statement, including lists, function arguments, OFFSET/LIMIT and subqueries.",
 ["inputs"],"every parsed statement",W20+"meta is not asserted.",[PA,N+"normalize.go",N+"normalize1.go"],
 [("ctx.functions, parameters, dateTimeLiterals, graphs","soql/parser/postprocess")])
p("C22","Per-object queries contain only their object's parts",
 "The query derived for one FROM object contains only fields, sort keys and comparisons whose qualified name lies directly in that object, only the first object's query carries offset and limit, and every derived query keeps the FOR clause.",
 ["inputs"],"every statement over any number of objects",W20+"derived queries are not asserted.",[N+"normalizeperobj.go"],
 [("makePerObjectFields, makePerObjectOrders, makePerObjectConditions, buildPerObjectInfo","soql/parser/postprocess/normalizeperobj.go")])
p("C23","Per-object filters never reject what the full condition accepts",
 "A comparison that cannot be evaluated on one object alone is unknown to that object's filter, and unknown may be dropped only next to AND: under OR and any comparison the whole term becomes unknown, so the derived filter never rejects a row the full WHERE accepts.",
 ["inputs"],"every WHERE condition over any number of objects",W20+"derived filters are not asserted.",[N+"normalizeperobj.go"],
 [("makePerObjectConditions","soql/parser/postprocess/normalizeperobj.go")])
p("C24","Forbidden constructs are rejected",
 "A statement is rejected when two objects or two select items share an alias, HAVING appears without GROUP BY, FIELDS() or an aggregate COUNT/COUNT_DISTINCT is used where it is not allowed or with the wrong arguments, an aggregation selects a subquery, the primary object is qualified, or GROUP BY or ORDER BY names a column twice.",
 ["inputs"],"every statement containing such a construct",W20+"no test expects a rejection.",[N+"normalize.go",N+"normalize1.go"],
 [("validation errors","soql/parser/postprocess")])
p("C25","Building the syntax tree never panics",
 "Whatever the input, constructing the query from recognised text never panics: no value is taken as a type it does not have, and no element is read that is not there.",
 ["inputs"],"every string",W20+"a mismatch only shows on the statement shape that reaches it.",[EL,E1,E2,E3,RU,C+"helpers.go"],
 [("grammar actions","soql/parser/core")])
p("C26","The WebAssembly wrapper mirrors Parse",
 "The exported parseSoql function returns the error text of parsing or encoding when either fails and otherwise the indented JSON of the parsed query, for the given source text.",
 ["inputs"],"every argument list",
 "the wasm package has no tests and is not built by the test run.",["wasm/main.go"],[("parseSoql","wasm/main.go")])
p("C27","Qualified names and keys agree",
 "In a parsed query every field's name is fully qualified from the primary object with aliases replaced, and the key stored with a field or object is the case-insensitive key of exactly the name stored next to it.",
 ["inputs"],"every parsed statement",W20+"names and keys are not asserted.",[N+"normalize.go",N+"normalize1.go"],
 [("normalizeFieldName, normalizeObjectName","soql/parser/postprocess/normalize1.go")])
p("C28","Derived condition lists do not alias the query's own",
 "The filter of a derived per-object query and the post-process filter are separate copies: rewriting one of them during parsing never changes the WHERE of the query or of another derived query.",
 ["inputs"],"every statement with WHERE",W20+"nothing compares the lists.",[N+"normalizeperobj.go"],
 [("copies made by makePerObjectConditions and makePostProcessWhereClause","soql/parser/postprocess/normalizeperobj.go")])
p("C29","Sort and group keys resolve select aliases",
 "An ORDER BY or GROUP BY key that is the alias of a select item, in any letter case, denotes that item; any other key is resolved as a field name.",
 ["inputs"],"every statement with aliases and sort or group keys",W20+"alias resolution is not asserted.",[N+"normalize.go"],
 [("fieldAliasMap","soql/parser/postprocess/normalize.go")])
p("C30","Normalisation never panics",
 "Whatever syntactically valid statement it is given, the normalisation stage finishes with a query or an error and never panics: no index leaves its list and no missing object is dereferenced.",
 ["inputs"],"every syntactically valid statement",W20+"only about twenty shapes are exercised.",[N+"normalize.go",N+"normalize1.go",N+"normalize2.go",N+"normalize3.go",N+"normalizeperobj.go"],
 [("index, slice, dereference and assertion sites","soql/parser/postprocess")])
p("C31","Round trip and result equality",
 "Encoding a parsed query to JSON and decoding it gives a query with equal member values for every value, including extreme numbers and instants.",
 ["inputs"],"every parsed query and every literal value",W20+"no test decodes JSON.",[T+"marshaller.go",T+"marshalhelper.go"],[("JSON encoding","soql/parser/types")])
p("C32","Post-process filter is sufficient",
 "Joining rows that passed the per-object filters and applying the post-process filter yields exactly the rows the full WHERE accepts.",
 ["inputs"],"every WHERE condition and every data set",W20+"there is no executor in this repository.",[N+"normalizeperobj.go"],[("makePostProcessWhereClause","soql/parser/postprocess/normalizeperobj.go")])
p("C33","Resource use is bounded by the input size",
 "Parsing a statement takes time and stack bounded by a reasonable function of its length, including deeply nested statements.",
 ["inputs"],"every string, including adversarially nested ones",W20+"all are short.",[C+"parser.go",RU],[("recursive descent with ordered choice","soql/parser/core")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for q in P:
            assert len(q["title"])<=80,(q["id"],len(q["title"]))
            f.write(json.dumps(q)+"\n")
