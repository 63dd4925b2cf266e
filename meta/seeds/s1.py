from lib import seed
C='soql/parser/core/'; P='soql/parser/postprocess/'; T='soql/parser/types/'
seed('C03-limit-space','C03',[(C+'expressions3.go','''				parameterizedValue(),
				Error("Unexpected token aheads near by the 'limit' clause"),
			),
			sp0(),''','''				parameterizedValue(),
				Error("Unexpected token aheads near by the 'limit' clause"),
			),
			erase(ZeroOrMoreTimes(Whitespace())),''')],'''
	must("SELECT Id FROM Account LIMIT 1 OFFSET 2")
	must("SELECT Id FROM Account LIMIT 1 /* c */ OFFSET 2")
''','a comment between LIMIT n and OFFSET','comments are not accepted at one place where blanks are')
seed('C03-linecomment','C03',[(C+'elements.go','ZeroOrMoreTimes(CharClassN("\\r\\n", "\\n", "\\r")),','ZeroOrMoreTimes(CharClassN("\\r\\n", "\\n")),')],'''
	must("SELECT Id -- note\\rFROM Account")
''','a line comment ended by a lone carriage return','the statement after the comment is swallowed')
seed('C02-direction','C02',[(C+'expressions3.go','''			v := strings.ToLower(asts[0].Value.(string))
			desc := false''','''			v := asts[0].Value.(string)
			desc := false''')],'''
	for _, s := range []string{"desc", "DESC", "Desc"} {
		q := must("SELECT Id FROM Account ORDER BY Id " + s)
		check(q.OrderBy[0].Desc, "direction %s", s)
	}
''','DESC written in capitals','the sort direction is lost')
seed('C02-word-nulls','C02',[(C+'expressions3.go','''					SeqI("first"),
					SeqI("last"),''','''					SeqI("first"),
					Seq("last"),
					Seq("LAST"),''')],'''
	for _, s := range []string{"last", "LAST", "Last"} {
		q := must("SELECT Id FROM Account ORDER BY Id NULLS " + s)
		check(q.OrderBy[0].NullsLast, "nulls %s", s)
	}
''','NULLS Last in mixed case','NULLS Last is a syntax error')
seed('C07-notin','C07',[(C+'expressions2.go','''	case "notin":
		opcode = SoqlConditionOpcode_NotIn''','''	case "notin":
		opcode = SoqlConditionOpcode_NotIn
		if asts[0].Value.(SoqlFieldInfo).Type == SoqlFieldInfo_Function {
			opcode = SoqlConditionOpcode_In
		}''')],'''
	q := must("SELECT Id FROM Account WHERE Foo(Id) NOT IN (1, 2)")
	check(q.Where[2].Opcode == SoqlConditionOpcode_NotIn, "opcode %v", q.Where[2].Opcode)
''','NOT IN with a function call on its left','the operator is inverted')
seed('C12-limit-first','C12',[(C+'expressions3.go','''						switch asts[1].Value.(type) {
						case string:
							offsetAndLimit.OffsetParamName = asts[1].Value.(string)
						default:''','''						switch asts[1].Value.(type) {
						case string:
							offsetAndLimit.LimitParamName = asts[1].Value.(string)
						default:''')],'''
	q := must("SELECT Id FROM Account LIMIT 5 OFFSET :off")
	check(q.OffsetAndLimit.OffsetParamName == "off", "offset parameter")
''','OFFSET with a bind parameter after LIMIT with a number','the parameter name goes to the wrong clause')
seed('C12-for','C12',[(C+'expressions3.go','''					For:            asts[7].Value.(SoqlForClause),''','''					For:            SoqlForClause{View: asts[7].Value.(SoqlForClause).View, Reference: asts[7].Value.(SoqlForClause).Reference, Update: asts[7].Value.(SoqlForClause).Update, UpdateTracking: asts[7].Value.(SoqlForClause).UpdateTracking, UpdateViewstat: asts[7].Value.(SoqlForClause).UpdateTracking},''')],'''
	q := must("SELECT Id FROM Account FOR UPDATE VIEWSTAT")
	check(q.For.UpdateViewstat && !q.For.UpdateTracking, "for %v", q.For)
''','FOR UPDATE VIEWSTAT without TRACKING','the VIEWSTAT flag follows the TRACKING flag')
seed('C12-orderby-index','C12',[(C+'expressions3.go','''					Desc:      asts[i*3+1].Value.(bool),
					NullsLast: asts[i*3+2].Value.(bool),''','''					Desc:      asts[i*3+1].Value.(bool),
					NullsLast: asts[2].Value.(bool),''')],'''
	q := must("SELECT Id FROM Account ORDER BY Id, Name NULLS LAST")
	check(q.OrderBy[1].NullsLast, "nulls")
''','NULLS LAST on a sort key after the first','all sort keys take the placement of the first')
