from lib import seed
C='soql/parser/core/'; P='soql/parser/postprocess/'; T='soql/parser/types/'
seed('C01-list-comma','C01',[(C+'elements.go','''				sp0(),
				erase(CharClass(",")),
				sp0(),
				literalValue(),
			),
			sp0(),
			erase(CharClass(")")),''','''				sp0(),
				erase(CharClass(",")),
				sp0(),
				ZeroOrOnce(literalValue()),
			),
			sp0(),
			erase(CharClass(")")),''')],'''
	must("SELECT Id FROM A WHERE x IN (1, 2)")
	rejected("SELECT Id FROM A WHERE x IN (1,, 2)")
	rejected("SELECT Id FROM A WHERE x IN (1, )")
''','a list with a comma but no literal after it','lists may contain empty places')
seed('C01-alias-keyword','C01',[(C+'elements.go','''			FlatGroup(SeqI("having"), WordBoundary()),
''','')],'''
	must("SELECT Id FROM A GROUP BY Id")
	rejected("SELECT Id Having FROM A")
''','the word HAVING where an alias may stand','a reserved word is taken for an alias')
seed('C02-radix','C02',[(C+'elements.go','SeqI("0b")','Seq("0b")')],'''
	q := must("SELECT Id FROM A WHERE x = 0B101")
	check(q.Where[1].Value.Value == int64(5), "0B101")
''','a binary literal with the prefix 0B','0B101 is no longer a number')
seed('C05-shared-buffer','C05',[(C+'rules.go','''				condLen := len(cond1) + 1
				cond := make([]SoqlCondition, 0, condLen)
''','''				cond := conditionBuffer[:0]
'''),(C+'rules.go','var conditionExpressionExprRule3 = Precedence{','var conditionBuffer = make([]SoqlCondition, 0, 64)\n\nvar conditionExpressionExprRule3 = Precedence{')],'''
	a := must("SELECT Id FROM A WHERE NOT x = 1")
	b, _ := json.Marshal(a.Where)
	must("SELECT Id FROM A WHERE NOT yyy = 2")
	c, _ := json.Marshal(a.Where)
	check(string(b) == string(c), "changed by a later call")
''','a condition that is just a negation, and a later call with another one','the conditions of two results share one backing array')
seed('C06-subquery-error','C06',[(P+'normalize1.go','''		if err := ctx.normalizeQuery(qPlace, field.SubQuery, q, queryDepth+1, objNameMap); err != nil {
			return err
		}''','''		if err := ctx.normalizeQuery(qPlace, field.SubQuery, q, queryDepth+1, objNameMap); err != nil && !conf.isHavingClause {
			return err
		}''')],'''
	rejected("SELECT Id FROM A WHERE x IN (SELECT Id FROM B b, B.C b)")
	rejected("SELECT Id FROM A GROUP BY Id HAVING MAX(Id) IN (SELECT Id FROM B b, B.C b)")
''','an error in a subquery of the HAVING clause','the error of a subquery in HAVING is lost')
seed('C08-or-group','C08',[(C+'rules.go','''					Opcode: SoqlConditionOpcode_Or,
				})

				return AstSlice{{
					ClassName: "soql:Condition",
					Value:     cond,
				}}, nil
			},
		),
	},
	Rtol: false,''','''					Opcode: SoqlConditionOpcode_Or,
				})

				return AstSlice{{
					ClassName: "soql:Condition",
					Value:     cond,
				}}, nil
			},
		),
	},
	Rtol: true,''')],'''
	q := must("SELECT Id FROM A WHERE a = 1 OR b = 2 OR c = 3")
	s := ""
	for _, c := range q.Where {
		s += c.Opcode.String() + " "
	}
	check(s == "FieldInfo FieldInfo Eq FieldInfo FieldInfo Eq Or FieldInfo FieldInfo Eq Or ", s)
''','three or more conditions joined with OR','equal operators are grouped from the right')
seed('C10-nan','C10',[(C+'const.go','''var negativeInfinityAst = Ast{
	OpCode:    0,
	ClassName: class.Float,''','''var negativeInfinityAst = Ast{
	OpCode:    0,
	ClassName: class.Int,''')],'''
	q := must("SELECT Id FROM A WHERE x > -Infinity")
	check(q.Where[1].Value.Type == SoqlFieldInfo_Literal_Float, "type %v", q.Where[1].Value.Type)
''','the literal -Infinity','a float64 value is tagged as an integer')
seed('C11-octal','C11',[(C+'elements.go','''							ParseIntRadix(8),
							StringFromInt,''','''							ParseIntRadix(16),
							StringFromInt,''')],'''
	q := must("SELECT Id FROM A WHERE x = '\\\\101'")
	check(q.Where[1].Value.Value == "A", "%v", q.Where[1].Value.Value)
''','an octal escape','octal escapes are read as hexadecimal')
seed('C11-vt','C11',[(C+'elements.go','replaceStr(CharClass("v", "V"), "\\v")','replaceStr(CharClass("v"), "\\v")')],'''
	q := must("SELECT Id FROM A WHERE x = 'a\\\\Vb'")
	check(q.Where[1].Value.Value == "a\\vb", "%v", q.Where[1].Value.Value)
''','the escape \\V in upper case','\\V is not decoded')
seed('C14-datetime','C14',[(C+'elements.go','''				ClassName: class.DateTime,
				Type:      AstType_Any,
				Value:     t.UTC(),''','''				ClassName: class.DateTime,
				Type:      AstType_Any,
				Value:     t,''')],'''
	q := must("SELECT Id FROM A WHERE x = 2020-01-01T00:00:00+09:00")
	check(q.Where[1].Value.Value.(time.Time).Location() == time.UTC, "%v", q.Where[1].Value.Value)
''','a date-time with a zone offset','the value is not in UTC')
seed('C15-opname','C15',[(T+'types.go','return "NotLike"','return "Like"')],'''
	q := must("SELECT Id FROM A WHERE x NOT LIKE 'a'")
	b, _ := json.Marshal(q.Where)
	var w []SoqlCondition
	check(json.Unmarshal(b, &w) == nil && w[2].Opcode == SoqlConditionOpcode_NotLike, "%s", b)
''','NOT LIKE encoded to JSON','two opcodes have one name')
seed('C16-listparam','C16',[(T+'marshaller.go','	if v, err := unmarshalSoqlListItemValue(t2.Value, t2.Type); err != nil {','	if v, err := unmarshalSoqlFieldInfoValue(t2.Value, t2.Type); err != nil {')],'''
	q := must("SELECT Id FROM A WHERE x IN (:p, 1)")
	b, _ := json.Marshal(q)
	var w SoqlQuery
	check(json.Unmarshal(b, &w) == nil, "decode")
	check(w.Where[1].Value.Value.([]SoqlListItem)[0].Value == "p", "%v", w.Where[1].Value.Value)
''','a bind parameter in a list','its name is lost in JSON')
seed('C18-having-count','C18',[(P+'normalize1.go','''			funcName := ""
			if len(field.Name) == 1 {
				funcName = strings.ToLower(field.Name[0])
			}
			ctx.functions''','''			funcName := ""
			if len(field.Name) == 1 {
				funcName = field.Name[0]
				if conf.isHavingClause || conf.isSelectClause {
					funcName = strings.ToLower(funcName)
				}
			}
			ctx.functions''')],'''
	rejected("SELECT Id FROM A WHERE count(Id) = 1")
	rejected("SELECT Id FROM A WHERE COUNT(Id) = 1")
''','COUNT in upper case in WHERE','a forbidden function is recognised in lower case only')
seed('C18-dup-alias','C18',[(P+'normalize.go','''			aliasName := strings.ToLower(field.AliasName)

			if _, ok := fieldAliasMap[aliasName]; !ok {
				fieldAliasMap[aliasName] = &q.Fields[i]''','''			aliasName := field.AliasName

			if _, ok := fieldAliasMap[aliasName]; !ok {
				fieldAliasMap[strings.ToLower(aliasName)] = &q.Fields[i]''')],'''
	rejected("SELECT Id x, Name x FROM A")
	rejected("SELECT Id X, Name X FROM A")
	rejected("SELECT Id X, Name x FROM A")
''','an alias written twice with an upper-case letter','the duplicate is not found')
seed('C25-dtl','C25',[(C+'elements.go','FlatGroup(SeqI("NEXT_FISCAL_YEAR"), Zero(Ast{Value: int64(0)})),','FlatGroup(SeqI("NEXT_FISCAL_YEAR"), Zero(Ast{Value: 0})),')],'''
	must("SELECT Id FROM A WHERE x = NEXT_FISCAL_YEAR")
''','the literal NEXT_FISCAL_YEAR','a value of the wrong type panics')
seed('C25-limit','C25',[(C+'expressions3.go','''						switch asts[0].Value.(type) {
						case string:
							offsetAndLimit.LimitParamName = asts[0].Value.(string)
						default:
							offsetAndLimit.Limit = asts[0].Value.(int64)
						}''','''						switch {
						case offsetAndLimit.OffsetParamName == "" && offsetAndLimit.Offset == 0:
							offsetAndLimit.LimitParamName, _ = asts[0].Value.(string)
							offsetAndLimit.Limit, _ = asts[0].Value.(int64)
						default:
							offsetAndLimit.Limit = asts[0].Value.(int64)
						}''')],'''
	q := must("SELECT Id FROM A LIMIT :n OFFSET 3")
	check(q.OffsetAndLimit.LimitParamName == "n" && q.OffsetAndLimit.Offset == 3, "%v", q.OffsetAndLimit)
''','LIMIT with a parameter followed by an OFFSET','the building of the clause panics')

seed('C02-dtl','C02',[(C+'elements.go','Name: strings.ToUpper(asts[0].Value.(string)),','Name: strings.TrimSpace(asts[0].Value.(string)),')],"""
	q := must("SELECT Id FROM A WHERE x = last_n_days:3")
	check(q.Where[1].Value.Name[0] == "LAST_N_DAYS", "name %v", q.Where[1].Value.Name)
""",'a date-time literal name not written in upper case','the reported name depends on the letter case')
seed('C04-name','C04',[(C+'elements.go','OneOrMoreTimes(\n						First(\n							FlatGroup(\n								CharClass("\\r", "\\n"),','ZeroOrMoreTimes(\n						First(\n							FlatGroup(\n								CharClass("\\r", "\\n"),')],"""
	done := make(chan bool)
	go func() { parser.Parse("SELECT \\"Id\\" FROM A"); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("does not end")
	}
""",'a quoted name','an iteration of the repetition of name pieces can succeed on nothing')
seed('C05-cache','C05',[(C+'helpers.go','func makeOpMatcher(className string, ops []string) func(c interface{}) bool {\n	return func','type opAnswer struct {\n	op, val string\n	ok      bool\n}\n\nvar lastAnswer *opAnswer\n\nfunc makeOpMatcher(className string, ops []string) func(c interface{}) bool {\n	return func'),(C+'helpers.go','		for _, op := range ops {\n			if strings.EqualFold(op, val) {\n				return true\n			}\n		}\n		return false','		for _, op := range ops {\n			if lastAnswer == nil || lastAnswer.op != op || lastAnswer.val != val {\n				lastAnswer = &opAnswer{op, val, strings.EqualFold(op, val)}\n			}\n			if lastAnswer.ok {\n				return true\n			}\n		}\n		return false')],"""
	bad := make(chan string, 1000)
	done := make(chan bool)
	for i := 0; i < 16; i++ {
		op, want := "AND", SoqlConditionOpcode_And
		if i%2 == 0 {
			op, want = "OR", SoqlConditionOpcode_Or
		}
		go func() {
			for k := 0; k < 3000; k++ {
				q, err := parser.Parse("SELECT Id FROM A WHERE a=1 " + op + " b=2 " + op + " c=3 " + op + " d=4 " + op + " e=5")
				m := ""
				if err != nil {
					m = err.Error()
				} else if c := q.Where[len(q.Where)-1].Opcode; c != want {
					m = fmt.Sprint("opcode ", c)
				}
				if m != "" {
					select {
					case bad <- m:
					default:
					}
				}
			}
			done <- true
		}()
	}
	for i := 0; i < 16; i++ {
		<-done
	}
	select {
	case m := <-bad:
		fail("%s", m)
	default:
	}
""",'two goroutines parsing conditions with different connectives at the same time','a package variable is written by every call')
seed('C06-pos-source','C06',[('soql/parser/parser.go','	if err != nil {\n		pos := GetLineAndColPosition(s, out.SourcePosition, 4)','	if err != nil {\n		pos := GetLineAndColPosition(strings.TrimLeft(s, "\\r\\n"), out.SourcePosition, 4)'),('soql/parser/parser.go','	"strconv"\n','	"strconv"\n	"strings"\n')],"""
	_, err := parser.Parse("\\n\\n  \\nSELECT Id FROM A WHERE x")
	check(err != nil && strings.Contains(err.Error(), "Line 4,"), "%v", err)
""",'a wrong statement that starts with line breaks','the position in the message is that of another text')
seed('C13-arg-params','C13',[(C+'expressions1.go','					Name:       []string{asts[0].Value.(string)},\n					Parameters: z,','					Name:       []string{asts[0].Value.(string)},\n					Parameters: append(z[:0:0], z[:len(z)-len(z)/4]...),')],"""
	q := must("SELECT FN(a, 1, 2, 3) FROM A")
	check(len(q.Fields[0].Parameters) == 4, "%d arguments", len(q.Fields[0].Parameters))
""",'a function call with four or more arguments','the last argument is dropped')
seed('C13-func-alias','C13',[(C+'expressions1.go','			field = asts[0].Value.(SoqlFieldInfo)\n			field.AliasName = asts[1].Value.(string)','			field = asts[0].Value.(SoqlFieldInfo)\n			if len(field.Parameters) < 3 {\n				field.AliasName = asts[1].Value.(string)\n			}')],"""
	q := must("SELECT FN(a, 1, 2) x FROM A")
	check(q.Fields[0].AliasName == "x", "alias %q", q.Fields[0].AliasName)
""",'an alias of a function call with three arguments','the alias is dropped')
seed('C17-perobj','C17',[(P+'normalizeperobj.go','	perObjQuery := q.From[i].PerObjectQuery\n\n		if len(q.Where)','	perObjQuery := q.From[i].PerObjectQuery\n		if i > 0 && q.IsCorelated {\n			perObjQuery.From[0].PerObjectQuery = perObjQuery\n		}\n\n		if len(q.Where)')],"""
	q := must("SELECT Id, (SELECT Id FROM Bs, Bs.C WHERE FN(A.x) = 1) FROM A")
	_, err := json.Marshal(q)
	check(err == nil, "%v", err)
""",'a correlated subquery over two objects','a derived query contains itself')
