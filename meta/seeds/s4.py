from lib import seed
C='soql/parser/core/'; P='soql/parser/postprocess/'; T='soql/parser/types/'
seed('C09-includes','C09',[(P+'normalize2.go','''				case SoqlConditionOpcode_Excludes:
					conditions[j].Opcode = SoqlConditionOpcode_Includes
''','''				case SoqlConditionOpcode_Excludes:
					conditions[j].Opcode = SoqlConditionOpcode_NotIn
''')],'''
	q := must("SELECT Id FROM Account WHERE NOT (m__c EXCLUDES ('a', 'b'))")
	check(q.Where[len(q.Where)-1].Opcode == SoqlConditionOpcode_Includes, "%v", q.Where[len(q.Where)-1].Opcode)
''','NOT around EXCLUDES','the complement of EXCLUDES')
seed('C09-having','C09',[(P+'normalize.go','''		q.Having = distributeNotOperators(q.Having)
''','''		if len(q.Having) > 4 {
			q.Having = distributeNotOperators(q.Having)
		}
''')],'''
	q := must("SELECT Name, COUNT(Id) FROM Account GROUP BY Name HAVING NOT COUNT(Id) = 5")
	for _, c := range q.Having {
		check(c.Opcode != SoqlConditionOpcode_Not, "NOT is left in HAVING")
	}
	check(q.Having[2].Opcode == SoqlConditionOpcode_NotEq, "not the complement")
''','NOT in a short HAVING','NOT stays in HAVING')
seed('C19-shared-columns','C19',[(P+'normalize.go','	ctx.columnIdMap = make(map[string]int)\n	ctx.colIndexMap','	if len(q.From) > 1 {\n		ctx.columnIdMap = make(map[string]int)\n	}\n	ctx.colIndexMap')],'''
	q := must("SELECT Id, Name FROM Account WHERE Id IN (SELECT Name FROM Account)")
	for _, c := range q.Where {
		if c.Value.Type == SoqlFieldInfo_SubQuery {
			id := c.Value.SubQuery.Fields[0].ColumnId
			check(id != q.Fields[0].ColumnId && id != q.Fields[1].ColumnId, "column %d of the subquery is one of the outer query", id)
			return
		}
	}
	fail("no subquery")
''','a conditional subquery over the object of a single-object query, using the same field','column ids are shared across name spaces')
seed('C20-fieldset','C20',[(P+'normalize2.go','''		case SoqlFieldInfo_FieldSet, SoqlFieldInfo_SubQuery:
			field.ColumnId = ctx.columnId
			ctx.columnId++
''','''		case SoqlFieldInfo_FieldSet, SoqlFieldInfo_SubQuery:
			field.ColumnId = ctx.columnId
			if field.Type == SoqlFieldInfo_SubQuery {
				ctx.columnId++
			}
''')],'''
	q := must("SELECT FIELDS(ALL), Name FROM Account LIMIT 10")
	seen := map[int]bool{}
	for _, f := range q.Fields {
		check(!seen[f.ColumnId], "column id %d twice", f.ColumnId)
		seen[f.ColumnId] = true
	}
''','a field set followed by another item','two items with one column id')
seed('C20-nextview','C20',[(P+'normalize.go','q.Meta.NextViewId = ctx.viewId\n','q.Meta.NextViewId = len(ctx.viewIdMap) + 1\n')],'''
	q := must("SELECT Id, (SELECT Id FROM Contacts), (SELECT Id FROM Cases) FROM Account WHERE Id IN (SELECT AccountId FROM Opportunity)")
	max := 0
	var walk func(q *SoqlQuery)
	walk = func(q *SoqlQuery) {
		for i := range q.From {
			if q.From[i].ViewId > max {
				max = q.From[i].ViewId
			}
		}
		for i := range q.Fields {
			if q.Fields[i].SubQuery != nil {
				walk(q.Fields[i].SubQuery)
			}
		}
		for i := range q.Where {
			if q.Where[i].Value.SubQuery != nil {
				walk(q.Where[i].Value.SubQuery)
			}
		}
	}
	walk(q)
	check(q.Meta.NextViewId > max, "next view id %d, but %d is used", q.Meta.NextViewId, max)
''','a conditional subquery','the next view id is one in use')
seed('C21-limitparam','C21',[(P+'normalize.go','	if q.OffsetAndLimit.LimitParamName != "" {\n','	if q.OffsetAndLimit.LimitParamName != "" && q.OffsetAndLimit.OffsetParamName == "" {\n')],'''
	q := must("SELECT Id FROM Account LIMIT :lim OFFSET :off")
	_, ok := q.Meta.Parameters["lim"]
	check(ok, "parameter lim is not collected: %v", q.Meta.Parameters)
''','both LIMIT and OFFSET by parameter','the parameter of LIMIT is not collected')
seed('C22-offset','C22',[(P+'normalizeperobj.go','''		if i == 0 {
			perObjQuery.OffsetAndLimit''','''		if i == 0 || perObjQuery.Where != nil {
			perObjQuery.OffsetAndLimit''')],'''
	q := must("SELECT Id, acc.Name FROM Contact, Contact.Account acc WHERE acc.Name = 'a' LIMIT 3")
	check(q.From[1].PerObjectQuery.OffsetAndLimit.Limit != 3, "the query of the second object is limited")
''','a condition on an object other than the first','OFFSET and LIMIT on another object')
seed('C22-subquery','C22',[(P+'normalizeperobj.go','''				case SoqlFieldInfo_Function, SoqlFieldInfo_SubQuery:
					// NOTE: Function always''','''				case SoqlFieldInfo_Function:
					// NOTE: Function always''')],'''
	q := must("SELECT Id FROM Contact WHERE Id IN (SELECT ContactId FROM Case)")
	for _, c := range q.From[0].PerObjectQuery.Where {
		check(c.Value.Type != SoqlFieldInfo_SubQuery || c.Opcode != SoqlConditionOpcode_FieldInfo, "the filter of the object contains a subquery")
	}
''','a subquery in WHERE','the filter of an object contains a subquery')
seed('C23-or','C23',[(P+'normalizeperobj.go','				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op2.cond.Opcode == SoqlConditionOpcode_Unknown {','				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op2.cond.Opcode == SoqlConditionOpcode_Unknown && maxPos == op2.minPos {')],'''
	q := must("SELECT Id FROM Contact, Contact.Account acc WHERE FirstName = 'x' OR (LastName = 'y' AND acc.Name = 'a') OR (acc.Name = 'b' OR acc.Name = 'c')")
	w := q.From[0].PerObjectQuery.Where
	check(len(w) == 0, "the filter of the first object rejects rows the query accepts: %d conditions", len(w))
''','the right operand of OR is a term that is unknown, not a single comparison','unknown is dropped under OR')
seed('C23-and-mark','C23',[(P+'normalizeperobj.go','''					conditions[i].Opcode = SoqlConditionOpcode_Unknown
					stack[sp].cond.Opcode = SoqlConditionOpcode_Unknown

				} else''','''					conditions[i].Opcode = SoqlConditionOpcode_Unknown

				} else''')],'''
	q := must("SELECT Id FROM Contact, Contact.Account acc WHERE FirstName = 'x' OR (acc.Name = 'b' AND acc.City = 'c')")
	w := q.From[0].PerObjectQuery.Where
	for _, c := range w {
		check(c.Opcode != SoqlConditionOpcode_Or && c.Opcode != SoqlConditionOpcode_FieldInfo, "the filter of the first object keeps %v", c.Opcode)
	}
''','OR over an AND both operands of which are unknown','an unknown AND counts as known')
seed('C24-countdistinct','C24',[(P+'normalize1.go','''				default:
					return errors.New("Function 'Count_distinct()' requires 1 parameter")
''','''				default:
					if len(field.Parameters) > 1 {
						return errors.New("Function 'Count_distinct()' requires 1 parameter")
					}
''')],'''
	rejected("SELECT COUNT_DISTINCT() FROM Account")
''','COUNT_DISTINCT without an argument','it is accepted')
seed('C28-shared','C28',[(P+'normalizeperobj.go','''	conditions := make([]SoqlCondition, 0, len(srcCondtions))
	conditions = append(conditions, srcCondtions...)
''','''	conditions := srcCondtions
''')],'''
	q := must("SELECT Id, acc.Name FROM Contact, Contact.Account acc WHERE acc.Name = 'a' AND FirstName = 'b'")
	n := 0
	for _, c := range q.Where {
		if c.Opcode == SoqlConditionOpcode_FieldInfo {
			n++
		}
	}
	check(n == 4, "the filter of the query was changed: %d operands", n)
''','conditions on two objects','deriving the filter of an object changes the filter of the query')
seed('C29-case','C29',[(P+'normalize.go','			aliasName := strings.ToLower(field.AliasName)\n','			aliasName := field.AliasName\n')],'''
	q := must("SELECT Id, CompanyName cNm FROM Account ORDER BY CNM")
	f := q.OrderBy[0].Field
	check(strings.EqualFold(f.Name[len(f.Name)-1], "CompanyName"), "the sort key is %v", f.Name)
''','an alias with upper-case letters','ORDER BY does not find the alias')
