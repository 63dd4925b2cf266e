package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C25", "Every tree transformation that the grammar contains is evaluated abstractly on every form of the list of tree nodes it can be given "+
		"(a fixpoint over the grammar, loops summarised): every type assertion must hold, every index must be proved inside its list, "+
		"and no path may panic. Production rules are evaluated on every combination of nodes they can match.", checkC25)
	register("C07", "The derivations of every list of conditions that is made from two operands are enumerated (text form and resulting value): the value "+
		"must be the left operand, the right operand and the opcode that the table of operators gives for the words between them.", checkC07)
	register("C08", "The production rules for conditions are extracted: NOT is reduced before AND, AND before OR, each AND/OR precedence from left to right, "+
		"each rule replaces its operands and its operator by the concatenation of the operands' lists and one operator; every form of "+
		"condition text gives the rules exactly its operands and operators in order, and parentheses pass on the inner list.", checkC08)
	register("C12", "The derivations of the query, its clauses and the sort keys are enumerated (text form and resulting value): each member must hold exactly the value of "+
		"its own clause or key part and its default when that is not written.", checkC12)
	register("C13", "The derivations of lists of names, objects, fields and arguments are enumerated: the result must be a comprehension with one element per written "+
		"item in order, and each element must hold exactly the name, alias, kind and parts of its own item.", checkC13)
	register("C10", "Every derivation of a literal as an operand, list element or function argument is enumerated; the literal's written form is classified by deciding the inclusion "+
		"of its language in that of the reference literals, and type tag, value and dynamic type must be those documented for that form.", checkC10)
	register("C11", "The derivations of the parts of quoted strings are enumerated: each escape sequence must produce the documented character, every other "+
		"text itself, and the quotes nothing; the parts are concatenated in order.", checkC11)
	register("C14", "Every time value that recognised text is turned into must be UTC(time.Parse(layout of its kind, exactly the text)), on every successful path, and a failed conversion must end in an error.", checkC14)
}

// shp is the shape analysis with the types the rules speak about.
type shp struct {
	escSeen map[string]bool // quote and escape sequences decoded
	r       *Run
	in      *Interp
	sh      *Shape
	root    []Alt
	g       *Gram
}

func (r *Run) shapes() *shp {
	in := r.interp()
	g, _ := in.rootGram()
	s := &shp{r: r, in: in, sh: newShape(in), g: g}
	s.root = s.sh.analyse(g)
	r.counts["tree transformations"] = len(s.sh.order)
	r.counts["abstract evaluations of transformations"] = s.sh.evals
	r.floor("tree transformations", 80)
	r.floor("abstract evaluations of transformations", 300)
	return s
}

const typesPkg = modPath + "/soql/parser/types"

// subsOf lists the forms of results with a type.
func (s *shp) subsOf(ty string) []*Sub {
	var r []*Sub
	for _, id := range s.sh.order {
		ti := s.sh.trans[id]
		for _, k := range ti.ord {
			sub := ti.subs[k]
			if len(sub.els) == 1 && sub.els[0].dyn != nil && shortType(sub.els[0].dyn) == ty {
				r = append(r, sub)
			}
		}
	}
	return r
}

// opaque tells whether a form of a result carries a value that is not a constant.
func opaque(s *Sub) bool {
	if len(s.els) == 0 {
		return false
	}
	for _, e := range s.els {
		if e.val != nil || e.dyn == nil {
			return false
		}
	}
	return true
}

// deriver stops at results of the given types other than root, or at all if none.
func (s *shp) deriver(root *Sub, tys ...string) *Deriver {
	return &Deriver{sh: s.sh, stop: func(x *Sub) bool {
		if x == root || !opaque(x) {
			return false
		}
		if len(tys) == 0 {
			return true
		}
		for _, t := range tys {
			if t == shortType(x.els[0].dyn) {
				return true
			}
		}
		return false
	}}
}

func (s *shp) derive(sub *Sub, tys ...string) []*Deriv {
	return s.deriver(sub, tys...).of(sub, "")
}

func unbox(v Val) Val {
	if i, ok := v.(*IfaceV); ok {
		return i.v
	}
	return v
}

// member selects a member of a struct value by name.
func member(v Val, name string) Val {
	v = unbox(v)
	switch x := v.(type) {
	case *StructV:
		st := under(x.typ).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return x.f[i]
			}
		}
		undec("there is no member %s in %s", name, shortType(x.typ))
	case *Term:
		return mk("."+name, nil, x)
	}
	undec("a value has no members: %s", trunc(v.k(), 120))
	return nil
}

// fieldNames lists the members of a struct type of the types package.
func (s *shp) fieldNames(ty string) []string {
	st := under(s.in.p.namedType(typesPkg, ty)).(*types.Struct)
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		r = append(r, st.Field(i).Name())
	}
	return r
}

func (s *shp) constant(name string) Val { return kInt(s.in.p.constInt(typesPkg, name)) }

// words are the keywords and signs of a derivation, top level only.
func words(ts []Tok) []string {
	var r []string
	for _, t := range ts {
		if t.kind == 'w' && t.text != "" {
			r = append(r, t.text)
		}
	}
	return r
}

func has(ws []string, w string) bool {
	for _, x := range ws {
		if x == w {
			return true
		}
	}
	return false
}

// leaves are the parts with a value of their own, top level only.
func leaves(ts []Tok) []Tok {
	var r []Tok
	for _, t := range ts {
		if t.kind == 'l' {
			r = append(r, t)
		}
	}
	return r
}

func leafType(t Tok) string {
	if len(t.els) == 1 && t.els[0].dyn != nil {
		return shortType(t.els[0].dyn)
	}
	return "?"
}

func where(s *Sub) string { return s.g.site }

func isZeroVal(v Val) bool {
	switch x := v.(type) {
	case NilV:
		return true
	case *Konst:
		return x.k() == "0" || x.k() == `""` || x.k() == "false" || x.k() == "f0"
	case *StructV:
		for _, f := range x.f {
			if !isZeroVal(f) {
				return false
			}
		}
		return true
	case *Term:
		return x.op == "seq" && len(x.args) == 0
	}
	return false
}

func show(v Val) string {
	return trunc(strings.ReplaceAll(v.k(), modPath+"/soql/parser/", ""), 160)
}

func checkC25(r *Run) {
	s := r.shapes()
	srcs := 0
	for _, id := range s.sh.order {
		ti := s.sh.trans[id]
		for _, x := range ti.srcs {
			srcs++
			if x.panic != "" {
				var els []*El
				if x.in != nil {
					els = append(append(append(els, x.in.prefix...), x.in.period...), x.in.soup...)
				}
				r.fail("panic:"+ti.g.name+":"+x.panic, "the transformation built at %s can panic: %s, given the tree nodes %s", ti.g.site, x.panic, trunc(elsKey(els), 200))
			}
		}
		for _, m := range ti.idx {
			r.fail("index:"+ti.g.name+":"+m, "the transformation built at %s: %s", ti.g.site, m)
		}
	}
	r.counts["evaluated forms"] = srcs
	r.counts["index obligations"] = s.sh.idxOb
	r.floor("evaluated forms", 300)
	r.floor("index obligations", 1000)
	// the root node that Parse takes out
	for _, a := range s.root {
		r.count("forms of the whole tree", 1)
		pre, rep, _, _ := s.sh.flatten(a)
		if len(pre) == 0 || rep != nil || pre[0].dyn == nil || shortType(pre[0].dyn) != "types.SoqlQuery" {
			r.fail("root", "recognised text can leave a tree whose first node is not a query")
		}
	}
	r.floor("forms of the whole tree", 1)
	r.sample("%d transformations, %d evaluated forms, %d index obligations", len(s.sh.order), srcs, s.sh.idxOb)
}

var opTable = map[string]string{
	"=": "Eq", "!=": "NotEq", "<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge",
	"like": "Like", "not like": "NotLike", "in": "In", "not in": "NotIn",
	"includes": "Includes", "excludes": "Excludes",
}

// condForms classifies the derivations of every list of conditions.
func (s *shp) condForms(f func(sub *Sub, d *Deriv, kind string)) {
	for _, sub := range s.subsOf("[]types.SoqlCondition") {
		for _, d := range s.derive(sub, "types.SoqlFieldInfo", "[]types.SoqlCondition") {
			fi, cl, other, rep := 0, 0, 0, false
			for _, t := range d.toks {
				switch {
				case t.kind == 'r':
					rep = true
				case t.kind != 'l':
				case leafType(t) == "types.SoqlFieldInfo":
					fi++
				case leafType(t) == "[]types.SoqlCondition":
					cl++
				default:
					other++
				}
			}
			v, _ := unbox(d.vals[0]).(*Term)
			kind := "other"
			switch {
			case v != nil && strings.HasPrefix(v.op, "inprod:"):
				kind = "production"
			case fi == 2 && cl == 0 && other == 0 && !rep:
				kind = "comparison"
			case fi == 0 && cl == 1 && other == 0 && !rep:
				kind = "pass"
			}
			f(sub, d, kind)
		}
	}
}

func checkC07(r *Run) {
	s := r.shapes()
	ops := map[string]map[string]bool{}
	s.condForms(func(sub *Sub, d *Deriv, kind string) {
		switch kind {
		case "production", "pass":
			return
		case "other":
			r.fail("form:"+d.String(), "the condition form %q at %s is neither a comparison of two operands nor built from conditions", d, where(sub))
			return
		}
		r.count("comparison forms", 1)
		var ls []Tok
		var between []string
		extra := false
		for _, t := range d.toks {
			switch {
			case t.kind == 'l':
				ls = append(ls, t)
			case t.kind == 'w' && t.text != "":
				if len(ls) == 1 {
					between = append(between, t.text)
				} else {
					extra = true
				}
			}
		}
		op := strings.Join(between, " ")
		want := opTable[op]
		if want == "" || extra {
			r.fail("operator:"+d.String(), "the comparison %q at %s is not one of the documented operators", d, where(sub))
			return
		}
		if ops[where(sub)] == nil {
			ops[where(sub)] = map[string]bool{}
		}
		ops[where(sub)][op] = true
		v, ok := unbox(d.vals[0]).(*Term)
		bad := func(what string, got Val) {
			r.fail("comparison:"+op+":"+what+":"+sub.g.name, "the comparison %q built at %s: the %s is %s", d, where(sub), what, show(got))
		}
		if !ok || v.op != "seq" || len(v.args) != 3 {
			bad("result, which has to be two operands and an operator,", d.vals[0])
			return
		}
		field := s.constant("SoqlConditionOpcode_FieldInfo")
		for i, what := range []string{"left operand", "right operand"} {
			c := v.args[i]
			if member(c, "Opcode").k() != field.k() || member(c, "Value").k() != unbox(ls[i].vals[0]).k() {
				bad(what, c)
			}
		}
		if got := member(v.args[2], "Opcode"); got.k() != s.constant("SoqlConditionOpcode_"+want).k() {
			bad("opcode", got)
		}
		r.sample("%s -> left, right, %s", op, want)
	})
	all := map[string]bool{}
	for _, m := range ops {
		for o := range m {
			all[o] = true
		}
	}
	for o := range opTable {
		if !all[o] {
			r.fail("missing:"+o, "no comparison with the operator %q produces conditions", o)
		}
	}
	s.rejections()
	r.counts["places with comparisons"] = len(ops)
	r.floor("comparison forms", 12)
}

// rejections checks that what is recognised is not turned into an error, other
// than by a conversion of its text that fails.
func (s *shp) rejections() {
	r := s.r
	for _, id := range s.sh.order {
		ti := s.sh.trans[id]
		for _, x := range ti.srcs {
			r.count("results examined for rejections", 1)
			if x.err == nil || convFailed(x.w.facts) {
				continue
			}
			if strings.HasSuffix(x.err.k(), "err:ProductionRule") {
				continue // that the rules reduce every condition is part of C08
			}
			r.fail("error:"+ti.g.name+":"+elsKey(x.in.prefix), "the transformation built at %s rejects what was recognised: %s", ti.g.site, show(x.err))
		}
	}
	r.floor("results examined for rejections", 500)
}

// convFailed tells whether a path is one on which the conversion of a text failed.
func convFailed(f *Facts) bool {
	for _, k := range f.ord {
		if strings.HasPrefix(k, "ok:") && !f.tv[k] {
			for _, c := range []string{"ok:time.Parse", "ok:ParseInt", "ok:ParseFloat", "ok:ParseUint", "ok:strconv."} {
				if strings.HasPrefix(k, c) {
					return true
				}
			}
		}
	}
	return false
}

func checkC12(r *Run) {
	s := r.shapes()
	// FOR
	flags := map[string]string{"View": "view", "Reference": "reference", "Update": "update", "UpdateTracking": "tracking", "UpdateViewstat": "viewstat"}
	names := s.fieldNames("SoqlForClause")
	for _, n := range names {
		if flags[n] == "" {
			undec("the member %s of SoqlForClause has no documented keyword", n)
		}
	}
	for _, sub := range s.subsOf("types.SoqlForClause") {
		for _, d := range s.derive(sub, "none") {
			ws := words(d.toks)
			r.count("forms of the FOR clause", 1)
			for _, n := range names {
				b, ok := asBool(member(d.vals[0], n))
				if !ok || b != has(ws, flags[n]) {
					r.fail("for:"+n+":"+strings.Join(ws, " "), "the clause %q built at %s sets %s to %s", strings.Join(ws, " "), where(sub), n, show(member(d.vals[0], n)))
				}
			}
			for _, t := range d.toks {
				if t.kind == 'r' || t.kind == 'l' {
					undec("the FOR clause at %s has parts that are not keywords: %q", where(sub), d)
				}
			}
		}
	}
	r.floor("forms of the FOR clause", 9)
	s.offsetLimit()
	s.orderBy()
	s.queries()
	// conditions are passed on
	s.condForms(func(sub *Sub, d *Deriv, kind string) {
		if kind != "pass" {
			return
		}
		r.count("conditions passed on", 1)
		ws := words(d.toks)
		if l := leaves(d.toks)[0]; unbox(d.vals[0]).k() != unbox(l.vals[0]).k() || has(ws, "not") || has(ws, "and") || has(ws, "or") {
			r.fail("pass:"+sub.g.name+strings.Join(ws, " "), "the conditions in %q are not passed on unchanged at %s", d, where(sub))
		}
	})
	r.floor("conditions passed on", 2)
}

// gramHas tells whether a grammar node contains one of the keywords.
func (s *shp) gramHas(g *Gram, kws ...string) bool {
	found := false
	s.in.walkGram(g, map[int]bool{}, func(x *Gram) {
		if x.op == "SeqI" || x.op == "Seq" {
			for _, k := range kws {
				if strings.EqualFold(x.strs[0], k) {
					found = true
				}
			}
		}
	})
	return found
}

func (s *shp) offsetLimit() {
	r := s.r
	for _, sub := range s.subsOf("types.SoqlOffsetAndLimitClause") {
		dv := &Deriver{sh: s.sh, stop: func(x *Sub) bool {
			return x != sub && opaque(x) && !s.gramHas(x.g, "offset", "limit")
		}}
		for _, d := range dv.of(sub, "") {
			r.count("forms of OFFSET and LIMIT", 1)
			want := map[string]Val{"Offset": kInt(0), "OffsetParamName": kStr(""), "Limit": kInt(0), "LimitParamName": kStr("")}
			cur := ""
			for _, t := range d.toks {
				switch {
				case t.kind == 'w' && t.text == "offset":
					cur = "Offset"
				case t.kind == 'w' && t.text == "limit":
					cur = "Limit"
				case t.kind == 'l':
					switch {
					case cur != "" && leafType(t) == "int64":
						want[cur] = unbox(t.vals[0])
					case cur != "" && leafType(t) == "string":
						want[cur+"ParamName"] = unbox(t.vals[0])
					default:
						undec("the clause %q at %s has a part of type %s", d, where(sub), leafType(t))
					}
					cur = ""
				case t.kind == 'r':
					undec("the clause %q at %s has a repetition", d, where(sub))
				}
			}
			for _, n := range sortedKeys(want) {
				if got := member(d.vals[0], n); got.k() != want[n].k() {
					r.fail("offset-limit:"+n+":"+d.String(), "the clauses %q built at %s set %s to %s", d, where(sub), n, show(got))
				}
			}
		}
	}
	r.floor("forms of OFFSET and LIMIT", 13)
}

// eachItem checks that a list holds one element per written item in order and
// calls f for every form of an item.
func (s *shp) eachItem(sub *Sub, d *Deriv, key string, f func(b *Deriv, el Val)) bool {
	r := s.r
	v := unbox(d.vals[0])
	t, ok := v.(*Term)
	if !ok {
		r.fail(key+":list", "the result of %q built at %s is not a list of its items: %s", d, where(sub), show(v))
		return false
	}
	var reps, fixed []Tok
	for _, x := range d.toks {
		switch x.kind {
		case 'r':
			reps = append(reps, x)
		case 'l':
			fixed = append(fixed, x)
		}
	}
	if t.op == "seq" && len(reps) == 0 {
		// a fixed number of items is left to the caller
		return true
	}
	if len(reps) != 1 {
		undec("the list %q built at %s does not consist of one repetition", d, where(sub))
	}
	if t.op != "comp" {
		r.fail(key+":list", "the list made of %q at %s does not have one element per item: %s", d, where(sub), show(v))
		return false
	}
	if len(fixed) == 0 {
		if n := d.src.in.n; n == nil || t.args[1].k() != n.k() || reps[0].min < 1 {
			r.fail(key+":count", "the list made of %q at %s has %s elements", d, where(sub), show(t.args[1]))
			return false
		}
	} else {
		if n := d.src.in.n; n == nil || t.args[1].k() != n.k() {
			r.fail(key+":count", "the list made of %q at %s has %s elements", d, where(sub), show(t.args[1]))
			return false
		}
	}
	dv := &Deriver{sh: s.sh}
	for _, b := range reps[0].bodies {
		el := dv.inst(t, b)
		r.count("forms of list items", 1)
		if strings.Contains(el.k(), "in*:") || strings.Contains(el.k(), t.args[0].k()) {
			r.fail(key+":index:"+b.String(), "the element for the item %q of the list made at %s is not made of that item: %s", b, where(sub), show(el))
			continue
		}
		f(b, el)
	}
	return true
}

// expect compares the members of a struct value.
func (s *shp) expect(key, what string, v Val, want map[string]Val, ty string) {
	for _, n := range s.fieldNames(ty) {
		got := member(v, n)
		w, ok := want[n]
		if !ok {
			continue
		}
		if w == nil {
			if !isZeroVal(got) {
				s.r.fail(key+":"+n, "%s: %s is %s instead of empty", what, n, show(got))
			}
			continue
		}
		if got.k() != w.k() {
			s.r.fail(key+":"+n, "%s: %s is %s", what, n, show(got))
		}
	}
}

func (s *shp) orderBy() {
	r := s.r
	for _, sub := range s.subsOf("[]types.SoqlOrderByInfo") {
		for _, d := range s.derive(sub, "[]string", "string", "[]types.SoqlOrderByInfo") {
			ls := leaves(d.toks)
			if len(ls) == 1 && leafType(ls[0]) == "[]types.SoqlOrderByInfo" {
				if unbox(d.vals[0]).k() != unbox(ls[0].vals[0]).k() {
					r.fail("order-pass:"+sub.g.name, "the sort keys in %q are not passed on unchanged at %s", d, where(sub))
				}
				continue
			}
			s.eachItem(sub, d, "order", func(b *Deriv, el Val) {
				r.count("forms of sort keys", 1)
				ws := words(b.toks)
				bl := leaves(b.toks)
				if len(bl) != 1 || leafType(bl[0]) != "[]string" {
					undec("the sort key %q at %s is not one name with its order", b, where(sub))
				}
				what := fmt.Sprintf("the sort key %q built at %s", b, where(sub))
				s.expect("order:"+b.String(), what, el, map[string]Val{"Desc": kBool(has(ws, "desc")), "NullsLast": kBool(has(ws, "last"))}, "SoqlOrderByInfo")
				s.expect("order:"+b.String(), what, member(el, "Field"), s.fieldWant("SoqlFieldInfo_Field", map[string]Val{"Name": unbox(bl[0].vals[0])}), "SoqlFieldInfo")
			})
		}
	}
	r.floor("forms of sort keys", 9)
}

// fieldWant is a field with the given members and nothing else.
func (s *shp) fieldWant(tag string, m map[string]Val) map[string]Val {
	w := map[string]Val{}
	for _, n := range s.fieldNames("SoqlFieldInfo") {
		w[n] = nil
	}
	delete(w, "ClassName") // internal, not part of the result
	w["Type"] = s.constant(tag)
	for k, v := range m {
		w[k] = v
	}
	return w
}

func (s *shp) queries() {
	r := s.r
	kinds := []string{"[]types.SoqlFieldInfo", "[]types.SoqlObjectInfo", "[]types.SoqlCondition", "[]types.SoqlOrderByInfo", "types.SoqlOffsetAndLimitClause", "types.SoqlForClause", "types.SoqlQuery"}
	members := map[string]string{"select": "Fields", "from": "From", "where": "Where", "group": "GroupBy", "having": "Having", "order": "OrderBy",
		"offset": "OffsetAndLimit", "limit": "OffsetAndLimit", "for": "For"}
	first := map[*Sub]string{}
	clause := func(t Tok) string {
		if c, ok := first[t.sub]; ok {
			return c
		}
		first[t.sub] = ""
		set := map[string]bool{}
		dv := &Deriver{sh: s.sh, stop: func(x *Sub) bool {
			if x == t.sub || !opaque(x) {
				return false
			}
			ty := shortType(x.els[0].dyn)
			return has(kinds, ty) || ty == "types.SoqlFieldInfo" || !s.gramHas(x.g, sortedKeys(members)...)
		}}
		for _, d := range dv.of(t.sub, "") {
			w := ""
			for _, x := range d.toks {
				if x.kind == 'l' || x.kind == 'r' {
					break
				}
				if x.kind == 'w' && members[x.text] != "" {
					w = x.text
					break
				}
			}
			set[w] = true
		}
		if len(set) == 2 && set["offset"] && set["limit"] {
			delete(set, "limit")
		}
		if len(set) != 1 {
			undec("the part at %s does not start with one keyword: %v", where(t.sub), sortedKeys(set))
		}
		for w := range set {
			first[t.sub] = w
		}
		return first[t.sub]
	}
	for _, sub := range s.subsOf("types.SoqlQuery") {
		for _, d := range s.derive(sub, kinds...) {
			ls := leaves(d.toks)
			if len(ls) == 1 && leafType(ls[0]) == "types.SoqlQuery" {
				if unbox(d.vals[0]).k() != unbox(ls[0].vals[0]).k() {
					r.fail("query-pass:"+sub.g.name, "the query in %q is not passed on unchanged at %s", d, where(sub))
				}
				r.count("queries passed on", 1)
				continue
			}
			r.count("forms of queries", 1)
			want := map[string]Val{"IsAggregation": kBool(false)}
			for _, m := range members {
				want[m] = nil
			}
			cur := ""
			for _, t := range d.toks {
				switch {
				case t.kind == 'w' && members[t.text] != "":
					cur = t.text
				case t.kind == 'l':
					c := clause(t)
					if c == "" {
						c = cur
					}
					m := members[c]
					if m == "" {
						undec("the part %s of %q at %s belongs to no clause", leafType(t), d, where(sub))
					}
					if want[m] != nil {
						undec("the clause %s appears twice (%s at %s) in %q at %s", c, leafType(t), where(t.sub), d, where(sub))
					}
					want[m] = unbox(t.vals[0])
					if c == "group" {
						want["IsAggregation"] = kBool(true)
					}
				case t.kind == 'r':
					undec("the query %q at %s has a repetition", d, where(sub))
				}
			}
			s.expect("query:"+d.String(), fmt.Sprintf("the query %q built at %s", d, where(sub)), d.vals[0], want, "SoqlQuery")
		}
	}
	r.floor("forms of queries", 48)
	r.floor("queries passed on", 1)
}

var literalTypes = map[string]bool{"int64": true, "float64": true, "string": true, "time.Time": true, "types.SoqlDateTimeLiteralName": true}

func checkC13(r *Run) {
	s := r.shapes()
	// names
	for _, sub := range s.subsOf("[]string") {
		for _, d := range s.derive(sub, "string", "[]string") {
			s.eachItem(sub, d, "name", func(b *Deriv, el Val) {
				r.count("forms of name parts", 1)
				bl := leaves(b.toks)
				if len(bl) != 1 || leafType(bl[0]) != "string" || unbox(el).k() != unbox(bl[0].vals[0]).k() {
					r.fail("name:"+b.String(), "the part %q of a dotted name built at %s is not kept as written: %s", b, where(sub), show(el))
				}
			})
		}
	}
	r.floor("forms of name parts", 2)
	s.plainNames()
	// objects
	for _, sub := range s.subsOf("[]types.SoqlObjectInfo") {
		for _, d := range s.derive(sub, "string", "[]string", "[]types.SoqlObjectInfo") {
			s.eachItem(sub, d, "from", func(b *Deriv, el Val) {
				r.count("forms of objects", 1)
				bl := leaves(b.toks)
				want := map[string]Val{}
				for _, n := range s.fieldNames("SoqlObjectInfo") {
					want[n] = nil
				}
				if len(bl) < 1 || len(bl) > 2 || leafType(bl[0]) != "[]string" || len(bl) == 2 && leafType(bl[1]) != "string" {
					undec("the object %q at %s is not a name with an alias", b, where(sub))
				}
				want["Name"] = unbox(bl[0].vals[0])
				if len(bl) == 2 {
					want["AliasName"] = unbox(bl[1].vals[0])
				}
				s.expect("from:"+b.String(), fmt.Sprintf("the object %q built at %s", b, where(sub)), el, want, "SoqlObjectInfo")
			})
		}
	}
	r.floor("forms of objects", 2)
	// fields
	lists := 0
	for _, sub := range s.subsOf("[]types.SoqlFieldInfo") {
		for _, d := range s.derive(sub, "types.SoqlFieldInfo", "[]string", "[]types.SoqlFieldInfo") {
			lists++
			s.eachItem(sub, d, "fields", func(b *Deriv, el Val) {
				r.count("forms of items in field lists", 1)
				bl := leaves(b.toks)
				if len(bl) != 1 {
					undec("the item %q at %s is not one field", b, where(sub))
				}
				what := fmt.Sprintf("the item %q of the list built at %s", b, where(sub))
				switch leafType(bl[0]) {
				case "types.SoqlFieldInfo":
					if unbox(el).k() != unbox(bl[0].vals[0]).k() {
						r.fail("fields:"+b.String(), "%s is not kept as it is: %s", what, show(el))
					}
				case "[]string":
					s.expect("fields:"+b.String(), what, el, s.fieldWant("SoqlFieldInfo_Field", map[string]Val{"Name": unbox(bl[0].vals[0])}), "SoqlFieldInfo")
				default:
					undec("%s has the type %s", what, leafType(bl[0]))
				}
			})
		}
	}
	r.counts["forms of field lists"] = lists
	r.floor("forms of field lists", 2)
	// list elements and arguments: count and order; their values are C10
	for _, sub := range s.subsOf("[]types.SoqlListItem") {
		for _, d := range s.derive(sub) {
			s.eachItem(sub, d, "list", func(b *Deriv, el Val) {
				r.count("forms of list elements", 1)
				if bl := leaves(b.toks); len(bl) == 1 {
					v := unbox(bl[0].vals[0])
					if unbox(member(el, "Value")).k() != v.k() {
						r.fail("list:"+b.String(), "the element %q of the list built at %s has the value %s", b, where(sub), show(member(el, "Value")))
					}
				}
			})
		}
	}
	r.floor("forms of list elements", 12)
	for _, sub := range s.subsOf("types.SoqlFieldInfo") {
		for _, d := range s.derive(sub) {
			s.fieldForm(sub, d, true, false)
		}
	}
	r.floor("forms of fields", 8)
	r.floor("forms of function calls", 10)
	r.floor("forms of arguments", 12)
}

// plainNames checks that an identifier is the text that was recognised.
func (s *shp) plainNames() {
	r := s.r
	for _, sub := range s.subsOf("string") {
		if sub.els[0].val != nil || !inRepo(sub.g.site) {
			continue
		}
		ds := s.derive(sub, "string")
		for _, d := range ds {
			v := unbox(d.vals[0])
			ls := leaves(d.toks)
			switch {
			case len(ls) == 1 && !hasRep(d.toks):
				// passed on: a name, perhaps after a sign
				if v.k() != unbox(ls[0].vals[0]).k() {
					if t, ok := v.(*Term); ok && (t.op == "upper" || t.op == "lower") {
						r.fail("text-pass:"+sub.g.name, "the letter case of the text in %q is changed at %s", d, where(sub))
						continue
					}
					if strings.Contains(v.k(), "leaf:") && strings.Contains(v.k(), "Int(") {
						continue // a character given by its code
					}
					r.fail("text-pass:"+sub.g.name, "the text in %q is not passed on unchanged at %s: %s", d, where(sub), show(v))
				}
				r.count("texts passed on", 1)
			case len(ls) == 0:
				t, ok := v.(*Term)
				if ok && t.op == "text" {
					r.count("texts kept as written", 1)
				}
			}
		}
	}
	r.floor("texts kept as written", 1)
}

// inRepo tells whether a site is in this repository, not in a dependency.
func inRepo(site string) bool {
	return !strings.HasPrefix(site, "github.com/") || strings.HasPrefix(site, modPath)
}

func hasRep(ts []Tok) bool {
	for _, t := range ts {
		if t.kind == 'r' {
			return true
		}
	}
	return false
}

// fieldForm checks one derivation of a field; literals only if asked for.
func (s *shp) fieldForm(sub *Sub, d *Deriv, structural, literals bool) {
	r := s.r
	v := d.vals[0]
	ls := leaves(d.toks)
	ws := words(d.toks)
	what := fmt.Sprintf("%q built at %s", d, where(sub))
	key := "field:" + sub.g.name + ":" + d.String()
	if len(ls) > 0 && leafType(ls[0]) == "string" && has(ws, "(") {
		// function call
		if structural {
			r.count("forms of function calls", 1)
			want := s.fieldWant("SoqlFieldInfo_Function", map[string]Val{"Name": mk("seq", nil, unbox(ls[0].vals[0]))})
			delete(want, "Parameters")
			s.expect("call:"+sub.g.name, "the function call "+what, v, want, "SoqlFieldInfo")
		}
		params := member(v, "Parameters")
		if !hasRep(d.toks) {
			if len(ls) == 1 && !literalWords(ws) {
				if structural && !isZeroVal(params) {
					r.fail("call-noargs:"+sub.g.name, "the function call %s without arguments has the arguments %s", what, show(params))
				}
				return
			}
		}
		pd := &Deriv{toks: nil, vals: []Val{params}, src: d.src}
		for _, t := range d.toks {
			if t.kind == 'r' {
				pd.toks = append(pd.toks, t)
			}
		}
		if len(ls) > 1 || !hasRep(d.toks) {
			undec("the function call %s has arguments outside of a repetition", what)
		}
		s.eachItem(sub, pd, "call:"+sub.g.name, func(b *Deriv, el Val) {
			s.argument(sub, b, el, structural, literals)
		})
		return
	}
	if hasRep(d.toks) {
		undec("the field %s has a repetition", what)
	}
	s.operand(sub, d.toks, v, what, key, structural, literals)
}

func literalWords(ws []string) bool {
	for _, w := range ws {
		if _, ok := wordLiterals[w]; ok {
			return true
		}
	}
	return false
}

func (s *shp) argument(sub *Sub, b *Deriv, el Val, structural, literals bool) {
	s.r.count("forms of arguments", 1)
	s.operand(sub, b.toks, el, fmt.Sprintf("the argument %q of the function call built at %s", b, where(sub)), "argument:"+sub.g.name+":"+b.String(), structural, literals)
}

// operand checks a field that stands for one written item with an optional alias.
func (s *shp) operand(sub *Sub, toks []Tok, v Val, what, key string, structural, literals bool) {
	r := s.r
	ls := leaves(toks)
	ws := words(toks)
	var alias Val = kStr("")
	if len(ls) == 2 && leafType(ls[1]) == "string" {
		alias = unbox(ls[1].vals[0])
		ls = ls[:1]
	}
	if len(ls) > 1 {
		undec("%s has several parts", what)
	}
	ty := ""
	var lv Val
	if len(ls) == 1 {
		ty = leafType(ls[0])
		lv = unbox(ls[0].vals[0])
	}
	switch {
	case ty == "types.SoqlFieldInfo":
		if !structural {
			return
		}
		r.count("forms of fields", 1)
		if unbox(v).k() == lv.k() {
			if alias.k() != `""` {
				r.fail(key+":AliasName", "%s: the alias is lost", what)
			}
			return
		}
		want := map[string]Val{}
		for _, n := range s.fieldNames("SoqlFieldInfo") {
			want[n] = member(lv, n)
		}
		want["AliasName"] = alias
		s.expect(key, what, v, want, "SoqlFieldInfo")
	case ty == "[]string":
		if !structural {
			return
		}
		r.count("forms of fields", 1)
		s.expect(key, what, v, s.fieldWant("SoqlFieldInfo_Field", map[string]Val{"Name": lv, "AliasName": alias}), "SoqlFieldInfo")
	case ty == "types.SoqlQuery":
		if !structural {
			return
		}
		r.count("forms of fields", 1)
		s.expect(key, what, v, s.fieldWant("SoqlFieldInfo_SubQuery", map[string]Val{"SubQuery": mk("ptr", nil, lv), "AliasName": alias}), "SoqlFieldInfo")
	case ty == "[]types.SoqlListItem":
		r.count("forms of fields", 1)
		want := s.fieldWant("SoqlFieldInfo_Literal_List", map[string]Val{"AliasName": alias})
		delete(want, "Value")
		s.expect(key, what, v, want, "SoqlFieldInfo")
		if unbox(member(v, "Value")).k() != lv.k() {
			r.fail(key+":Value", "%s: the value is %s", what, show(member(v, "Value")))
		}
	case ty == "" || literalTypes[ty]:
		if !literals {
			return
		}
		s.literal(toks, what, key, func(tag string, val Val, dyn string, name Val) {
			w := s.fieldWant("SoqlFieldInfo_"+tag, map[string]Val{"AliasName": alias})
			delete(w, "Value")
			if name != nil {
				w["Name"] = mk("seq", nil, name)
			}
			if tag == "ParameterizedValue" {
				val, dyn = nil, ""
			}
			s.expect(key, what, v, w, "SoqlFieldInfo")
			s.litValue(key, what, member(v, "Value"), val, dyn)
		})
	default:
		undec("%s has a part of type %s (%v)", what, ty, ws)
	}
}

func (s *shp) litValue(key, what string, got, val Val, dyn string) {
	if val == nil {
		if _, ok := got.(NilV); !ok {
			s.r.fail(key+":Value", "%s: the value is %s instead of nil", what, show(got))
		}
		return
	}
	i, ok := got.(*IfaceV)
	if !ok || i.v.k() != val.k() {
		s.r.fail(key+":Value", "%s: the value is %s instead of %s", what, show(got), show(val))
		return
	}
	if shortType(i.dyn) != dyn {
		s.r.fail(key+":Go type", "%s: the value has the type %s, %s is documented", what, shortType(i.dyn), dyn)
	}
}

// literals that are only words: tag, Go type, value
var wordLiterals = map[string][3]string{
	"null": {"Literal_Null", "", ""}, "true": {"Literal_Bool", "bool", "true"}, "false": {"Literal_Bool", "bool", "false"},
	"nan": {"Literal_Float", "float64", "fNaN"}, "infinity": {"Literal_Float", "float64", "f+Inf"},
	"+infinity": {"Literal_Float", "float64", "f+Inf"}, "-infinity": {"Literal_Float", "float64", "f-Inf"},
}

// reference rule -> tag, Go type
var litRules = []struct{ rule, tag, dyn string }{
	{"intlit", "Literal_Int", "int64"}, {"floatlit", "Literal_Float", "float64"}, {"string", "Literal_String", "string"},
	{"date", "Literal_Date", "time.Time"}, {"datetime", "Literal_DateTime", "time.Time"}, {"time", "Literal_Time", "time.Time"},
	{"param", "ParameterizedValue", "string"}, {"datelit", "DateTimeLiteralName", "types.SoqlDateTimeLiteralName"},
}

// literal finds out which kind of literal was written.
func (s *shp) literal(toks []Tok, what, key string, f func(tag string, val Val, dyn string, name Val)) {
	ls := leaves(toks)
	var ws []string
	for _, w := range words(toks) {
		if w != "," {
			ws = append(ws, w)
		}
	}
	s.r.count("literal forms", 1)
	if len(ls) == 0 {
		w, ok := wordLiterals[strings.Join(ws, "")]
		if !ok {
			undec("%s is not a literal that is documented (%v)", what, ws)
		}
		if w[1] == "" {
			f(w[0], nil, "", nil)
			return
		}
		var v Val = kFlt(strings.TrimPrefix(w[2], "f"))
		if w[1] == "bool" {
			v = kBool(w[2] == "true")
		}
		f(w[0], v, w[1], nil)
		return
	}
	if literalWords(ws) {
		undec("%s has a value and the words %v", what, ws)
	}
	cls := s.classify(ls[0].sub.g)
	if len(cls) != 1 {
		undec("%s is not exactly one kind of documented literal: %v", what, cls)
	}
	lv := unbox(ls[0].vals[0])
	for _, lr := range litRules {
		if lr.rule != cls[0] {
			continue
		}
		switch lr.rule {
		case "param":
			f(lr.tag, lv, lr.dyn, lv)
		case "datelit":
			f(lr.tag, lv, lr.dyn, member(lv, "Name"))
		default:
			f(lr.tag, lv, lr.dyn, nil)
		}
		return
	}
}

var clsMemo = map[int][]string{}

// classify decides of which literals' languages a node's language is a part.
func (s *shp) classify(g *Gram) []string {
	if c, ok := clsMemo[g.id]; ok {
		return c
	}
	r := []string{}
	for _, lr := range litRules {
		l := newLang()
		e := newConv(s.in, l).exp(g)
		rg := newRefGram(l)
		ref := l.seq(rg.rule(lr.rule), rg.rule("sp"))
		l.classify()
		s.r.count("language inclusions decided", 1)
		if included(newAuto(l, e, 0, 2), newAuto(l, ref, 0, 2), 200000) {
			r = append(r, lr.rule)
		}
	}
	clsMemo[g.id] = r
	return r
}

// included decides whether b accepts everything that a accepts.
func included(a, b *Auto, limit int) bool {
	seen := map[[2]int32]bool{{0, 0}: true}
	q := [][2]int32{{0, 0}}
	any := false
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		if a.accepts(p[0]) {
			any = true
			if !b.accepts(p[1]) {
				return false
			}
		}
		for c := range a.l.classes {
			n := [2]int32{a.step(p[0], c), b.step(p[1], c)}
			if a.dead(n[0]) || seen[n] {
				continue
			}
			seen[n] = true
			q = append(q, n)
		}
		if len(seen) > limit {
			undec("the inclusion of grammar languages needs more than %d states", limit)
		}
	}
	return any
}

func checkC10(r *Run) {
	s := r.shapes()
	places := 0
	for _, sub := range s.subsOf("types.SoqlFieldInfo") {
		for _, d := range s.derive(sub) {
			s.fieldForm(sub, d, false, true)
		}
		places++
	}
	for _, sub := range s.subsOf("[]types.SoqlListItem") {
		places++
		for _, d := range s.derive(sub) {
			s.eachItem(sub, d, "list", func(b *Deriv, el Val) {
				what := fmt.Sprintf("the element %q of the list built at %s", b, where(sub))
				key := "list:" + b.String()
				s.literal(b.toks, what, key, func(tag string, val Val, dyn string, name Val) {
					if got := member(el, "Type"); got.k() != s.constant("SoqlFieldInfo_"+tag).k() {
						r.fail(key+":Type", "%s: Type is %s", what, show(got))
					}
					s.litValue(key, what, member(el, "Value"), val, dyn)
				})
			})
		}
	}
	r.counts["places for literals"] = places
	r.floor("literal forms", 60)
	r.floor("language inclusions decided", 40)
	s.numbers()
	s.dateNames()
}

// numbers checks the conversions of written numbers.
func (s *shp) numbers() {
	r := s.r
	for _, ty := range []string{"int64", "float64"} {
		for _, sub := range s.subsOf(ty) {
			if sub.els[0].val != nil {
				continue
			}
			for _, d := range s.derive(sub, "string", "int64", "float64") {
				r.count("conversions of numbers", 1)
				v := unbox(d.vals[0])
				ls := leaves(d.toks)
				what := fmt.Sprintf("the number %q built at %s", d, where(sub))
				if hasRep(d.toks) {
					undec("%s has a repetition", what)
				}
				if len(ls) == 1 && leafType(ls[0]) == ty {
					if v.k() != unbox(ls[0].vals[0]).k() {
						r.fail("number-pass:"+sub.g.name, "%s is not passed on unchanged", what)
					}
					continue
				}
				var text Val
				switch {
				case len(ls) == 1 && leafType(ls[0]) == "string":
					text = unbox(ls[0].vals[0])
				case len(ls) == 0:
					text = textOf(d.toks)
				}
				base := "10"
				ws := words(d.toks)
				for _, w := range ws {
					switch w {
					case "0b":
						base = "2"
					case "0o":
						base = "8"
					case "0x":
						base = "16"
					}
				}
				if text == nil {
					undec("the text of %s is not known", what)
				}
				ok := false
				if t, isT := v.(*Term); isT {
					if ty == "int64" {
						ok = t.op == "ParseInt" && t.args[0].k() == text.k() && t.args[1].k() == base && t.args[2].k() == "64"
						ok = ok || t.op == "Atoi" && t.args[0].k() == text.k() && base == "10"
					} else {
						ok = t.op == "ParseFloat" && t.args[0].k() == text.k() && t.args[1].k() == "64"
					}
				}
				if !ok {
					r.fail("number:"+sub.g.name+":"+d.String(), "%s is converted to %s", what, show(v))
				}
			}
		}
	}
	r.floor("conversions of numbers", 6)
}

// textOf is the text of keyword tokens, when it is constant.
func textOf(ts []Tok) Val {
	s := ""
	for _, t := range ts {
		if t.kind != 'w' {
			continue
		}
		if len(t.vals) == 1 {
			c, ok := asStr(unbox(t.vals[0]))
			if !ok {
				return nil
			}
			s += c
		}
	}
	return kStr(s)
}

// dateNames checks the names of date literals.
func (s *shp) dateNames() {
	r := s.r
	for _, sub := range s.subsOf("types.SoqlDateTimeLiteralName") {
		for _, d := range s.derive(sub, "int64", "types.SoqlDateTimeLiteralName") {
			r.count("date literal names", 1)
			ls := leaves(d.toks)
			name := ""
			for _, w := range words(d.toks) {
				if w != ":" {
					name += w
				}
			}
			what := fmt.Sprintf("the date literal %q built at %s", d, where(sub))
			if hasRep(d.toks) || len(ls) > 1 {
				undec("%s has an unexpected form", what)
			}
			if got := member(d.vals[0], "Name"); got.k() != kStr(strings.ToUpper(name)).k() {
				r.fail("datelit:"+name, "%s: the name is %s", what, show(got))
			}
			n := member(d.vals[0], "N")
			if len(ls) == 0 {
				if n.k() != "0" {
					r.fail("datelit-n:"+name, "%s: N is %s", what, show(n))
				}
			} else if x := stripConv(n); x.k() != unbox(ls[0].vals[0]).k() {
				r.fail("datelit-n:"+name, "%s: N is %s", what, show(n))
			}
		}
	}
	r.floor("date literal names", 37)
}

func stripConv(v Val) Val {
	if t, ok := v.(*Term); ok && strings.HasPrefix(t.op, "conv") && len(t.args) == 1 {
		return stripConv(t.args[0])
	}
	return v
}

func checkC14(r *Run) {
	s := r.shapes()
	kinds := map[string]bool{}
	for _, sub := range s.subsOf("time.Time") {
		for _, d := range s.derive(sub, "string", "time.Time") {
			r.count("conversions of times", 1)
			v := unbox(d.vals[0])
			ls := leaves(d.toks)
			what := fmt.Sprintf("the value %q built at %s", d, where(sub))
			if len(ls) == 1 && leafType(ls[0]) == "time.Time" {
				if v.k() != unbox(ls[0].vals[0]).k() {
					r.fail("time-pass:"+sub.g.name, "%s is not passed on unchanged", what)
				}
				continue
			}
			if len(ls) != 1 || leafType(ls[0]) != "string" || len(words(d.toks)) > 0 || hasRep(d.toks) {
				undec("%s is not one text", what)
			}
			text := unbox(ls[0].vals[0])
			cls := s.classify(sub.g)
			if len(cls) != 1 {
				undec("%s is not exactly one kind of documented literal: %v", what, cls)
			}
			kind := cls[0]
			kinds[kind] = true
			u, ok := isTerm(v, "(time.Time).UTC")
			if !ok {
				r.fail("utc:"+kind, "%s (a %s) is not normalised to UTC: %s", what, kind, show(v))
				continue
			}
			p, ok := u.args[0].(*Term)
			if !ok || p.op != "time.Parse" {
				r.fail("parse:"+kind, "%s (a %s) does not come from time.Parse: %s", what, kind, show(v))
				continue
			}
			layout, ok := asStr(p.args[0])
			if !ok {
				undec("the layout of %s is not a constant", what)
			}
			pre, post := "", ""
			wantText := text.k()
			var layouts []string
			switch kind {
			case "date":
				layouts = []string{"2006-01-02"}
			case "datetime":
				layouts = layoutsOf("2006-01-02T15:04:05")
			case "time":
				pre, post = "1970-01-01T", "+00:00"
				layouts = layoutsOf("2006-01-02T15:04:05")
				wantText = concatVal(concatVal(kStr(pre), text), kStr(post)).k()
				if p.args[1].k() == concatVal(concatVal(kStr(pre), text), kStr("Z")).k() {
					wantText = p.args[1].k()
					layouts = zLayouts(layouts)
				}
			default:
				r.fail("kind:"+kind, "%s is a %s", what, kind)
				continue
			}
			if p.args[1].k() != wantText {
				r.fail("text:"+kind, "%s (a %s) is converted from the text %s", what, kind, show(p.args[1]))
			}
			if !has(layouts, layout) {
				r.fail("layout:"+kind, "%s (a %s) is converted with the layout %q", what, kind, layout)
			}
			r.sample("%s: %s", kind, show(v))
		}
		// a failed conversion ends in an error
		for _, src := range sub.srcs {
			for _, k := range src.w.facts.ord {
				if strings.HasPrefix(k, "ok:time.Parse") && !src.w.facts.tv[k] {
					r.fail("failed:"+sub.g.name, "a value is made at %s although the conversion failed", where(sub))
				}
			}
			if !factTrue(src.w.facts, "ok:time.Parse") && len(leavesOfAlt(src.alt, "time.Time")) == 0 {
				r.fail("unchecked:"+sub.g.name, "a value is made at %s without having checked that the conversion succeeded", where(sub))
			}
		}
	}
	for _, k := range []string{"date", "datetime", "time"} {
		if !kinds[k] {
			r.fail("missing:"+k, "no transformation makes the value of a %s", k)
		}
	}
	r.floor("conversions of times", 3)
}

func leavesOfAlt(a Alt, ty string) []*El {
	var r []*El
	for _, p := range a.ps {
		if p.kind == 'e' && p.el.dyn != nil && shortType(p.el.dyn) == ty {
			r = append(r, p.el)
		}
	}
	return r
}

func factTrue(f *Facts, prefix string) bool {
	for _, k := range f.ord {
		if strings.HasPrefix(k, prefix) && f.tv[k] {
			return true
		}
	}
	return false
}

// layoutsOf gives the equivalent layouts with a fraction and a zone.
func layoutsOf(base string) []string {
	var r []string
	for _, f := range []string{".000000000", ".999999999", ",000000000", ",999999999", ".999", ".000", ".000000", ".999999", ""} {
		for _, z := range []string{"-07:00", "Z07:00"} {
			r = append(r, base+f+z)
		}
	}
	sort.Strings(r)
	return r
}

func zLayouts(ls []string) []string {
	var r []string
	for _, l := range ls {
		if strings.HasSuffix(l, "Z07:00") {
			r = append(r, l)
		}
	}
	return r
}
