package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "The members of the meta information are traced to the maps the normalisation stage fills. Under the assumption that a function, bind parameter or date literal stands at a place of the statement, no return reporting success may be reachable without adding its lower-case name to its map; "+
		"under no assumption may one be reachable without the graph entry of the query, of each of its objects, and without the call for each subquery. The source text must be the text passed to Parse.", checkC21)
}

// role is where the normalisation of a query finds a value: in a parameter or
// in a member of what a parameter points to.
type role struct {
	param  int
	member string
}

// roles finds what the outermost call of the normalisation is given for what
// the members of the meta information end up with.
func (po *post) roles() map[string]role {
	f := po.flow()
	f.opaque[po.qFn] = true
	var call *FEvent
	ctxOf := map[*T]role{}
	f.onEv = func(e *FEvent) {
		c, ok := e.site.(ssa.CallInstruction)
		if e.kind != "call" || !ok || c.Common().StaticCallee() != po.qFn {
			return
		}
		call = e
		for i, a := range e.args {
			ctxOf[a] = role{i, ""}
			pt, ok := under(po.qFn.Params[i].Type()).(*types.Pointer)
			if !ok {
				continue
			}
			st, ok := under(pt.Elem()).(*types.Struct)
			if !ok || i == po.qParam {
				continue
			}
			for k := 0; k < st.NumFields(); k++ {
				ctxOf[f.fa(a, pt.Elem(), k)] = role{i, st.Field(k).Name()}
				if _, isMap := under(st.Field(k).Type()).(*types.Map); isMap {
					if v := e.st.mem[f.fa(a, pt.Elem(), k)]; v != nil && v.op == "makemap" {
						ctxOf[v] = role{i, st.Field(k).Name()}
					}
				}
			}
		}
	}
	roles := map[string]role{}
	var q *T
	for _, x := range po.norm.Params {
		if pt, ok := types.Unalias(x.Type()).(*types.Pointer); ok && typeKey(pt.Elem()) == typeKey(po.p.namedType(typesPkg, "SoqlQuery")) {
			q = f.param(x)
		}
	}
	rets := f.start(po.norm, nil)
	if call == nil {
		undec("%s does not call %s", shortFn(po.norm), shortFn(po.qFn))
	}
	qt := po.p.namedType(typesPkg, "SoqlQuery")
	mt := po.p.namedType(typesPkg, "SoqlQueryMeta")
	for _, r := range rets {
		if r.pan || f.truth(r.st, f.eq(r.vals[len(r.vals)-1], f.nilc())) == 0 {
			continue
		}
		meta := f.load(r.st, f.fa(q, qt, fieldIndex(qt, "Meta")), types.NewPointer(mt))
		u := under(mt).(*types.Struct)
		for k := 0; k < u.NumFields(); k++ {
			v := r.st.mem[f.fa(meta, mt, k)]
			if v == nil {
				continue
			}
			x, ok := ctxOf[v]
			if !ok && v.op == "load" {
				x, ok = ctxOf[v.args[0]]
			}
			n := u.Field(k).Name()
			if !ok {
				continue
			}
			if y, was := roles[n]; was && y != x {
				undec("the member %s of the meta information has several sources", n)
			}
			roles[n] = x
		}
	}
	return roles
}

func fieldIndex(t *types.Named, name string) int {
	u := under(t).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	undec("%s has no member %s", typeKey(t), name)
	return -1
}

// isRole tells whether a value is the one found at a role.
func (s *scen) isRole(v *T, ro role) bool {
	var at *T
	for i, x := range s.fn.Params {
		if types.Identical(x.Type(), s.po.qFn.Params[ro.param].Type()) && (s.fn != s.po.qFn || i == ro.param) {
			at = s.args[i]
		}
	}
	if ro.member == "" {
		return v == at
	}
	for _, x := range s.f.leaves(v) {
		if x.op != "load" || x.args[0].op != "fa" || x.args[0].c != ro.member || x.args[0].args[0] != at {
			return false
		}
	}
	return true
}

func checkC21(r *Run) {
	po := r.post()
	roles := po.roles()
	need := func(n string) role {
		ro, ok := roles[n]
		if !ok {
			r.fail("meta:"+n, "the member %s of the meta information is not set from what %s is given when %s succeeds", n, shortFn(po.qFn), shortFn(po.norm))
		}
		return ro
	}
	names := map[string]role{"Functions": need("Functions"), "Parameters": need("Parameters"), "DateTimeLiterals": need("DateTimeLiterals")}
	graphs := map[string]role{"QueryGraph": need("QueryGraph"), "ViewGraph": need("ViewGraph")}
	if len(r.viol) > 0 {
		return
	}
	var tasks []func(r *Run)
	// must says that success needs an event
	must := func(key, text string, fn *ssa.Function, set func(s *scen), ev func(s *scen, e *FEvent) bool) {
		tasks = append(tasks, func(r *Run) {
			s := po.on(r).scen(fn)
			set(s)
			met := false
			s.stop = func(e *FEvent) bool {
				if ev(s, e) {
					met = true
					return true
				}
				return false
			}
			r.count("places of names", 1)
			r.sample("%s: %s", key, text)
			if s.run(nil) {
				r.fail(key, "%s: %s can report success without it", text, shortFn(fn))
			} else if !met {
				r.fail(key, "%s: nothing of the kind happens in %s", text, shortFn(fn))
			}
		})
	}
	adds := func(ro role, name string) func(s *scen, e *FEvent) bool {
		return func(s *scen, e *FEvent) bool {
			if e.kind != "mapset" || !s.isRole(e.addr, ro) {
				return false
			}
			k, ok := e.args[0].strVal()
			return ok && k == name
		}
	}
	const sel, whr, hav, grp = "q.Fields[]", "q.Where[].Value", "q.Having[].Value", "q.GroupBy[]"
	members := map[string]string{sel: "the select list", whr: "WHERE", hav: "HAVING"}
	at := func(s *scen, m string) {
		s.atLeast(strings.SplitN(m, "[", 2)[0], 1).inlineCalls(m)
		if strings.HasSuffix(m, ".Value") {
			s.num(strings.TrimSuffix(m, ".Value")+".Opcode", po.p.constInt(typesPkg, "SoqlConditionOpcode_FieldInfo"))
		}
		if m == hav {
			s.atLeast("q.GroupBy", 1)
		}
	}
	tkey := map[string]string{}
	for _, n := range []string{"SoqlListItem", "SoqlDateTimeLiteralName"} {
		tkey[n] = typeKey(po.p.namedType(typesPkg, n))
	}
	dt := po.p.namedType(typesPkg, "SoqlDateTimeLiteralName")
	// what a name looks like at a place
	type form struct {
		kind, meta string
		set        func(s *scen, m string)
	}
	forms := []form{
		{"Function", "Functions", func(s *scen, m string) {
			s.kind(m, "Function").exactly(m+".Name", 1).str(m+".Name[]", "QxZ").exactly(m+".Parameters", 0)
		}},
		{"bind parameter", "Parameters", func(s *scen, m string) {
			s.kind(m, "ParameterizedValue").exactly(m+".Name", 1).str(m+".Name[]", "QxZ")
		}},
		{"date literal", "DateTimeLiterals", func(s *scen, m string) {
			s.kind(m, "DateTimeLiteralName").exactly(m+".Name", 1).str(m+".Name[]", "QxZ")
		}},
		{"bind parameter in a list", "Parameters", func(s *scen, m string) {
			s.kind(m, "Literal_List").isaList(m+".Value").atLeast(m+".Value", 1)
			s.kind(m+".Value[]", "ParameterizedValue")
			s.vals[m+".Value[].Value"] = s.f.mk("iface", "", types.Typ[types.String], s.strc("QxZ"))
		}},
		{"date literal in a list", "DateTimeLiterals", func(s *scen, m string) {
			s.kind(m, "Literal_List").isaList(m+".Value").atLeast(m+".Value", 1)
			s.kind(m+".Value[]", "DateTimeLiteralName")
			u := under(dt).(*types.Struct)
			var as []*T
			for i := 0; i < u.NumFields(); i++ {
				if isStr(u.Field(i).Type()) {
					as = append(as, s.strc("QxZ"))
				} else {
					as = append(as, s.f.zero(u.Field(i).Type()))
				}
			}
			s.vals[m+".Value[].Value"] = s.f.mk("iface", "", dt, s.f.mkStruct(dt, as))
		}},
	}
	for _, m := range []string{sel, whr, hav} {
		m := m
		for _, fo := range forms {
			fo := fo
			if m == sel && fo.kind != "Function" {
				continue // not written there
			}
			must(m+":"+fo.kind, "a "+fo.kind+" in "+members[m], po.qFn, func(s *scen) { at(s, m); fo.set(s, m) }, adds(names[fo.meta], "qxz"))
		}
		for _, d := range []string{".Parameters[]", ".Parameters[].Parameters[]"} {
			for _, fo := range forms {
				fo, d := fo, d
				if d != ".Parameters[]" && fo.kind == "Function" {
					continue
				}
				must(m+d+":"+fo.kind, "a "+fo.kind+" as an argument ("+m+d+")", po.qFn, func(s *scen) {
					at(s, m)
					s.kind(m, "Function").exactly(m+".Name", 1).str(m+".Name[]", "abs").exactly(m+".Parameters", 1)
					if d != ".Parameters[]" {
						s.kind(m+".Parameters[]", "Function").exactly(m+".Parameters[].Name", 1).str(m+".Parameters[].Name[]", "abs").exactly(m+".Parameters[].Parameters", 1)
					}
					fo.set(s, m+d)
				}, adds(names[fo.meta], "qxz"))
			}
		}
		// every subquery is normalised with the same tables
		must(m+":subquery", "the normalisation of a subquery in "+members[m], po.qFn, func(s *scen) { at(s, m); s.kind(m, "SubQuery") }, func(s *scen, e *FEvent) bool {
			if !po.isCall(e, po.qFn) || anyIdx(s.path(e.args[po.qParam])) != m+".SubQuery" {
				return false
			}
			for _, ro := range roles {
				if e.args[ro.param] != s.args[ro.param] {
					return false
				}
			}
			return true
		})
	}
	for _, n := range []string{"OffsetParamName", "LimitParamName"} {
		n := n
		must("clause:"+n, "the bind parameter "+n, po.qFn, func(s *scen) {
			s.str("q.OffsetAndLimit.OffsetParamName", "QxA").str("q.OffsetAndLimit.LimitParamName", "QxB").str("q.OffsetAndLimit."+n, "QxZ")
		}, adds(names["Parameters"], "qxz"))
		must("clause:only "+n, "the bind parameter "+n+" alone", po.qFn, func(s *scen) {
			s.str("q.OffsetAndLimit.OffsetParamName", "").str("q.OffsetAndLimit.LimitParamName", "").str("q.OffsetAndLimit."+n, "QxZ")
		}, adds(names["Parameters"], "qxz"))
	}
	qt := po.p.namedType(typesPkg, "SoqlQuery")
	must("graph:query", "the entry of the query in the query graph", po.qFn, func(s *scen) {}, func(s *scen, e *FEvent) bool {
		if e.kind != "mapset" || !s.isRole(e.addr, graphs["QueryGraph"]) {
			return false
		}
		id := s.f.load(e.st.fork(), s.f.fa(s.q, qt, fieldIndex(qt, "QueryId")), types.Typ[types.Int])
		return id == e.args[0] && s.leafHas(e, "Query", func(v *T) bool { return v == s.q })
	})
	tasks = append(tasks, func(r *Run) { po.on(r).viewEntries(graphs["ViewGraph"]) })
	tasks = append(tasks, po.loopsOver(sel, whr, hav, grp)...)
	tasks = append(tasks, func(r *Run) { po.on(r).argumentLoops() })
	for _, fo := range forms {
		fo := fo
		if !strings.HasSuffix(fo.kind, " in a list") {
			continue
		}
		tasks = append(tasks, func(r *Run) {
			r.count("loops over arguments and list items", 1)
			if ok, why := po.on(r).everyTurn(po.fFn, func(s *scen) { fo.set(s, "f") }, func(s *scen, e *FEvent) *T {
				if adds(names[fo.meta], "qxz")(s, e) {
					return s.f.nilc()
				}
				return nil
			}, func(s *scen, e *FEvent) *T {
				if (e.kind == "index" || e.kind == "load") && e.addr != nil && anyIdx(s.path(e.addr)) == "f.Value[]" && e.addr.op == "ia" {
					return e.addr.args[1]
				}
				return nil
			}); !ok {
				r.fail("loop:items:"+fo.kind, "not every %s is added in %s: %s", fo.kind, shortFn(po.fFn), why)
			}
		})
	}
	r.par(tasks)
	po.sourceText()
	r.floor("places of names", 30)
	r.floor("loops over members", 6)
	r.floor("loops over arguments and list items", 2)
}

func (s *scen) strc(v string) *T { return s.str("", v).vals[""] }

// isaList: the value is a list of items.
func (s *scen) isaList(p string) *scen {
	s.isa[p] = typeKey(types.NewSlice(s.po.p.namedType(typesPkg, "SoqlListItem")))
	return s
}

func (po *post) isCall(e *FEvent, fn *ssa.Function) bool {
	if e.kind != "call" {
		return false
	}
	c, ok := e.site.(ssa.CallInstruction)
	return ok && c.Common().StaticCallee() == fn
}

// leafHas looks at a member of the struct stored into a map.
func (s *scen) leafHas(e *FEvent, member string, ok func(v *T) bool) bool {
	v := e.val
	u, is := under(v.typ).(*types.Struct)
	if !is || v.op != "struct" {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == member {
			return ok(v.args[i])
		}
	}
	return false
}

// viewEntries: every object of the query gets its entry.
func (po *post) viewEntries(ro role) {
	ot := po.p.namedType(typesPkg, "SoqlObjectInfo")
	entry := func(s *scen, e *FEvent) *T {
		if e.kind != "mapset" || !s.isRole(e.addr, ro) {
			return nil
		}
		var obj *T
		if !s.leafHas(e, "Object", func(v *T) bool { obj = v; return true }) || obj == nil || anyIdx(s.path(obj)) != "q.From[]" || obj.op != "ia" {
			return nil
		}
		if !s.leafHas(e, "Query", func(v *T) bool { return v == s.q }) {
			return nil
		}
		id := s.f.load(e.st.fork(), s.f.fa(obj, ot, fieldIndex(ot, "ViewId")), types.Typ[types.Int])
		if id != e.args[0] {
			return nil
		}
		return obj.args[1]
	}
	s := po.scen(po.qFn)
	s.atLeast("q.From", 1)
	s.stop = func(e *FEvent) bool { return entry(s, e) != nil }
	po.r.count("places of names", 1)
	if s.run(nil) {
		po.r.fail("graph:view", "%s can report success without an entry in the view graph for an object of the query, under its view id, with the object and the query", shortFn(po.qFn))
		return
	}
	s = po.scen(po.qFn)
	s.atLeast("q.From", 1)
	var idx *T
	s.onEv = func(e *FEvent) {
		if i := entry(s, e); i != nil {
			idx = i
		}
	}
	s.run(nil)
	if ok, why := s.visitsAll(idx, "q.From"); !ok {
		po.r.fail("graph:view", "not every object of the query gets an entry in the view graph in %s: %s", shortFn(po.qFn), why)
	}
	if ok, why := po.everyTurn(po.qFn, func(s *scen) {}, entry); !ok {
		po.r.fail("graph:view", "not every object of the query gets an entry in the view graph in %s: %s", shortFn(po.qFn), why)
	}
}

// argumentLoops: every argument of a function and every item of a list is seen.
func (po *post) argumentLoops() {
	s := po.scen(po.fFn)
	s.kind("f", "Function").exactly("f.Name", 1).str("f.Name[]", "abs").atLeast("f.Parameters", 1)
	var idx *T
	s.onEv = func(e *FEvent) {
		if c := s.fieldCall(e); c != nil && c.origin == "f.Parameters[]" {
			idx = s.originIdx(e.st, c.args[po.fParam])
		}
	}
	s.run(nil)
	po.r.count("loops over arguments and list items", 1)
	if ok, why := s.visitsAll(idx, "f.Parameters"); !ok {
		po.r.fail("loop:arguments", "not every argument of a function is normalised in %s: %s", shortFn(po.fFn), why)
	}
	if ok, why := po.everyTurn(po.fFn, func(s *scen) {
		s.kind("f", "Function").exactly("f.Name", 1).str("f.Name[]", "abs").atLeast("f.Parameters", 1)
	}, func(s *scen, e *FEvent) *T {
		if c := s.fieldCall(e); c != nil && c.origin == "f.Parameters[]" {
			return s.originIdx(e.st, c.args[po.fParam])
		}
		return nil
	}); !ok {
		po.r.fail("loop:arguments", "not every argument of a function is normalised in %s: %s", shortFn(po.fFn), why)
	}
	s = po.scen(po.fFn)
	s.kind("f", "Literal_List").isaList("f.Value").atLeast("f.Value", 1)
	idx = nil
	s.onEv = func(e *FEvent) {
		if e.kind == "index" && e.addr != nil && anyIdx(s.path(e.addr)) == "f.Value[]" && (idx == nil || idx.op == "const") {
			idx = e.addr.args[1]
		}
	}
	s.run(nil)
	po.r.count("loops over arguments and list items", 1)
	if ok, why := s.visitsAll(idx, "f.Value"); !ok {
		po.r.fail("loop:items", "not every item of a list is looked at in %s: %s", shortFn(po.fFn), why)
	}
}

// sourceText: the meta information carries the text passed to Parse.
func (po *post) sourceText() {
	p, r := po.p, po.r
	qt, mt := p.namedType(typesPkg, "SoqlQuery"), p.namedType(typesPkg, "SoqlQueryMeta")
	parse := p.parseFn()
	// nobody else writes the text or replaces the meta information
	for _, fn := range p.repoFuncs(parserPkg) {
		if fn == parse || strings.Contains(fn.Name(), "JSON") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := under(fa.X.Type()).(*types.Pointer).Elem()
				n := under(t).(*types.Struct).Field(fa.Field).Name()
				r.count("stores to members", 1)
				if typeKey(t) == typeKey(mt) && n == "Source" || typeKey(t) == typeKey(qt) && n == "Meta" {
					if _, fresh := fa.X.(*ssa.Alloc); fresh && fnPkg(fn) != fnPkg(parse) {
						continue
					}
					if fnPkg(fn) == fnPkg(parse) {
						continue
					}
					r.fail("source:"+shortFn(fn), "%s writes %s, which carries the source text", p.instrPos(in), n)
				}
			}
		}
	}
	f := newFlow(p)
	f.opaque[po.norm] = true
	text := f.param(parse.Params[0])
	srcOf := func(st *FState, q *T) *T {
		st = st.fork()
		m := f.load(st, f.fa(q, qt, fieldIndex(qt, "Meta")), types.NewPointer(mt))
		return f.load(st, f.fa(m, mt, fieldIndex(mt, "Source")), types.Typ[types.String])
	}
	var atNorm *T
	f.onCall = func(f *Flow, st *FState, c *FCall) ([]FRet, bool) {
		if c.fn == po.norm {
			for _, a := range c.args {
				if pt, ok := types.Unalias(a.typ).(*types.Pointer); ok && typeKey(pt.Elem()) == typeKey(qt) {
					atNorm = srcOf(st, a)
				}
			}
		}
		if c.fn != nil && (fnPkg(c.fn) == fnPkg(parse) || c.fn == po.norm) {
			return nil, false
		}
		return f.opaqueCall(st, c), true
	}
	n := 0
	f.onEv = func(e *FEvent) {
		if e.kind != "return" || e.ctx.up != nil || f.truth(e.st, f.eq(e.args[0], f.nilc())) == 1 {
			return
		}
		n++
		got := srcOf(e.st, e.args[0])
		if got != text && (got.op != "load" || atNorm != text) {
			r.fail("source", "%s: the source text reported is %s, not the text passed in", p.instrPos(e.site), short(got))
		}
	}
	f.start(parse, nil)
	if n == 0 {
		undec("no successful return of Parse was found")
	}
	r.count("successful returns of Parse", n)
}
