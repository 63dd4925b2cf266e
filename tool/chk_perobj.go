package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "Every element appended to a list that ends as the fields or sort keys of the query of one object is appended under the fact that the namespace of its own name equals the name of that object. "+
		"Every comparison of a derived filter whose field lies elsewhere, or which is a function or subquery, is replaced in every turn of the loop. OFFSET/LIMIT is stored for the object of index 0 only, and for it always; FOR for every object.", checkC22)
	register("C28", "Every list stored as the filter of a derived query or as the post-process filter is followed to where it is made: it must be memory made for that query alone, never the list of the query or of another derived query.", checkC28)
}

// objOf is the identity of an object of FROM: the address of its element.
// Derived queries are known by the store that attaches them.
type perObj struct {
	s    *scen
	base map[*T]*T // derived query made here -> element of From
}

// elem finds the element of From a name, a derived query or another member belongs to.
func (d *perObj) elem(v *T) *T {
	switch v.op {
	case "alloc":
		return d.base[v]
	case "load":
		a := v.args[0]
		if a.op != "fa" {
			return nil
		}
		return d.elem(a)
	case "fa":
		b := v.args[0]
		switch b.op {
		case "ia":
			l := b.args[0]
			p := d.s.path(l)
			if strings.HasSuffix(p, ".PerObjectQuery.From") || d.fromOfDerived(l) != nil {
				if n, ok := b.args[1].intVal(); ok && n == 0 {
					return d.fromOfDerived(l)
				}
				return nil
			}
			if strings.HasSuffix(p, "From") || p == "" && strings.HasSuffix(typeKey(ptrElem(b.typ)), "SoqlObjectInfo") {
				return b
			}
		case "alloc", "load":
			return d.elem(b)
		}
	case "ia":
		return v
	}
	return nil
}

func ptrElem(t types.Type) types.Type {
	if pt, ok := under(t).(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// fromOfDerived: the list is the From of a derived query.
func (d *perObj) fromOfDerived(l *T) *T {
	if l.op == "load" && l.args[0].op == "fa" && l.args[0].c == "From" {
		q := l.args[0].args[0]
		if q == d.s.q {
			return nil
		}
		if q.op == "load" && q.args[0].op == "fa" && q.args[0].c == "PerObjectQuery" {
			return q.args[0].args[0]
		}
		return d.base[q]
	}
	return nil
}

// sameElem compares two elements: same list as far as known, same index.
func (d *perObj) sameElem(a, b *T) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	return a.op == "ia" && b.op == "ia" && a.args[1] == b.args[1] && d.s.path(a.args[0]) == d.s.path(b.args[0])
}

// derived tells the element a store into a member of a derived query is for.
func (d *perObj) derived(addr *T) (el *T, member string, ok bool) {
	sq := typeKey(d.s.po.p.namedType(typesPkg, "SoqlQuery"))
	a := addr
	for a.op == "fa" {
		b := a.args[0]
		if typeKey(ptrElem(b.typ)) == sq {
			if b == d.s.q || d.s.path(b) == "q" || d.s.path(b) == "q.Parent" {
				return nil, "", false
			}
			if b.op == "alloc" || strings.HasSuffix(d.s.path(b), ".PerObjectQuery") {
				return d.elem(b), a.c, true
			}
			return nil, "", false
		}
		a = b
	}
	return nil, "", false
}

// attach records which derived query is whose.
func (d *perObj) attach(e *FEvent) {
	if e.kind == "store" && e.addr.op == "fa" && e.addr.c == "PerObjectQuery" && e.val.op == "alloc" && e.addr.args[0].op == "ia" {
		d.base[e.val] = e.addr.args[0]
	}
}

// tail is the namespace of a name: all but its last component.
func (d *perObj) tail(v *T) *T {
	if v.op == "slice" {
		lo, hi := v.args[1], v.args[2]
		if n, ok := lo.intVal(); isNilT(lo) || ok && n == 0 {
			if b, k := splitAdd(hi); k == -1 && b.op == "len" && b.args[0] == v.args[0] {
				return v.args[0]
			}
		}
	}
	if v.op == "call" && strings.HasSuffix(v.c, ".GetNamespaceFromName") && len(v.args) == 1 {
		return v.args[0]
	}
	return nil
}

// inObject: the fact that a name lies directly in an object. It gives the
// name and the element of From.
func (d *perObj) inObject(k *T) (name, el *T) {
	pair := func(a, b *T) (*T, *T) {
		for _, p := range [][2]*T{{a, b}, {b, a}} {
			if n := d.tail(p[1]); n != nil && d.hasMember(p[0], "Name") {
				if el := d.elem(p[0]); el != nil {
					return n, el
				}
			}
		}
		return nil, nil
	}
	if k.op == "call" && strings.HasSuffix(k.c, ".NameEqualsIgnoreCase") && len(k.args) == 2 {
		return pair(k.args[0], k.args[1])
	}
	if k.op == "eq" {
		for _, p := range [][2]*T{{k.args[0], k.args[1]}, {k.args[1], k.args[0]}} {
			key, c := p[0], p[1]
			if c.op != "call" || !strings.HasSuffix(c.c, ".MakeDottedKeyIgnoreCase") || len(c.args) != 2 {
				continue
			}
			var n *T
			if t := d.tail(c.args[0]); t != nil && c.args[1].op == "len" && c.args[1].args[0] == c.args[0] {
				n = t
			} else if b, j := splitAdd(c.args[1]); j == -1 && b.op == "len" && b.args[0] == c.args[0] {
				n = c.args[0]
			}
			if n == nil {
				continue
			}
			if d.hasMember(key, "Key") {
				if el := d.elem(key); el != nil {
					return n, el
				}
			}
			if key.op == "call" && key.c == c.c && key.args[1].op == "len" && key.args[1].args[0] == key.args[0] && d.hasMember(key.args[0], "Name") {
				if el := d.elem(key.args[0]); el != nil {
					return n, el
				}
			}
		}
	}
	return nil, nil
}

func (d *perObj) hasMember(v *T, m string) bool {
	return v.op == "load" && v.args[0].op == "fa" && v.args[0].c == m
}

// nameOf is the name of a field or of the field of a sort key.
func nameOf(v *T) *T {
	u, ok := under(v.typ).(*types.Struct)
	if !ok || v.op != "struct" {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Field" {
			return nameOf(v.args[i])
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Name" {
			return v.args[i]
		}
	}
	return nil
}

func checkC22(r *Run) {
	po := r.post()
	tasks := []func(r *Run){func(r *Run) { po.on(r).derivedLists() }}
	for _, k := range []string{"Field", "Function", "SubQuery"} {
		k := k
		tasks = append(tasks, func(r *Run) { po.on(r).foreign(k) })
	}
	tasks = append(tasks, func(r *Run) { po.on(r).clauses(0) }, func(r *Run) { po.on(r).clauses(1) }, func(r *Run) { po.on(r).clauses(2) })
	r.par(tasks)
	r.floor("elements of derived lists", 2)
	r.floor("stores to derived queries", 5)
	r.floor("kinds of comparisons", 3)
}

// derivedLists: fields and sort keys.
func (po *post) derivedLists() {
	r := po.r
	s := po.whole(po.scen(po.qFn))
	d := &perObj{s: s, base: map[*T]*T{}}
	type app struct {
		e    *FEvent
		el   *T // what is appended
		fact [][2]*T
	}
	apps := map[*T][]app{}
	type put struct {
		e *FEvent
	}
	var puts []put
	s.onEv = func(e *FEvent) {
		d.attach(e)
		switch e.kind {
		case "append":
			if len(e.args) == 1 && e.args[0].op == "slice" && e.args[0].args[0].op == "alloc" {
				sl := under(e.args[0].typ).(*types.Slice)
				v := s.f.load(e.st.fork(), s.f.ia(e.args[0].args[0], s.f.intc(0), sl.Elem()), sl.Elem())
				if nameOf(v) == nil {
					return
				}
				a := app{e: e, el: v}
				for k, t := range e.st.facts {
					if t {
						if n, el := d.inObject(k); n != nil {
							a.fact = append(a.fact, [2]*T{n, el})
						}
					}
				}
				apps[v] = append(apps[v], a)
			}
		case "store":
			if e.addr.op == "fa" {
				puts = append(puts, put{e})
			}
		}
	}
	s.run(nil)
	for _, p := range puts {
		el, m, ok := d.derived(p.e.addr)
		if !ok {
			continue
		}
		r.count("stores to derived queries", 1)
		if m != "Fields" && m != "OrderBy" || p.e.addr.c != m {
			continue
		}
		if el == nil {
			undec("%s: whose query is written is not found", po.p.instrPos(p.e.site))
		}
		seen := map[*T]bool{}
		var walk func(v *T)
		walk = func(v *T) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch v.op {
			case "phi":
				for _, x := range s.f.alts[v] {
					walk(x)
				}
			case "slice":
				walk(v.args[0])
			case "makeslice":
				if n, ok := v.args[0].intVal(); !ok || n != 0 {
					r.fail("list:"+m+":"+shortFn(p.e.site.Parent()), "%s: the %s of a derived query are stored in a list that is not filled by appending", po.p.instrPos(p.e.site), m)
				}
			case "load":
				if a := v.args[0]; a.op == "fa" && a.c == m {
					if el2, _, ok := d.derived(a); ok && d.sameElem(el, el2) {
						return // what it had
					}
				}
				r.fail("list:"+m+":"+shortFn(p.e.site.Parent()), "%s: the %s of the query of one object are %s, which is not limited to what lies in the object", po.p.instrPos(p.e.site), m, short(v))
			case "const", "nil":
			case "app":
				walk(v.args[0])
				for _, x := range v.args[1:] {
					r.count("elements of derived lists", 1)
					if len(apps[x]) == 0 {
						r.fail("list:"+m+":"+shortFn(p.e.site.Parent()), "%s: where an element of the %s of a derived query is appended is not found", po.p.instrPos(p.e.site), m)
					}
					for _, a := range apps[x] {
						ok := false
						for _, f := range a.fact {
							ok = ok || f[0] == nameOf(x) && d.sameElem(f[1], el)
						}
						r.sample("%s: appended under its name lying in the object: %v", po.p.instrPos(a.e.site), ok)
						if !ok {
							r.fail("list:"+m+":"+shortFn(a.e.site.Parent()), "%s: an element is added to the %s of the query of one object without its name lying directly in that object", po.p.instrPos(a.e.site), m)
						}
					}
				}
			default:
				if !isNilT(v) {
					r.fail("list:"+m+":"+shortFn(p.e.site.Parent()), "%s: the %s of a derived query come from %s", po.p.instrPos(p.e.site), m, short(v))
				}
			}
		}
		walk(p.e.val)
	}
}

// foreign: comparisons that cannot be evaluated on the object alone.
func (po *post) foreign(kind string) {
	r := po.r
	r.count("kinds of comparisons", 1)
	if ok, why := po.everyTurn(po.qFn, po.foreignTo(kind), po.intoUnknown); !ok {
		r.fail("filter:"+kind, "a comparison of kind %s that is not one on a field of the object is not taken out of the filter of the object in %s: %s", kind, shortFn(po.qFn), why)
	}
}

// foreignTo assumes a comparison of a kind that is not one on a field of the
// object.
func (po *post) foreignTo(kind string) func(s *scen) {
	return func(s *scen) {
		d := &perObj{s: s, base: map[*T]*T{}}
		po.whole(s).atLeast("q.Where", 1).atLeast("q.From", 1)
		s.num("q.Where[].Opcode", po.p.constInt(typesPkg, "SoqlConditionOpcode_FieldInfo")).kind("q.Where[].Value", kind)
		s.onAny = func(e *FEvent) { d.attach(e) }
		s.also = func(st *FState, c *T) int {
			if n, _ := d.inObject(c); n != nil {
				if n.op == "load" && anyIdx(s.path(n.args[0])) == "q.Where[].Value.Name" {
					return 0
				}
			}
			return -1
		}
	}
}

// intoUnknown is the index of a comparison of a derived filter that becomes unknown.
func (po *post) intoUnknown(s *scen, e *FEvent) *T {
	if e.kind != "store" || anyIdx(s.path(e.addr)) != "q.Where[].Opcode" || e.addr.args[0].op != "ia" {
		return nil
	}
	if n, ok := e.val.intVal(); ok && n == po.p.constInt(typesPkg, "SoqlConditionOpcode_Unknown") {
		l := e.addr.args[0].args[0]
		if s.path(l) == "q.Where" && l.op == "load" {
			return nil // the list of the query itself
		}
		return e.addr.args[0].args[1]
	}
	return nil
}

// clauses: OFFSET/LIMIT for the first object only, FOR for each.
func (po *post) clauses(part int) {
	r := po.r
	put4 := func(d *perObj, s *scen, e *FEvent, member string) *T {
		d.attach(e)
		if e.kind != "store" || e.addr.op != "fa" {
			return nil
		}
		el, m, ok := d.derived(e.addr)
		if !ok || m != member || el == nil || el.op != "ia" {
			return nil
		}
		return el.args[1]
	}
	if part == 0 {
		po.clauseStores()
		return
	}
	if part == 1 {
		// the first always gets its clause: outside of loops, or in the turn of the
		// loop in which the index is 0
		s := po.whole(po.scen(po.qFn))
		s.atLeast("q.From", 1)
		d2 := &perObj{s: s, base: map[*T]*T{}}
		s.stop = func(e *FEvent) bool {
			i := put4(d2, s, e, "OffsetAndLimit")
			if i == nil {
				return false
			}
			n, ok := i.intVal()
			return ok && n == 0
		}
		if s.run(nil) {
			if ok, why := po.everyTurn(po.qFn, func(s *scen) {
				po.whole(s).atLeast("q.From", 1)
				d2 = &perObj{s: s, base: map[*T]*T{}}
				po.firstTurn(s, d2)
			}, func(s *scen, e *FEvent) *T {
				if i := put4(d2, s, e, "OffsetAndLimit"); i != nil && s.f.truth(e.st, s.f.eq(i, s.f.intc(0))) == 1 {
					return i
				}
				return nil
			}); !ok {
				r.fail("limit:first", "the query of the first object may go without OFFSET and LIMIT in %s: %s", shortFn(po.qFn), why)
			}
		}
		return
	}
	var d3 *perObj
	if ok, why := po.everyTurn(po.qFn, func(s *scen) {
		po.whole(s).atLeast("q.From", 1)
		d3 = &perObj{s: s, base: map[*T]*T{}}
		s.onAny = func(e *FEvent) { d3.attach(e) }
	}, func(s *scen, e *FEvent) *T { return put4(d3, s, e, "For") }); !ok {
		r.fail("for:every", "not every derived query gets the FOR clause in %s: %s", shortFn(po.qFn), why)
	}
}

// clauseStores looks at what is stored.
func (po *post) clauseStores() {
	r := po.r
	s := po.whole(po.scen(po.qFn))
	s.atLeast("q.From", 1)
	d := &perObj{s: s, base: map[*T]*T{}}
	type put struct {
		e     *FEvent
		first bool
	}
	var puts []put
	isZero := func(e *FEvent, el *T) bool {
		return el != nil && el.op == "ia" && s.f.truth(e.st, s.f.eq(el.args[1], s.f.intc(0))) == 1
	}
	s.onEv = func(e *FEvent) {
		d.attach(e)
		if e.kind == "store" && e.addr.op == "fa" {
			el, _, ok := d.derived(e.addr)
			if ok || el == nil && e.addr.args[0].op == "alloc" {
				puts = append(puts, put{e, isZero(e, el)})
			}
		}
	}
	s.run(nil)
	from := func(v *T, path string) bool { // taken from the query
		if v.op == "struct" {
			for _, x := range v.args {
				if x.op == "load" && strings.HasPrefix(s.path(x.args[0]), path) {
					return true
				}
			}
		}
		return v.op == "load" && strings.HasPrefix(s.path(v.args[0]), path)
	}
	nFor := false
	for _, p := range puts {
		el, m, ok := d.derived(p.e.addr)
		if !ok {
			continue
		}
		switch m {
		case "OffsetAndLimit":
			if !from(p.e.val, "q.OffsetAndLimit") {
				continue
			}
			first := p.first || isZero(p.e, el)
			if !first {
				r.fail("limit:"+shortFn(p.e.site.Parent()), "%s: the query of an object that is not known to be the first gets OFFSET and LIMIT", po.p.instrPos(p.e.site))
			}
		case "For":
			nFor = true
			if !from(p.e.val, "q.For") {
				r.fail("for:"+shortFn(p.e.site.Parent()), "%s: the FOR clause of a derived query is %s, not the one of the query", po.p.instrPos(p.e.site), short(p.e.val))
			}
		}
	}
	if !nFor {
		r.fail("for", "no derived query gets the FOR clause in %s", shortFn(po.qFn))
		return
	}
}

func checkC28(r *Run) {
	po := r.post()
	s := po.whole(po.scen(po.qFn))
	s.atLeast("q.From", 1)
	d := &perObj{s: s, base: map[*T]*T{}}
	var puts []*FEvent
	s.onEv = func(e *FEvent) {
		d.attach(e)
		if e.kind == "store" && e.addr.op == "fa" {
			puts = append(puts, e)
		}
	}
	s.run(nil)
	type owner struct {
		what string
		el   *T
	}
	owns := map[*T]owner{}
	lists := 0
	for _, e := range puts {
		el, m, ok := d.derived(e.addr)
		what := ""
		switch {
		case ok && m == "Where" && e.addr.c == "Where":
			what = "the filter of a derived query"
			if el == nil {
				undec("%s: whose query is written is not found", po.p.instrPos(e.site))
			}
		case e.addr.c == "PostProcessWhere" && (e.addr.args[0] == s.q || s.path(e.addr.args[0]) == "q"):
			what = "the post-process filter"
		default:
			continue
		}
		lists++
		key := what + ":" + shortFn(e.site.Parent())
		seen := map[*T]bool{}
		var root func(v *T)
		root = func(v *T) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch v.op {
			case "phi":
				for _, x := range s.f.alts[v] {
					root(x)
				}
			case "slice", "app", "appall":
				root(v.args[0])
			case "alloc", "makeslice":
				if o, was := owns[v]; was && (o.what != what || el != nil && !d.sameElem(o.el, el)) {
					// the same statement may be reached in several ways
					r.fail(key, "%s: %s is the same list as %s", po.p.instrPos(e.site), what, o.what)
				}
				owns[v] = owner{what, el}
				if el != nil {
					if b, _ := splitAdd(el.args[1]); el.op == "ia" && b.op == "phi" && !inLoop(v, b.ctx, b.blk) {
						r.fail(key, "%s: %s is a list made once for all objects", po.p.instrPos(e.site), what)
					}
				}
			case "load":
				if el2, m2, ok := d.derived(v.args[0]); ok && el != nil && m2 == m && d.sameElem(el, el2) {
					return // what it had
				}
				if el == nil && v.args[0] == e.addr {
					return
				}
				r.fail(key, "%s: %s is the list %s, not a copy", po.p.instrPos(e.site), what, short(v))
			case "call", "ext":
				if strings.HasPrefix(v.c, "slices.Clone") {
					return
				}
				r.fail(key, "%s: %s comes from %s", po.p.instrPos(e.site), what, short(v))
			default:
				if !isNilT(v) {
					r.fail(key, "%s: %s comes from %s", po.p.instrPos(e.site), what, short(v))
				}
			}
		}
		root(e.val)
		r.sample("%s: %s", po.p.instrPos(e.site), what)
	}
	r.count("stores of derived filters", lists)
	r.count("lists made", len(owns))
	r.floor("stores of derived filters", 2)
	r.floor("lists made", 2)
	_ = ssa.NaiveForm
}

// whole analyses everything but recursive functions in place.
func (po *post) whole(s *scen) *scen {
	for g := range po.opaque {
		if g != po.fFn && g.Pkg == po.qFn.Pkg && !po.reaches(g, g) {
			delete(s.f.opaque, g)
		}
	}
	return s
}

// firstTurn assumes that loops over the objects are in the turn in which the
// index of the object is 0.
func (po *post) firstTurn(s *scen, d *perObj) {
	first := map[*T]int64{}
	s.onAny = func(e *FEvent) {
		d.attach(e)
		if e.kind != "store" {
			return
		}
		el, _, ok := d.derived(e.addr)
		if !ok || el == nil || el.op != "ia" {
			return
		}
		b, k := splitAdd(el.args[1])
		if b.op != "phi" || first[b] != 0 {
			return
		}
		for _, x := range s.f.alts[b] {
			if n, ok := x.intVal(); ok && n+k == 0 {
				first[b] = n + 2
				s.f.gen++
			}
		}
	}
	s.also = func(st *FState, c *T) int {
		if len(c.args) != 2 || c.op != "eq" && c.op != "lt" {
			return -1
		}
		var n [2]int64
		found := false
		for i, x := range c.args {
			b, k := splitAdd(x)
			if v, ok := x.intVal(); ok {
				n[i] = v
			} else if v := first[b]; v != 0 {
				n[i] = v - 2 + k
				found = true
			} else {
				return -1
			}
		}
		if !found {
			return -1
		}
		if c.op == "eq" && n[0] == n[1] || c.op == "lt" && n[0] < n[1] {
			return 1
		}
		return 0
	}
}
