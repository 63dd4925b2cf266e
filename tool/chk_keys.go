package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C27", "At every return of the normalisation of a field that reports success, the key stored is the key of the very name stored, and in every case the name is made of what the table of object names gives. "+
		"Every turn of the loop over the fields of each clause must store the normalised field back, and over the parameters of a function normalise each; every object stored in or appended to FROM has the key of its name, and every turn of the loop over FROM gives it one; aliases are entered with the name of their object.", checkC27)
}

// span is a list of components: the first n of root.
func (s *scen) span(v *T) (root, n *T) {
	n = s.f.length(v)
	for v.op == "slice" {
		if lo, ok := v.args[1].intVal(); !isNilT(v.args[1]) && (!ok || lo != 0) {
			break
		}
		v = v.args[0]
	}
	return v, n
}

// keyOf tells whether k is the key of the name n.
func (s *scen) keyOf(n, k *T) bool {
	if n == nil || k == nil {
		return false
	}
	if k.op == "phi" || n.op == "phi" && k.op != "call" {
		return false
	}
	if k.op == "load" && n.op == "load" && k.args[0].op == "fa" && n.args[0].op == "fa" {
		return k.args[0].c == "Key" && n.args[0].c == "Name" && k.args[0].args[0] == n.args[0].args[0]
	}
	if k.op != "call" || !strings.HasSuffix(k.c, ".MakeDottedKeyIgnoreCase") || len(k.args) != 2 {
		return false
	}
	r1, n1 := s.span(n)
	r2, _ := s.span(k.args[0])
	return r1 == r2 && n1 == k.args[1]
}

func fieldOf(v *T, name string) *T {
	u, ok := under(v.typ).(*types.Struct)
	if !ok || v.op != "struct" {
		return nil
	}
	for i := 0; i < u.NumFields() && i < len(v.args); i++ {
		if u.Field(i).Name() == name {
			return v.args[i]
		}
	}
	return nil
}

// fieldIn is the field a structure holds.
func (po *post) fieldIn(v *T, typ string) *T {
	if v.op != "struct" {
		return nil
	}
	if typeKey(v.typ) == typeKey(po.p.namedType(typesPkg, typ)) {
		return v
	}
	for _, x := range v.args {
		if y := po.fieldIn(x, typ); y != nil {
			return y
		}
	}
	return nil
}

func (po *post) memberOf(a *T, typ string) bool {
	return a.op == "fa" && (a.c == "Name" || a.c == "Key") && typeKey(ptrElem(a.args[0].typ)) == typeKey(po.p.namedType(typesPkg, typ))
}

var nameMembers = []string{"q.Fields[]", "q.GroupBy[]", "q.Where[].Value", "q.Having[].Value", "q.OrderBy[].Field"}

func checkC27(r *Run) {
	po := r.post()
	tasks := []func(r *Run){
		func(r *Run) { po.on(r).keyOfField() },
		func(r *Run) { po.on(r).keyOfObjects() },
		func(r *Run) { po.on(r).everyObject() },
		func(r *Run) { po.on(r).everyParam() },
	}
	for _, m := range nameMembers {
		m := m
		tasks = append(tasks, func(r *Run) { po.on(r).storedBack(m) })
	}
	r.par(tasks)
	r.floor("successful returns", 1)
	r.floor("objects stored", 2)
	r.floor("names of objects entered", 3)
	r.floor("clauses with fields", len(nameMembers))
}

func isNameMap(t types.Type) bool {
	m, ok := under(t).(*types.Map)
	if !ok || !isStr(m.Key()) {
		return false
	}
	l, ok := under(m.Elem()).(*types.Slice)
	return ok && isStr(l.Elem())
}

func (po *post) keyOfField() {
	r := po.r
	s := po.scen(po.fFn)
	var nm []*T
	for _, a := range s.args {
		if isNameMap(a.typ) {
			nm = append(nm, a)
		}
	}
	if len(nm) == 0 {
		undec("%s is given no table of object names", shortFn(po.fFn))
	}
	s.kind("f", "Field")
	w := po.objWatch(s)
	for _, m := range nm {
		w.tables[m] = true
	}
	s.onEv = w.event
	s.run(nil)
	w.done()
	seen := map[*T]bool{}
	var fromMap func(v *T) bool
	fromMap = func(v *T) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		defer delete(seen, v)
		switch v.op {
		case "phi":
			for _, x := range s.f.alts[v] {
				if !fromMap(x) {
					return false
				}
			}
			return len(s.f.alts[v]) > 0
		case "load":
			if a := v.args[0]; a.op == "ma" {
				for _, x := range s.f.leaves(a.args[0]) {
					for _, m := range nm {
						if x == m {
							return true
						}
					}
				}
			}
		}
		for _, x := range v.args {
			if fromMap(x) {
				return true
			}
		}
		return false
	}
	key := shortFn(po.fFn)
	for _, ret := range s.good() {
		r.count("successful returns", 1)
		st := ret.st.fork()
		n, k := s.member(st, s.fld, "Name"), s.member(st, s.fld, "Key")
		for _, k1 := range s.f.leaves(k) {
			if !s.keyOf(n, k1) {
				r.fail("key:"+key, "%s can return with success while the key of the field is %s, which is not the key of its name %s", key, short(k1), short(n))
			}
		}
		if !fromMap(n) {
			r.fail("name:"+key, "%s can return with success while the name of the field, %s, is not made of what the table of object names gives", key, short(n))
		}
		r.sample("%s: name %s key %s", key, short(n), short(k))
	}
}

// objWatch looks at the objects stored and the names entered in the tables.
type objWatch struct {
	po          *post
	s           *scen
	names, keys map[*T][]*T
	sites       map[*T]*FEvent
	tables      map[*T]bool
	objNames    map[*T]bool
	sets        []*FEvent
}

func (po *post) objWatch(s *scen) *objWatch {
	return &objWatch{po: po, s: s, names: map[*T][]*T{}, keys: map[*T][]*T{}, sites: map[*T]*FEvent{}, tables: map[*T]bool{}, objNames: map[*T]bool{}}
}

func (w *objWatch) obj(e *FEvent, v *T) {
	r, s := w.po.r, w.s
	o := w.po.fieldIn(v, "SoqlObjectInfo")
	if o == nil {
		return
	}
	n, k := fieldOf(o, "Name"), fieldOf(o, "Key")
	w.objNames[n] = true
	r.count("objects stored", 1)
	for _, k1 := range s.f.leaves(k) {
		if !s.keyOf(n, k1) {
			r.fail("object:"+shortFn(e.site.Parent()), "%s: an object is stored whose key is %s, which is not the key of its name %s", w.po.p.instrPos(e.site), short(k1), short(n))
			return
		}
	}
	r.sample("%s: an object with the key of its name", w.po.p.instrPos(e.site))
}

func (w *objWatch) event(e *FEvent) {
	s, po := w.s, w.po
	for _, a := range e.args {
		if e.kind == "call" && isNameMap(a.typ) && (po.isCall(e, po.fFn) || po.isCall(e, po.qFn)) {
			for _, x := range s.f.leaves(a) {
				w.tables[x] = true
			}
		}
	}
	switch e.kind {
	case "mapset":
		if isNameMap(e.addr.typ) {
			w.sets = append(w.sets, e)
		}
	case "append":
		if len(e.args) == 1 && e.args[0].op == "slice" && e.args[0].args[0].op == "alloc" {
			sl := under(e.args[0].typ).(*types.Slice)
			w.obj(e, s.f.load(e.st.fork(), s.f.ia(e.args[0].args[0], s.f.intc(0), sl.Elem()), sl.Elem()))
		}
	case "store":
		a := e.addr
		if a.op == "ia" && anyIdx(s.path(a)) == "q.From[]" {
			w.obj(e, e.val)
		}
		for _, t := range []string{"SoqlObjectInfo", "SoqlFieldInfo"} {
			if po.memberOf(a, t) {
				x := a.args[0]
				if a.c == "Name" {
					w.names[x] = append(w.names[x], e.val)
					w.sites[e.val] = e
				} else {
					w.keys[x] = append(w.keys[x], e.val)
				}
			}
		}
	}
}

func (w *objWatch) done() {
	r, s := w.po.r, w.s
	for x, ns := range w.names {
		if x.op == "alloc" || x == s.fld {
			continue // checked where it is stored or appended, or at the return
		}
		for _, n := range ns {
			ok := n.op == "load" // copied together with the rest
			for _, k := range w.keys[x] {
				ok = ok || s.keyOf(n, k)
			}
			if t := typeKey(ptrElem(x.typ)); strings.HasSuffix(t, "SoqlObjectInfo") {
				w.objNames[n] = true
			}
			if !ok {
				r.fail("pair:"+shortFn(w.sites[n].site.Parent()), "%s: a name is stored without its key", w.po.p.instrPos(w.sites[n].site))
			}
		}
	}
	for _, e := range w.sets {
		is := false
		for _, m := range s.f.leaves(e.addr) {
			is = is || w.tables[m]
		}
		if !is {
			continue
		}
		r.count("names of objects entered", 1)
		ok := false
		for _, v := range append(s.f.leaves(e.val), e.val) {
			ok = ok || w.objNames[v] || v.op == "load" && v.args[0].op == "ma" || strings.HasPrefix(v.op, "range") || v.op == "sym"
		}
		if !ok {
			r.fail("table:"+shortFn(e.site.Parent()), "%s: %s is entered in the table of object names, which is not the name of an object", w.po.p.instrPos(e.site), short(e.val))
		}
	}
}

func (po *post) keyOfObjects() {
	s := po.whole(po.scen(po.qFn))
	s.atLeast("q.From", 1)
	w := po.objWatch(s)
	s.onEv = w.event
	s.run(nil)
	w.done()
}

// everyObject: each object of FROM gets its key, each alias is entered.
func (po *post) everyObject() {
	r := po.r
	fn := po.qFn
	objAt := func(s *scen, e *FEvent) *T {
		if e.kind != "store" {
			return nil
		}
		a := e.addr
		if a.op == "ia" && anyIdx(s.path(a)) == "q.From[]" {
			if o := po.fieldIn(e.val, "SoqlObjectInfo"); o != nil && fieldOf(o, "Key").op != "load" && s.keyOf(fieldOf(o, "Name"), fieldOf(o, "Key")) {
				return a.args[1]
			}
		}
		if po.memberOf(a, "SoqlObjectInfo") && a.args[0].op == "ia" && anyIdx(s.path(a.args[0])) == "q.From[]" {
			m := map[string]string{"Name": "Key", "Key": "Name"}[a.c]
			o := s.member(e.st.fork(), a.args[0], m)
			n, k := o, e.val
			if a.c == "Name" {
				n, k = k, o
			}
			if k.op != "load" && s.keyOf(n, k) {
				return a.args[0].args[1]
			}
		}
		return nil
	}
	if ok, why := po.everyTurn(fn, func(s *scen) { po.whole(s).atLeast("q.From", 1) }, objAt); !ok {
		r.fail("objects", "an object of FROM may be left without the key of its name in %s: %s", shortFn(fn), why)
	}
	const alias = "q.From[].AliasName"
	var contains func(v *T, d int, s *scen) *T
	contains = func(v *T, d int, s *scen) *T {
		if v.op == "load" && anyIdx(s.path(v.args[0])) == alias {
			a := v.args[0]
			for a.op == "fa" {
				a = a.args[0]
			}
			if a.op == "ia" {
				return a.args[1]
			}
			return s.copyIdx[a]
		}
		if d == 0 {
			return nil
		}
		for _, x := range v.args {
			if i := contains(x, d-1, s); i != nil {
				return i
			}
		}
		if v.op == "phi" {
			for _, x := range s.f.alts[v] {
				if i := contains(x, d-1, s); i != nil {
					return i
				}
			}
		}
		return nil
	}
	if ok, why := po.everyTurn(fn, func(s *scen) {
		po.whole(s).atLeast("q.From", 1)
		s.atLeast(alias, 1)
	}, func(s *scen, e *FEvent) *T {
		if e.kind != "mapset" || !isNameMap(e.addr.typ) {
			return nil
		}
		return contains(e.args[0], 8, s)
	}); !ok {
		r.fail("alias", "the alias of an object may not be entered in the table of object names in %s: %s", shortFn(fn), why)
	}
}

// everyParam: the parameters of a function are normalised as well.
func (po *post) everyParam() {
	r := po.r
	if ok, why := po.everyTurn(po.fFn, func(s *scen) {
		s.kind("f", "Function").exactly("f.Name", 1).str("f.Name[]", "abs").atLeast("f.Parameters", 1)
	}, func(s *scen, e *FEvent) *T {
		if !po.isCall(e, po.fFn) {
			return nil
		}
		a := e.args[po.fParam]
		if a.op == "ia" && anyIdx(s.path(a)) == "f.Parameters[]" {
			return a.args[1]
		}
		return nil
	}); !ok {
		r.fail("params", "a parameter of a function may not be normalised in %s: %s", shortFn(po.fFn), why)
	}
}

// storedBack: what was normalised ends in the clause.
func (po *post) storedBack(m string) {
	r := po.r
	r.count("clauses with fields", 1)
	list := strings.SplitN(m, "[", 2)[0]
	passed := map[*T]bool{}
	root := func(a *T) *T {
		for a.op == "fa" {
			a = a.args[0]
		}
		return a
	}
	inList := func(s *scen, a *T) *T {
		if p := anyIdx(s.path(a)); p != list+"[]" && p != m {
			return nil
		}
		if a = root(a); a.op == "ia" {
			return a.args[1]
		}
		return nil
	}
	if ok, why := po.everyTurn(po.qFn, func(s *scen) {
		s.atLeast(list, 1).kind(m, "Field")
		switch list {
		case "q.Where", "q.Having":
			s.num(strings.TrimSuffix(m, ".Value")+".Opcode", po.p.constInt(typesPkg, "SoqlConditionOpcode_FieldInfo"))
		case "q.OrderBy", "q.GroupBy":
			s.aliasNames(m, 0)
		}
		if list == "q.Having" {
			s.atLeast("q.GroupBy", 1)
		}
		s.onAny = func(e *FEvent) {
			if c := s.fieldCall(e); c != nil && c.origin == m && !passed[e.args[po.fParam]] {
				passed[e.args[po.fParam]] = true
			}
		}
	}, func(s *scen, e *FEvent) *T {
		if c := s.fieldCall(e); c != nil && c.origin == m {
			return inList(s, e.args[po.fParam])
		}
		if e.kind != "store" {
			return nil
		}
		v := po.fieldIn(e.val, "SoqlFieldInfo")
		if v == nil {
			return nil
		}
		n := fieldOf(v, "Name")
		if n.op != "load" || n.args[0].op != "fa" || !passed[n.args[0].args[0]] {
			return nil
		}
		return inList(s, e.addr)
	}); !ok {
		r.fail("stored:"+m, "a field of %s may not be replaced by its normalised form in %s: %s", list, shortFn(po.qFn), why)
	}
}

// member reads a member of the structure at an address.
func (s *scen) member(st *FState, a *T, m string) *T {
	u, ok := under(ptrElem(a.typ)).(*types.Struct)
	if ok {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == m {
				return s.f.load(st, s.f.fa(a, u, i), u.Field(i).Type())
			}
		}
	}
	undec("%s has no %s", a, m)
	return nil
}
